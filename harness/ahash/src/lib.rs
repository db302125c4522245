//! Stand-in for ahash in the symbolic build: a hash function that looks at
//! little of its input, so that hashing symbolic content does not fork.
//! (Hash tables must be correct for any hash function.)
use std::hash::{BuildHasher, Hasher};
extern "C" {
    /// 0: look at the length and the low byte of the first word only; 1: look at everything;
    /// 2: look at the length only
    fn sym_hash_mode() -> u32;
}
#[derive(Clone, Debug, Default)]
pub struct RandomState;
impl RandomState {
    pub fn new() -> Self {
        RandomState
    }
    pub fn with_seeds(_: u64, _: u64, _: u64, _: u64) -> Self {
        RandomState
    }
    pub fn with_seed(_: usize) -> Self {
        RandomState
    }
}
impl RandomState {
    #[inline]
    pub fn hash_one<T: std::hash::Hash>(&self, x: T) -> u64 {
        BuildHasher::hash_one(self, x)
    }
}
pub struct AHasher {
    h: u64,
    seen: bool,
    full: bool,
    none: bool,
}
impl Default for AHasher {
    fn default() -> Self {
        RandomState.build_hasher()
    }
}
impl BuildHasher for RandomState {
    type Hasher = AHasher;
    #[inline]
    fn build_hasher(&self) -> AHasher {
        let m = unsafe { sym_hash_mode() };
        AHasher { h: 0, seen: false, full: m == 1, none: m == 2 }
    }
}
impl AHasher {
    #[inline]
    fn mix(&mut self, x: u64) {
        // (no multiplication when the content is symbolic in full)
        if self.full {
            self.h = self.h.rotate_left(3) ^ x;
        } else {
            self.h = (self.h.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
        }
    }
}
impl Hasher for AHasher {
    #[inline]
    fn write(&mut self, bytes: &[u8]) {
        if self.full {
            for c in bytes.chunks(4) {
                let mut x = 0u64;
                for (i, b) in c.iter().enumerate() {
                    x |= (*b as u64) << (8 * i);
                }
                self.mix(x);
            }
        } else if !self.seen {
            self.seen = true;
            let l = bytes.len() as u64;
            self.mix(l);
            if l > 0 && !self.none {
                let x = bytes[0] as u64;
                self.mix(x);
            }
        }
    }
    #[inline]
    fn write_u8(&mut self, i: u8) {
        self.write(&[i])
    }
    #[inline]
    fn write_u32(&mut self, i: u32) {
        if self.full {
            self.mix(i as u64)
        } else {
            self.write(&i.to_le_bytes())
        }
    }
    #[inline]
    fn write_u64(&mut self, i: u64) {
        if self.full {
            self.mix(i)
        } else {
            self.write(&i.to_le_bytes())
        }
    }
    #[inline]
    fn write_usize(&mut self, i: usize) {
        // lengths are concrete
        self.mix(i as u64)
    }
    #[inline]
    fn finish(&self) -> u64 {
        if self.full {
            (self.h & 0xff_ffff) ^ (self.h << 57)
        } else {
            self.h ^ (self.h >> 29)
        }
    }
}
