//! Compiled regexes (RegexBuilder -> Regex) against the reference semantics.
use crate::gen::*;
use crate::rt::*;
use crate::spec::*;
use derivre::*;

/// leaf pools over the 256-byte alphabet
pub fn leaf(pool: u32, p: &mut Pick) -> T {
    match pool {
        // small
        0 => match p.pick(3) {
            0 => T::set(b"a"),
            1 => T::set(b"ab"),
            _ => T::nset(b"b"),
        },
        1 => match p.pick(6) {
            0 => T::set(b"a"),
            1 => T::range(b'b', b'c'),
            2 => T::nset(b"ab"),
            3 => T::Eps,
            4 => T::any_str(),
            _ => T::lit(b"ab"),
        },
        // ASCII only, for the regex syntax
        3 => match p.pick(4) {
            0 => T::set(b"a"),
            1 => T::set(b"ab"),
            2 => T::range(b'b', 0x7f),
            _ => T::Eps,
        },
        6 | 7 | 8 => match p.pick(2) {
            0 => T::set(b"a"),
            _ => T::set(b"ab"),
        },
        // the extreme bytes
        5 => match p.pick(4) {
            0 => T::set(&[0]),
            1 => T::set(&[255]),
            2 => T::range(254, 255),
            _ => T::nset(&[0]),
        },
        4 => match p.pick(4) {
            0 => T::Eps,
            1 => T::Nothing,
            2 => T::any_str(),
            _ => T::set(b"a"),
        },
        _ => match p.pick(9) {
            0 => T::set(b"a"),
            1 => T::set(b"b"),
            2 => T::set(b"ab"),
            3 => T::nset(b"a"),
            4 => T::range(0x80, 0xff),
            5 => T::nset(&[]),
            6 => T::Eps,
            7 => T::Nothing,
            _ => T::lit(b"aa"),
        },
    }
}
pub const OPS: &[Op] = &[Op::Cat, Op::Or, Op::And, Op::Not, Op::Star, Op::Plus, Op::Opt, Op::Rep23, Op::Rep2];

pub fn word(n: usize) -> Vec<u8> {
    (0..n).map(|i| if i + 1 == n { any_u8() } else { letter() }).collect()
}
/// a byte that is not the last of its word
pub fn letter() -> u8 {
    let c = any_u8();
    if cfg!(not(feature = "compress")) {
        // (without classes of bytes, every byte takes its own path)
        assume((c == 0) | (c == b'a') | (c == b'b') | (c == b'c') | (c == 255));
    }
    c
}

/// args: pool, operators, word length, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_match() {
    let (pool, o, n) = (arg(0), arg(1), arg(2) as usize);
    let mut p = Pick::new(3);
    let t = if o >= 100 {
        template(o - 100, &mut || leaf(pool, &mut p))
    } else {
        Gen { ops: OPS, leaf: &mut |p| leaf(pool, p) }.exact(&mut p, o)
    };
    note(&show(&t));
    let w = word(n);
    lut(true);
    let m = Spec::new(&w).mat(&t);
    lut(false);
    let mut b = RegexBuilder::new();
    let e = b.mk(&to_ast(&t)).unwrap();
    let mut r = b.to_regex(e);
    for j in 0..=n {
        let got = r.is_match_bytes(&w[..j]);
        check((got as u8) == m.at(0, j), 1);
        cover(if got { 1 } else { 2 });
    }
}
