//! The reference semantics: what a regular expression means, computed by
//! branch-free dynamic programming over the sub-words of one (symbolic) word.
//! Nothing here uses the code under test.
use crate::rt::*;
use std::rc::Rc;

#[derive(Clone)]
pub enum T {
    Eps,
    Nothing,
    /// one letter out of a concrete set of bytes
    Set(Rc<[u8; 256]>),
    /// one letter out of a symbolic set over a small alphabet (letters 0..8)
    Mask(u8),
    /// one letter, equal to the (symbolic) letter
    Letter(u8),
    /// one UTF-8 encoded scalar value out of ranges
    Chars(Vec<(u32, u32)>),
    Cat(Vec<T>),
    Or(Vec<T>),
    And(Vec<T>),
    Not(Box<T>),
    /// min, max (u32::MAX: no limit); both may be symbolic
    Rep(Box<T>, u32, u32),
    Pref(Box<T>),
    Look(Box<T>),
}

/// m.at(i,j) = 1 iff w[i..j] is in the language (i<=j)
#[derive(Clone)]
pub struct Mat {
    pub n: usize,
    pub v: Vec<u8>,
}
impl Mat {
    pub fn zero(n: usize) -> Mat {
        Mat { n, v: vec![0; (n + 1) * (n + 1)] }
    }
    pub fn eye(n: usize) -> Mat {
        let mut m = Mat::zero(n);
        for i in 0..=n {
            m.set(i, i, 1);
        }
        m
    }
    #[inline(always)]
    pub fn at(&self, i: usize, j: usize) -> u8 {
        self.v[i * (self.n + 1) + j]
    }
    #[inline(always)]
    pub fn set(&mut self, i: usize, j: usize, x: u8) {
        self.v[i * (self.n + 1) + j] = x;
    }
    pub fn mul(&self, o: &Mat) -> Mat {
        let n = self.n;
        let mut r = Mat::zero(n);
        for i in 0..=n {
            for j in i..=n {
                let mut x = 0u8;
                for k in i..=j {
                    x |= self.at(i, k) & o.at(k, j);
                }
                r.set(i, j, x);
            }
        }
        r
    }
    pub fn or(&mut self, o: &Mat) {
        for i in 0..self.v.len() {
            self.v[i] |= o.v[i];
        }
    }
    pub fn and(&mut self, o: &Mat) {
        for i in 0..self.v.len() {
            self.v[i] &= o.v[i];
        }
    }
    /// every entry masked with x (0 or 1)
    pub fn scale(&self, x: u8) -> Mat {
        let mut r = self.clone();
        for e in r.v.iter_mut() {
            *e &= x;
        }
        r
    }
}

#[inline(always)]
pub fn b01(x: bool) -> u8 {
    x as u8
}
#[inline(always)]
pub fn look(tab: &[u8; 256], b: u8) -> u8 {
    tab[b as usize]
}

/// 1 iff the segment s is exactly the UTF-8 encoding of a scalar value in one of the ranges
pub fn utf8_in(s: &[u8], ranges: &[(u32, u32)]) -> u8 {
    let cont = |b: u8| b01(b & 0xc0 == 0x80);
    let (ok, cp) = match s.len() {
        1 => (b01(s[0] < 0x80), s[0] as u32),
        2 => (
            b01(s[0] & 0xe0 == 0xc0) & cont(s[1]),
            ((s[0] as u32 & 0x1f) << 6) | (s[1] as u32 & 0x3f),
        ),
        3 => (
            b01(s[0] & 0xf0 == 0xe0) & cont(s[1]) & cont(s[2]),
            ((s[0] as u32 & 0xf) << 12) | ((s[1] as u32 & 0x3f) << 6) | (s[2] as u32 & 0x3f),
        ),
        4 => (
            b01(s[0] & 0xf8 == 0xf0) & cont(s[1]) & cont(s[2]) & cont(s[3]),
            ((s[0] as u32 & 7) << 18)
                | ((s[1] as u32 & 0x3f) << 12)
                | ((s[2] as u32 & 0x3f) << 6)
                | (s[3] as u32 & 0x3f),
        ),
        _ => (0, 0),
    };
    let min = [0u32, 0, 0x80, 0x800, 0x10000][s.len().min(4)];
    let valid = ok & b01(cp >= min) & b01(cp <= 0x10ffff) & (1 - (b01(cp >= 0xd800) & b01(cp <= 0xdfff)));
    let mut r = 0u8;
    for (a, b) in ranges {
        r |= b01(cp >= *a) & b01(cp <= *b);
    }
    r & valid
}

/// JSON string escaping of one byte: is `s` an escaped form of a byte in the set `tab`?
/// `allowed`: the escape letters that may follow a backslash.
pub fn json_in(s: &[u8], tab: &[u8; 256], allowed: &[u8]) -> u8 {
    let ok = |c: u8| allowed.contains(&c);
    match s.len() {
        1 => {
            let b = s[0];
            look(tab, b) & b01(b >= 0x20) & b01(b != b'"') & b01(b != b'\\') & b01(b != 0x7f)
        }
        2 => {
            let mut r = 0;
            for (q, b) in [(b'"', b'"'), (b'\\', b'\\'), (b'b', 8u8), (b'f', 12), (b'n', 10), (b'r', 13), (b't', 9)] {
                if ok(q) && tab[b as usize] != 0 {
                    r |= b01(s[1] == q);
                }
            }
            r & b01(s[0] == b'\\')
        }
        6 => {
            if !ok(b'u') {
                return 0;
            }
            let hd = |c: u8| -> (u8, u8) {
                let dig = b01(c >= b'0') & b01(c <= b'9');
                let up = b01(c >= b'A') & b01(c <= b'F');
                let lo = b01(c >= b'a') & b01(c <= b'f');
                (dig | up | lo, (c & 15).wrapping_add((up | lo) * 9) & 15)
            };
            let (o1, h1) = hd(s[4]);
            let (o2, h2) = hd(s[5]);
            // the set, looked up row by row
            let mut inset = 0u8;
            for k in 0..16usize {
                if tab[k * 16..k * 16 + 16].iter().any(|x| *x != 0) {
                    let mut row = [0u8; 256];
                    row[..16].copy_from_slice(&tab[k * 16..k * 16 + 16]);
                    inset |= b01(h1 == k as u8) & look(&row, h2);
                }
            }
            let need = b01(h1 < 2) | (b01(h1 == 7) & b01(h2 == 15) & b01(s[5] == b'F'));
            b01(s[0] == b'\\')
                & b01(s[1] == b'u')
                & b01(s[2] == b'0')
                & b01(s[3] == b'0')
                & o1
                & o2
                & need
                & inset
        }
        _ => 0,
    }
}

pub struct Spec<'a> {
    pub w: &'a [u8],
    /// Some(allowed): languages of JSON-quoted strings
    pub json: Option<&'a [u8]>,
}

impl T {
    pub fn set(bytes: &[u8]) -> T {
        let mut t = [0u8; 256];
        for b in bytes {
            t[*b as usize] = 1;
        }
        T::Set(Rc::new(t))
    }
    pub fn nset(bytes: &[u8]) -> T {
        let mut t = [1u8; 256];
        for b in bytes {
            t[*b as usize] = 0;
        }
        T::Set(Rc::new(t))
    }
    pub fn range(a: u8, b: u8) -> T {
        let mut t = [0u8; 256];
        for x in a..=b {
            t[x as usize] = 1;
        }
        T::Set(Rc::new(t))
    }
    pub fn lit(s: &[u8]) -> T {
        T::Cat(s.iter().map(|b| T::set(&[*b])).collect())
    }
    pub fn star(t: T) -> T {
        T::Rep(Box::new(t), 0, u32::MAX)
    }
    pub fn plus(t: T) -> T {
        T::Rep(Box::new(t), 1, u32::MAX)
    }
    pub fn opt(t: T) -> T {
        T::Rep(Box::new(t), 0, 1)
    }
    pub fn rep(t: T, a: u32, b: u32) -> T {
        T::Rep(Box::new(t), a, b)
    }
    pub fn not(t: T) -> T {
        T::Not(Box::new(t))
    }
    pub fn pref(t: T) -> T {
        T::Pref(Box::new(t))
    }
    pub fn lookahead(t: T) -> T {
        T::Look(Box::new(t))
    }
    pub fn any_str() -> T {
        T::star(T::nset(&[]))
    }
    /// no And / Not inside (so that emptiness and prefixes are structural)
    pub fn simple(&self) -> bool {
        match self {
            T::And(_) | T::Not(_) => false,
            T::Cat(v) | T::Or(v) => v.iter().all(|x| x.simple()),
            T::Rep(t, _, _) | T::Pref(t) | T::Look(t) => t.simple(),
            _ => true,
        }
    }
    pub fn has(&self, f: &dyn Fn(&T) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            T::Cat(v) | T::Or(v) | T::And(v) => v.iter().any(|x| x.has(f)),
            T::Rep(t, _, _) | T::Pref(t) | T::Look(t) | T::Not(t) => t.has(f),
            _ => false,
        }
    }
    /// number of leaves, so that witnesses can be bounded
    pub fn leaves(&self) -> usize {
        match self {
            T::Cat(v) | T::Or(v) | T::And(v) => v.iter().map(|x| x.leaves()).sum(),
            T::Rep(t, _, _) | T::Pref(t) | T::Look(t) | T::Not(t) => t.leaves(),
            _ => 1,
        }
    }
}

impl<'a> Spec<'a> {
    pub fn new(w: &'a [u8]) -> Spec<'a> {
        Spec { w, json: None }
    }
    /// is the whole word in the language?
    pub fn member(&self, t: &T) -> u8 {
        lut(true);
        let r = self.mat(t).at(0, self.w.len());
        lut(false);
        r
    }
    fn seg1(&self, f: impl Fn(u8) -> u8) -> Mat {
        let n = self.w.len();
        let mut m = Mat::zero(n);
        for i in 0..n {
            m.set(i, i + 1, f(self.w[i]));
        }
        m
    }
    /// powers with non-empty factors: q[j] = j-fold product of the non-empty part
    fn powers(&self, m: &Mat) -> Vec<Mat> {
        let n = self.w.len();
        let mut q = m.clone();
        for i in 0..=n {
            q.set(i, i, 0);
        }
        let mut r = vec![Mat::eye(n)];
        for j in 0..n {
            let x = r[j].mul(&q);
            r.push(x);
        }
        r
    }
    pub fn mat(&self, t: &T) -> Mat {
        let n = self.w.len();
        match t {
            T::Eps => Mat::eye(n),
            T::Nothing => Mat::zero(n),
            T::Set(tab) => match self.json {
                None => self.seg1(|b| look(tab, b)),
                Some(al) => {
                    let mut m = Mat::zero(n);
                    for i in 0..n {
                        for l in [1, 2, 6] {
                            if i + l <= n {
                                m.set(i, i + l, json_in(&self.w[i..i + l], tab, al));
                            }
                        }
                    }
                    m
                }
            },
            T::Mask(k) => self.seg1(|b| (*k >> (b & 7)) & 1),
            T::Letter(c) => self.seg1(|b| b01(b == *c)),
            T::Chars(r) => {
                let mut m = Mat::zero(n);
                for i in 0..n {
                    for l in 1..=4 {
                        if i + l <= n {
                            m.set(i, i + l, utf8_in(&self.w[i..i + l], r));
                        }
                    }
                }
                m
            }
            T::Cat(v) => {
                let mut m = Mat::eye(n);
                for x in v {
                    m = m.mul(&self.mat(x));
                }
                m
            }
            T::Or(v) => {
                let mut m = Mat::zero(n);
                for x in v {
                    m.or(&self.mat(x));
                }
                m
            }
            T::And(v) => {
                let mut m = Mat { n, v: vec![1; (n + 1) * (n + 1)] };
                for x in v {
                    m.and(&self.mat(x));
                }
                m
            }
            T::Not(x) => {
                let mut m = self.mat(x);
                for i in 0..=n {
                    for j in i..=n {
                        let y = m.at(i, j) ^ 1;
                        m.set(i, j, y);
                    }
                }
                m
            }
            T::Rep(x, min, max) => {
                let m = self.mat(x);
                let null = m.at(0, 0);
                let q = self.powers(&m);
                let mut r = Mat::zero(n);
                for j in 0..=n {
                    let ok = b01(j as u32 <= *max) & (b01(j as u32 >= *min) | null);
                    r.or(&q[j].scale(ok));
                }
                r
            }
            T::Pref(x) => self.pref(x),
            // a look-ahead stops at its first match
            T::Look(x) => {
                let mut m = self.mat(x);
                for i in 0..=n {
                    let mut seen = 0u8;
                    for j in i..=n {
                        let y = m.at(i, j);
                        m.set(i, j, y & (seen ^ 1));
                        seen |= y;
                    }
                }
                m
            }
        }
    }
    /// does the language contain any word at all (And/Not-free only)
    pub fn nonempty(&self, t: &T) -> u8 {
        match t {
            T::Eps => 1,
            T::Nothing => 0,
            T::Set(tab) => {
                let mut r = 0;
                for x in tab.iter() {
                    r |= *x;
                }
                r
            }
            T::Mask(k) => b01(*k != 0),
            T::Letter(_) => 1,
            T::Chars(r) => b01(!r.is_empty()),
            T::Cat(v) => v.iter().fold(1, |a, x| a & self.nonempty(x)),
            T::Or(v) => v.iter().fold(0, |a, x| a | self.nonempty(x)),
            T::Rep(x, min, _) => b01(*min == 0) | self.nonempty(x),
            T::Pref(x) | T::Look(x) => self.nonempty(x),
            T::And(_) | T::Not(_) => panic!("nonempty of and/not"),
        }
    }
    /// prefixes of the words of an And/Not-free expression
    pub fn pref(&self, t: &T) -> Mat {
        let n = self.w.len();
        match t {
            T::Eps => Mat::eye(n),
            T::Nothing => Mat::zero(n),
            T::Set(_) | T::Mask(_) | T::Letter(_) => {
                let mut m = self.mat(t);
                m.or(&Mat::eye(n).scale(self.nonempty(t)));
                m
            }
            T::Chars(_) => panic!("prefixes of chars"),
            T::Cat(v) => {
                let mut head = Mat::eye(n);
                let mut r = Mat::eye(n);
                for x in v {
                    r.or(&head.mul(&self.pref(x)));
                    head = head.mul(&self.mat(x));
                }
                r.scale(self.nonempty(t))
            }
            T::Or(v) => {
                let mut m = Mat::zero(n);
                for x in v {
                    m.or(&self.pref(x));
                }
                m
            }
            T::Rep(x, min, max) => {
                let p = self.pref(x);
                let q = self.powers(&self.mat(x));
                let mut r = Mat::eye(n).scale(b01(*min == 0) | self.nonempty(x));
                for j in 0..=n {
                    let ok = b01((j as u32) < *max);
                    r.or(&q[j].mul(&p).scale(ok));
                }
                r
            }
            T::Pref(x) => self.pref(x),
            T::Look(_) | T::And(_) | T::Not(_) => panic!("prefixes of look/and/not"),
        }
    }
}

/// all words over 0..k (mapped through letters) of length <= n
pub fn words(letters: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut r = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = r.len();
        for i in from..to {
            for l in letters {
                let mut w: Vec<u8> = r[i].clone();
                w.push(*l);
                r.push(w);
            }
        }
        from = to;
    }
    r
}
