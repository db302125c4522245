//! Printing: what is printed is read back, and means the same.
use crate::gen::*;
use crate::h_match::*;
use crate::rt::*;
use crate::spec::*;
use derivre::raw::*;
use derivre::*;
use std::rc::Rc;

/// reads a printed expression back
struct Rd<'a> {
    s: &'a [u8],
    i: usize,
    /// symbols of the alphabet, for `_`
    k: usize,
    ok: bool,
}
impl<'a> Rd<'a> {
    fn new(s: &'a str, k: usize) -> Rd<'a> {
        Rd { s: s.as_bytes(), i: 0, k, ok: true }
    }
    fn peek(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn next(&mut self) -> u8 {
        let c = self.peek();
        self.i += 1;
        c
    }
    fn eat(&mut self, t: &str) -> bool {
        let t = t.as_bytes();
        if self.i + t.len() <= self.s.len() && &self.s[self.i..self.i + t.len()] == t {
            self.i += t.len();
            return true;
        }
        false
    }
    fn must(&mut self, t: &str) {
        if !self.eat(t) {
            self.ok = false;
        }
    }
    fn num(&mut self) -> u32 {
        let mut n = 0u32;
        let at = self.i;
        while self.peek().is_ascii_digit() {
            n = n.wrapping_mul(10).wrapping_add((self.next() - b'0') as u32);
        }
        if at == self.i {
            self.ok = false;
        }
        n
    }
    fn hex(c: u8) -> Option<u32> {
        match c {
            b'0'..=b'9' => Some((c - b'0') as u32),
            b'A'..=b'F' => Some((c - b'A') as u32 + 10),
            b'a'..=b'f' => Some((c - b'a') as u32 + 10),
            _ => None,
        }
    }
    /// a character inside quotes
    fn chr(&mut self, out: &mut Vec<u8>) {
        let c = self.next();
        if c != b'\\' {
            out.push(c);
            return;
        }
        match self.next() {
            b'0' => out.push(0),
            b't' => out.push(9),
            b'n' => out.push(10),
            b'r' => out.push(13),
            b'u' => {
                self.must("{");
                let mut n = 0;
                while let Some(x) = Self::hex(self.peek()) {
                    n = n * 16 + x;
                    self.i += 1;
                }
                self.must("}");
                match char::from_u32(n) {
                    Some(c) => {
                        let mut b = [0; 4];
                        out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                    }
                    None => self.ok = false,
                }
            }
            c => out.push(c),
        }
    }
    fn item(&mut self) -> usize {
        if self.eat("'") {
            let mut v = vec![];
            self.chr(&mut v);
            self.must("'");
            return if v.len() == 1 { v[0] as usize } else { self.bad() };
        }
        if self.eat("s") {
            return self.num() as usize;
        }
        let (a, b) = (self.next(), self.next());
        match (Self::hex(a), Self::hex(b)) {
            (Some(a), Some(b)) => (a * 16 + b) as usize,
            _ => self.bad(),
        }
    }
    fn bad(&mut self) -> usize {
        self.ok = false;
        0
    }
    fn items(&mut self) -> [u8; 256] {
        let mut t = [0u8; 256];
        if self.eat("_") {
            for i in 0..self.k {
                t[i] = 1;
            }
            return t;
        }
        loop {
            let a = self.item();
            let b = if self.eat("-") { self.item() } else { a };
            if !self.ok || a > b || b > 255 {
                self.ok = false;
                return t;
            }
            for i in a..=b {
                t[i] = 1;
            }
            if !self.eat(";") {
                return t;
            }
        }
    }
    fn group(&mut self) -> T {
        self.must("(");
        let t = self.expr();
        self.must(")");
        t
    }
    fn expr(&mut self) -> T {
        if !self.ok || self.i >= self.s.len() {
            self.ok = false;
            return T::Nothing;
        }
        if self.eat("ε") {
            return T::Eps;
        }
        if self.eat("∅") {
            return T::Nothing;
        }
        if self.eat("[") {
            let t = self.items();
            self.must("]");
            return T::Set(Rc::new(t));
        }
        if self.eat("\"") {
            let mut v = vec![];
            while self.ok && self.peek() != b'"' {
                if self.i >= self.s.len() {
                    self.ok = false;
                    break;
                }
                self.chr(&mut v);
            }
            self.must("\"");
            return T::lit(&v);
        }
        if self.eat("(¬") {
            let t = self.group();
            self.must(")");
            return T::not(t);
        }
        if self.eat("(?[+") {
            self.num();
            self.must("]=");
            let t = self.group();
            self.must(")");
            return T::lookahead(t);
        }
        if self.eat("prefixes(") {
            let t = self.group();
            self.must(")");
            return T::pref(t);
        }
        if self.eat("(") {
            let mut v = vec![self.expr()];
            let mut kind = 0u8;
            while self.ok && self.peek() != b')' {
                let k = if self.eat(" | ") {
                    b'|'
                } else if self.eat(" & ") {
                    b'&'
                } else {
                    self.must(" ");
                    b'.'
                };
                if kind != 0 && kind != k {
                    self.ok = false;
                }
                kind = k;
                v.push(self.expr());
            }
            self.must(")");
            if kind == 0 {
                let t = v.pop().unwrap();
                return match self.peek() {
                    b'*' => {
                        self.i += 1;
                        T::star(t)
                    }
                    b'+' => {
                        self.i += 1;
                        T::plus(t)
                    }
                    b'?' => {
                        self.i += 1;
                        T::opt(t)
                    }
                    b'{' => {
                        self.i += 1;
                        let a = self.num();
                        self.must(", ");
                        let b = self.num();
                        self.must("}");
                        T::rep(t, a, b)
                    }
                    _ => t,
                };
            }
            return match kind {
                b'|' => T::Or(v),
                b'&' => T::And(v),
                _ => T::Cat(v),
            };
        }
        let a = self.item();
        if a > 255 {
            self.ok = false;
            return T::Nothing;
        }
        T::set(&[a as u8])
    }
}

/// `s` reads back completely
fn read(s: &str, k: usize) -> T {
    note(s);
    let mut r = Rd::new(s, k);
    let t = r.expr();
    check(r.ok && r.i == s.len(), 1);
    t
}

/// args: 0, alphabet size, fill, 4 positions: every byte set over the alphabet
///       1, pool, operators (or shape), word length, limit, pinned...: expressions
///       2, (the same): after compression
///       3, (the same): syntax trees
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_print() {
    match arg(0) {
        0 => sets(),
        1 => exprs(),
        2 => compressed(),
        _ => trees(),
    }
}

fn sets() {
    let (k, fill) = (arg(1) as usize, arg(2) != 0);
    let words = (k + 31) / 32;
    let mut tab = [0u8; 256];
    for i in 0..k {
        tab[i] = fill as u8;
    }
    for i in 0..4 {
        tab[arg(3 + i) as usize % k] = choose(2) as u8;
    }
    let mut bs = vec![0u32; words];
    let mut n = 0;
    for i in 0..k {
        bs[i / 32] |= (tab[i] as u32) << (i % 32);
        n += tab[i] as usize;
    }
    let mut es = ExprSet::new(k);
    let e = es.mk_byte_set(&bs);
    let s = es.expr_to_string(e);
    cover(1);
    match read(&s, k) {
        T::Set(t) => check(*t == tab, 2),
        T::Nothing => check(n == 0, 3),
        _ => check(false, 4),
    }
    // inside a larger expression
    let f = es.mk_concat(vec![e, e]);
    let s = es.expr_to_string(f);
    let w = [any_u8(), any_u8()];
    if k < 256 {
        assume(((w[0] as usize) < k) & ((w[1] as usize) < k));
    }
    lut(true);
    let want = look(&tab, w[0]) & look(&tab, w[1]);
    lut(false);
    let t = read(&s, k);
    check(Spec::new(&w).member(&t) == want, 5);
}

fn subject(base: u32) -> (T, Vec<u8>, u32) {
    let (pool, o, n) = (arg(1), arg(2), arg(3) as usize);
    let mut p = Pick::new(base);
    let t = if o >= 100 {
        template(o - 100, &mut || leaf(pool, &mut p))
    } else {
        const OPS: &[Op] = &[Op::Cat, Op::Or, Op::And, Op::Not, Op::Star, Op::Plus, Op::Opt, Op::Rep23, Op::Rep2];
        Gen { ops: OPS, leaf: &mut |p| leaf(pool, p) }.exact(&mut p, o)
    };
    note(&show(&t));
    (t, word(n), arg(4))
}

fn exprs() {
    let (t, w, lim) = subject(5);
    let want = Spec::new(&w).member(&t);
    let mut b = RegexBuilder::new();
    let e = b.mk(&to_ast(&t)).unwrap();
    let es = b.exprset();
    let s = es.expr_to_string(e);
    let u = read(&s, 256);
    check(Spec::new(&w).member(&u) == want, 2);
    cover(1);
    check(es.expr_to_string_with_info(e).starts_with(&s[..]), 3);
    // with a limit: never fails; nothing is cut off what fits
    if lim > 0 {
        let l = any_below(lim.min(255) as u8) as usize;
        let x = es.expr_to_string_max_len(e, l);
        check((l < s.len()) | (x == s), 4);
    }
}

fn compressed() {
    let (t, w, _) = subject(5);
    let want = Spec::new(&w).member(&t);
    let mut b = RegexBuilder::new();
    let e = b.mk(&to_ast(&t)).unwrap();
    let (alpha, es, out) = AlphabetInfo::from_exprset(b.exprset(), &[e]);
    let s = es.expr_to_string(out[0]);
    let u = read(&s, alpha.len());
    let m: Vec<u8> = w.iter().map(|c| alpha.map(*c) as u8).collect();
    check(Spec::new(&m).member(&u) == want, 2);
    cover(2);
    // the classes are listed with their members
    let all = es.expr_to_string_with_info(out[0]);
    check(all.starts_with(&s[..]), 3);
    let mut r = Rd::new(&all, 256);
    r.i = s.len();
    if r.eat("\n") {
        for k in 0..alpha.len() {
            r.must("    s");
            check(r.num() as usize == k, 5);
            r.must(": ");
            let set = r.items();
            r.must("\n");
            for c in 0..256 {
                check((set[c] != 0) == (alpha.map(c as u8) == k), 6);
            }
        }
        cover(3);
    }
    check(r.ok && r.i == all.len(), 7);
}

fn walk_tree(a: &RegexAst, r: &mut Rd) {
    r.must(" (");
    r.must(a.tag());
    let mut set = None;
    match a {
        RegexAst::Byte(b) => {
            let mut t = [0u8; 256];
            t[*b as usize] = 1;
            set = Some(t);
        }
        RegexAst::ByteSet(s) => {
            let mut t = [0u8; 256];
            for i in 0..256 {
                t[i] = (s[i / 32] >> (i % 32)) as u8 & 1;
            }
            set = Some(t);
        }
        RegexAst::Repeat(_, a, b) => {
            r.must("{");
            check(r.num() == *a, 5);
            r.must(",");
            check(r.num() == *b, 6);
            r.must("} ");
        }
        _ => {}
    }
    if let Some(t) = set {
        r.must(" ");
        check(r.items() == t, 7);
    }
    for c in a.get_args() {
        walk_tree(c, r);
    }
    r.must(")");
}

fn trees() {
    let (t, _, lim) = subject(5);
    let a = to_ast(&t);
    let mut s = String::new();
    a.write_to_str(&mut s, 100000, None);
    note(&s);
    let mut r = Rd::new(&s, 256);
    walk_tree(&a, &mut r);
    check(r.ok && r.i == s.len(), 1);
    cover(4);
    // the limit only cuts the end off
    if lim > 0 {
        let l = any_below(lim.min(255) as u8) as usize;
        let mut x = String::new();
        a.write_to_str(&mut x, l, None);
        if x != s {
            check(x.ends_with("..."), 2);
            let k = x.len() - 3;
            check(k >= l && k <= s.len() && x[..k] == s[..k], 3);
        }
    }
}
