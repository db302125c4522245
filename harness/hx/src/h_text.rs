//! Regex syntax, JSON quoting, parser options.
use crate::gen::*;
use crate::h_match::*;
use crate::rt::*;
use crate::spec::*;
use derivre::*;

/// ranges of scalar values around the boundaries of the UTF-8 encoding
pub const RANGES: &[&[(u32, u32)]] = &[
    &[(0x61, 0x61)],
    &[(0x61, 0x63), (0x66, 0x66)],
    &[(0x7f, 0x80)],
    &[(0x3b1, 0x3c9)],
    &[(0x7ff, 0x800)],
    &[(0x0, 0x10ffff)],
    &[(0xd7ff, 0xd7ff), (0xe000, 0xe000)],
    &[(0xffff, 0x10000)],
    &[(0x10fffe, 0x10ffff)],
    &[(0x0, 0x60), (0x62, 0x10ffff)],
    &[(0x80, 0x10ffff)],
    &[(0xfff, 0x1001), (0x1fff, 0x2100)],
    &[(0x61, 0x61), (0xe9, 0xea), (0x20ac, 0x20ac), (0x1f600, 0x1f64f)],
    &[(0x3ffff, 0x40000), (0xfffff, 0x100000)],
    &[(0x800, 0xffff)],
    &[(0x0, 0x9), (0xb, 0x10ffff)],
    // starting like others
    &[(0x61, 0x62)],
    &[(0x3b1, 0x3b1)],
];
fn chars(i: u32) -> T {
    T::Chars(RANGES[i as usize].to_vec())
}

/// args: 0 builder / 1 Regex::new / 2 ast, shape, word length, pinned...
/// character classes and their UTF-8 encoding
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_utf8() {
    let (kind, shape, n) = (arg(0), arg(1), arg(2) as usize);
    let mut p = Pick::new(3);
    let i = p.pick(RANGES.len() as u32);
    let c = chars(i);
    let t = match shape {
        0 => c,
        1 => T::star(c),
        2 => {
            let j = p.pick(RANGES.len() as u32);
            T::Cat(vec![c, chars(j)])
        }
        3 => {
            let j = p.pick(RANGES.len() as u32);
            T::Or(vec![c, T::Cat(vec![chars(j), T::set(b"a")])])
        }
        4 => T::Cat(vec![T::set(b"a"), T::rep(c, 1, 2), T::set(b"b")]),
        5 => T::not(c),
        _ => {
            let j = p.pick(RANGES.len() as u32);
            T::And(vec![T::star(c), T::not(T::star(chars(j)))])
        }
    };
    note(&show(&t));
    let w = word(n);
    let want = Spec::new(&w).member(&t);
    let mut r = match kind {
        0 => {
            let mut b = RegexBuilder::new();
            let e = b.mk_regex(&to_pat(&t)).unwrap();
            b.to_regex(e)
        }
        1 => Regex::new(&to_pat(&t)).unwrap(),
        _ => {
            let mut b = RegexBuilder::new();
            let e = b.mk(&to_ast(&t)).unwrap();
            b.to_regex(e)
        }
    };
    let got = r.is_match_bytes(&w);
    check(got as u8 == want, 1);
    cover(got as u32);
}

/// one range of scalar values with both ends close to given ones
/// args: 0 builder / 1 Regex::new, lower end, upper end, word length, how far the ends go
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_utf8r() {
    let (kind, lo, hi, n, d) = (arg(0), arg(1), arg(2), arg(3) as usize, arg(4));
    let near = |x: u32| {
        let y = (x + choose(2 * d + 1)).saturating_sub(d);
        if y > 0x10ffff || (0xd800..0xe000).contains(&y) {
            assume(false);
        }
        y
    };
    let (a, b) = (near(lo), near(hi));
    if a > b {
        assume(false);
    }
    let t = T::Chars(vec![(a, b)]);
    note(&show(&t));
    let w = word(n);
    let want = Spec::new(&w).member(&t);
    let mut r = if kind == 0 {
        let mut b = RegexBuilder::new();
        let e = b.mk_regex(&to_pat(&t)).unwrap();
        b.to_regex(e)
    } else {
        Regex::new(&to_pat(&t)).unwrap()
    };
    let got = r.is_match_bytes(&w);
    check(got as u8 == want, 1);
    cover(got as u32);
}

/// args: pool, operators, word length, pinned...: patterns without Unicode
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_syntax() {
    let (pool, o, n) = (arg(0), arg(1), arg(2) as usize);
    let mut p = Pick::new(3);
    const OPS: &[Op] = &[Op::Cat, Op::Or, Op::Star, Op::Plus, Op::Opt, Op::Rep23, Op::Rep02, Op::Cat3, Op::Or3];
    let t = Gen { ops: OPS, leaf: &mut |p| leaf(pool, p) }.exact(&mut p, o);
    note(&show(&t));
    let w = word(n);
    let want = Spec::new(&w).member(&t);
    let mut r = Regex::new(&to_pat(&t)).unwrap();
    let got = r.is_match_bytes(&w);
    check(got as u8 == want, 1);
    cover(got as u32);
}

/// pattern, options, denotation (None: must be rejected)
fn cases() -> Vec<(&'static str, u32, Option<T>)> {
    let a = || T::set(b"a");
    let any = || T::Chars(vec![(0, 0x10ffff)]);
    let nonl = || T::Chars(vec![(0, 9), (0xb, 0x10ffff)]);
    // options: 1 case_insensitive, 2 dot_matches_new_line, 4 ignore_whitespace, 8 unicode(false), 16 utf8(false)
    vec![
        ("a.", 0, Some(T::Cat(vec![a(), nonl()]))),
        ("a.", 2, Some(T::Cat(vec![a(), any()]))),
        ("(?s)a.", 0, Some(T::Cat(vec![a(), any()]))),
        ("(?-s)a.", 2, Some(T::Cat(vec![a(), nonl()]))),
        ("aB", 1, Some(T::Cat(vec![T::set(b"aA"), T::set(b"bB")]))),
        ("a(?i)b", 0, Some(T::Cat(vec![a(), T::set(b"bB")]))),
        ("[a-c]d", 1, Some(T::Cat(vec![T::set(b"abcABC"), T::set(b"dD")]))),
        ("a b # x", 4, Some(T::lit(b"ab"))),
        ("a b", 0, Some(T::lit(b"a b"))),
        ("(?x)a b", 0, Some(T::lit(b"ab"))),
        ("(?-u)a[^b]", 16, Some(T::Cat(vec![a(), T::nset(b"b")]))),
        ("a[^b]", 24, Some(T::Cat(vec![a(), T::nset(b"b")]))),
        (".", 24, Some(T::nset(b"\n"))),
        (".", 26, Some(T::nset(b""))),
        ("(?-u)[\\x80-\\xff]", 16, Some(T::range(0x80, 0xff))),
        ("\\xff", 0, Some(T::Chars(vec![(0xff, 0xff)]))),
        ("(?-u)\\xff", 16, Some(T::set(&[0xff]))),
        ("[^b]", 8, None),
        ("(?-u)\\xff", 0, None),
        ("k", 1, Some(T::Chars(vec![(0x4b, 0x4b), (0x6b, 0x6b), (0x212a, 0x212a)]))),
        ("s", 9, Some(T::set(b"sS"))),
        ("\\d", 8, Some(T::range(b'0', b'9'))),
        ("^ab$", 0, Some(T::lit(b"ab"))),
        ("^(a|b)$", 0, Some(T::set(b"ab"))),
        ("(^a|^b$)", 0, Some(T::set(b"ab"))),
        ("(?:^a)b", 0, Some(T::lit(b"ab"))),
        ("a(?:b$)", 0, Some(T::lit(b"ab"))),
        ("^", 0, Some(T::Eps)),
        ("^$", 0, Some(T::Eps)),
        ("", 0, Some(T::Eps)),
        ("a^b", 0, None),
        ("a$b", 0, None),
        ("(^a)*", 0, None),
        ("(a$)+", 0, None),
        ("a(^b)", 0, None),
        ("(a$)b", 0, None),
        ("\\bab", 0, None),
        ("a\\Bb", 0, None),
        ("(?m)^a", 0, None),
        ("(?m)a$", 0, None),
        ("a**", 0, Some(T::star(a()))),
        ("(a", 0, None),
        ("a{3,2}", 0, None),
        ("[b-a]", 0, None),
        ("a{2}", 0, Some(T::lit(b"aa"))),
        ("a{2,}", 0, Some(T::rep(a(), 2, u32::MAX))),
        ("a{0}", 0, Some(T::Eps)),
        ("a{0,0}b", 0, Some(T::set(b"b"))),
        ("(?P<x>a)(?P<y>b)", 0, Some(T::lit(b"ab"))),
        ("a*?b+?", 0, Some(T::Cat(vec![T::star(a()), T::plus(T::set(b"b"))]))),
        ("(a|ab)(c|bcd)?", 0, Some(T::Cat(vec![T::Or(vec![a(), T::lit(b"ab")]), T::opt(T::Or(vec![T::set(b"c"), T::lit(b"bcd")]))]))),
        ("[[:alpha:]&&[^b-z]]", 24, Some({
            let mut v = vec![b'a'];
            v.extend(b'A'..=b'Z');
            T::set(&v)
        })),
        ("[a-c--b]", 0, Some(T::set(b"ac"))),
        ("\\.\\n\\x41", 0, Some(T::lit(b".\nA"))),
        ("\u{e9}|\u{20ac}", 0, Some(T::Chars(vec![(0xe9, 0xe9), (0x20ac, 0x20ac)]))),
        ("\\p{Greek}", 8, None),
        ("a|", 0, Some(T::opt(a()))),
        ("|a|b", 0, Some(T::Or(vec![T::Eps, T::set(b"ab")]))),
        ("(?:)*", 0, Some(T::Eps)),
        ("(|a)*", 0, Some(T::star(a()))),
        ("(a*)*", 0, Some(T::star(a()))),
        ("(a|b|ab)*", 0, Some(T::star(T::set(b"ab")))),
        ("foo|far|bar|baz|fo", 0, Some(T::Or(vec![T::lit(b"foo"), T::lit(b"far"), T::lit(b"bar"), T::lit(b"baz"), T::lit(b"fo")]))),
    ]
}

/// args: case (255: any), word length: options and syntax forms
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_opts() {
    let n = arg(0) as usize;
    let mut p = Pick::new(1);
    let cs = cases();
    let k = p.pick(cs.len() as u32);
    let (pat, o, t) = &cs[k as usize];
    note(pat);
    let w = word(n);
    let mut b = RegexBuilder::new();
    if o & 1 != 0 {
        b.case_insensitive(true);
    }
    if o & 2 != 0 {
        b.dot_matches_new_line(true);
    }
    if o & 4 != 0 {
        b.ignore_whitespace(true);
    }
    if o & 8 != 0 {
        b.unicode(false);
    }
    if o & 16 != 0 {
        b.utf8(false);
    }
    let e = b.mk_regex(pat);
    match t {
        None => {
            check(e.is_err(), 1);
            cover(2);
        }
        Some(t) => {
            let want = Spec::new(&w).member(t);
            check(e.is_ok(), 2);
            let e = e.unwrap();
            check(b.is_nullable(e) as u8 == Spec::new(&[]).member(t), 4);
            let mut r = b.to_regex(e);
            let got = r.is_match_bytes(&w);
            check(got as u8 == want, 3);
            cover(got as u32);
        }
    }
}

pub const ESCAPES: &[&str] = &["nrbtf\\\"", "nrbtf\\\"u", "", "n", "u", "\\\"u", "bfu", "nrt\"", "n\\u", "tu\"", "rbf\\"];
fn jleaf(pool: u32, p: &mut Pick) -> T {
    let v: [T; 16] = [
        T::nset(&[]),
        T::nset(b"\n"),
        T::set(b"a\"\\"),
        T::range(0, 0x1f),
        T::set(b"\n"),
        T::set(b"\""),
        T::set(&[0x7f]),
        T::range(0x10, 0x30),
        T::range(0x60, 0xff),
        T::set(b"\\"),
        T::set(&[0x1b]),
        T::set(b"\t\r\x08\x0c"),
        T::set(b"ab"),
        T::nset(b"\"\\"),
        T::nset(b"\n\""),
        T::nset(b"\x00\x0a"),
    ];
    let (a, n) = match pool {
        0 => (0, 16),
        1 => (0, 6),
        _ => (4, 9),
    };
    v[(a + p.pick(n)) as usize].clone()
}

/// JSON quoting; args: pool, operators, word length, raw mode, escapes (index, 255: any), pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_json() {
    let (pool, o, n, raw, esc) = (arg(0), arg(1), arg(2) as usize, arg(3), arg(4));
    let mut p = Pick::new(5);
    let esc = if esc == 255 { p.pick(ESCAPES.len() as u32) } else { esc };
    const OPS: &[Op] = &[Op::Cat, Op::Or, Op::Star, Op::Opt, Op::Rep23];
    let t = Gen { ops: OPS, leaf: &mut |p| jleaf(pool, p) }.exact(&mut p, o);
    note(&show(&t));
    note(ESCAPES[esc as usize]);
    let w = word(n);
    let al = ESCAPES[esc as usize];
    let inner: &[u8] = if raw != 0 {
        &w
    } else if n >= 2 {
        &w[1..n - 1]
    } else {
        &[]
    };
    lut(true);
    let sp = Spec { w: inner, json: Some(al.as_bytes()) };
    let mut want = sp.mat(&t).at(0, inner.len());
    if raw == 0 {
        want = if n >= 2 { want & b01(w[0] == b'"') & b01(w[n - 1] == b'"') } else { 0 };
    }
    lut(false);
    let mut b = RegexBuilder::new();
    let e = b.mk(&to_ast(&t)).unwrap();
    let q = b
        .json_quote(e, &JsonQuoteOptions { allowed_escapes: al.to_string(), raw_mode: raw != 0 })
        .unwrap();
    let mut r = b.to_regex(q);
    let got = r.is_match_bytes(&w);
    check(got as u8 == want, 1);
    cover(got as u32);
    // the unquoted expression still means what it meant
    if n <= 2 {
        let want0 = Spec::new(&w).member(&t);
        let mut r0 = b.to_regex(e);
        check(r0.is_match_bytes(&w) as u8 == want0, 2);
    }
}

/// every set of bytes below 0x80 given by a few symbolic members: args: word length, escapes, positions of 4 bytes, fill
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_jsonset() {
    let (n, esc, fill) = (arg(0) as usize, arg(1), arg(2));
    let pos: Vec<u8> = (0..4).map(|i| arg(3 + i) as u8).collect();
    let mut bs = match fill {
        0 => vec![0u32; 8],
        1 => vec![!0u32; 8],
        // all the control characters
        2 => vec![!0u32, 0, 0, 0, 0, 0, 0, 0],
        _ => vec![0, !0u32, !0u32, !0u32, 0, 0, 0, 0],
    };
    let m = any_below(16);
    let mut tab = [0u8; 256];
    for i in 0..256 {
        tab[i] = ((bs[i / 32] >> (i % 32)) & 1) as u8;
    }
    for (i, p) in pos.iter().enumerate() {
        let p = *p as usize;
        let v = (m >> i) & 1;
        bs[p / 32] &= !(1 << (p % 32));
        bs[p / 32] |= (v as u32) << (p % 32);
        tab[p] = v;
    }
    let al = ESCAPES[esc as usize];
    let w = word(n);
    // the encoded byte, if the word is an encoding at all
    lut(true);
    let mut want = 0u8;
    for x in 0..256usize {
        let mut one = [0u8; 256];
        one[x] = 1;
        want |= json_in(&w, &one, al.as_bytes()) & tab[x];
    }
    lut(false);
    let mut b = RegexBuilder::new();
    let e = b.mk(&RegexAst::ByteSet(bs)).unwrap();
    let q = b.json_quote(e, &JsonQuoteOptions { allowed_escapes: al.to_string(), raw_mode: true }).unwrap();
    let mut r = b.to_regex(q);
    let got = r.is_match_bytes(&w);
    check(got as u8 == want, 1);
    cover(got as u32);
}

/// what cannot be quoted is refused
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_jsonerr() {
    let kind = choose(6);
    let mut b = RegexBuilder::new();
    let a = RegexAst::Byte(b'a');
    let s = RegexAst::Repeat(Box::new(RegexAst::ByteSet(vec![!0; 8])), 0, 5);
    let c = any_u8();
    assume(c < 0x80);
    let (ast, esc, ok): (RegexAst, String, u8) = match kind {
        0 => (RegexAst::Not(Box::new(a)), "n".into(), 0),
        1 => (RegexAst::And(vec![s, RegexAst::Repeat(Box::new(a), 1, 4)]), "n".into(), 0),
        2 => (RegexAst::Prefixes(Box::new(RegexAst::Literal("ab".into()))), "n".into(), 0),
        3 => (RegexAst::Concat(vec![a.clone(), RegexAst::Or(vec![RegexAst::Literal("xy".into()), RegexAst::Not(Box::new(a))])]), "n".into(), 0),
        // an escape letter other than the known ones
        4 => {
            let mut ok = 0u8;
            for k in b"\"\\bfnrtu" {
                ok |= b01(c == *k);
            }
            (a, String::from_utf8(vec![b'n', c]).unwrap(), ok)
        }
        _ => (RegexAst::Concat(vec![a, s]), "nu\"\\".into(), 1),
    };
    let e = b.mk(&ast).unwrap();
    let r = b.json_quote(e, &JsonQuoteOptions { allowed_escapes: esc, raw_mode: true });
    check(r.is_ok() as u8 == ok, 1);
    cover(kind);
}
