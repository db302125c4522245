//! Generators of expression shapes, and their translations to the inputs of the
//! code under test.
use crate::rt::*;
use crate::spec::*;
use derivre::raw::ExprSet;
use derivre::{ExprRef, RegexAst};

/// Choices: the first ones may be pinned by the job (to spread work over processes).
pub struct Pick {
    next: u32,
    end: u32,
}
impl Pick {
    /// args[base] = number of pinned choices, followed by them
    pub fn new(base: u32) -> Pick {
        Pick { next: base + 1, end: base + 1 + arg(base) }
    }
    pub fn pick(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        if self.next < self.end {
            let x = arg(self.next);
            self.next += 1;
            if x >= n {
                // a partition that does not exist for this choice
                assume(false);
            }
            x
        } else {
            choose(n)
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Op {
    Cat,
    Or,
    And,
    Not,
    Star,
    Plus,
    Opt,
    Rep23,
    Rep02,
    Rep2,
    /// symbolic minimum and maximum
    RepS,
    Pref,
    Cat3,
    Or3,
}

/// operators with a regex syntax (no boolean combinations)
pub const OPS_NOB: &[Op] = &[Op::Cat, Op::Or, Op::Star, Op::Plus, Op::Opt, Op::Rep02];

pub struct Gen<'a> {
    pub ops: &'a [Op],
    pub leaf: &'a mut dyn FnMut(&mut Pick) -> T,
}
impl<'a> Gen<'a> {
    /// an expression with exactly `o` operators
    pub fn exact(&mut self, p: &mut Pick, o: u32) -> T {
        if o == 0 {
            return (self.leaf)(p);
        }
        let k = p.pick(self.ops.len() as u32);
        let op = self.ops[k as usize];
        match op {
            Op::Cat | Op::Or | Op::And => {
                let l = p.pick(o);
                let a = self.exact(p, l);
                let b = self.exact(p, o - 1 - l);
                match op {
                    Op::Cat => T::Cat(vec![a, b]),
                    Op::Or => T::Or(vec![a, b]),
                    _ => T::And(vec![a, b]),
                }
            }
            Op::Cat3 | Op::Or3 => {
                let a = self.exact(p, o - 1);
                let b = (self.leaf)(p);
                let c = (self.leaf)(p);
                if op == Op::Cat3 {
                    T::Cat(vec![b, a, c])
                } else {
                    T::Or(vec![b, a, c])
                }
            }
            _ => {
                let a = self.exact(p, o - 1);
                match op {
                    Op::Not => T::not(a),
                    Op::Star => T::star(a),
                    Op::Plus => T::plus(a),
                    Op::Opt => T::opt(a),
                    Op::Rep23 => T::rep(a, 2, 3),
                    Op::Rep2 => T::rep(a, 2, u32::MAX),
                    Op::Rep02 => T::rep(a, 0, 2),
                    Op::RepS => {
                        let lo = any_u32();
                        let hi = any_u32();
                        assume(lo <= hi);
                        T::rep(a, lo, hi)
                    }
                    Op::Pref => T::pref(a),
                    _ => unreachable!(),
                }
            }
        }
    }
}

/// Shapes given by a text in prefix notation, for structures beyond exhaustive enumeration:
/// S a fresh leaf, A B C D shared leaves, e the empty string, 0 nothing, T all strings, N any letter,
/// a b c fixed letters, . | & with two arguments, ~ not, * + ?, r a repeat with symbolic counts, 2 {2,}, 3 {2,3}, 4 {0,2}, p prefixes
pub fn parse(s: &str, leaf: &mut dyn FnMut() -> T, lit: &dyn Fn(u8) -> T, any: T) -> T {
    struct P<'a> {
        s: &'a [u8],
        i: usize,
        shared: [Option<T>; 4],
        leaf: &'a mut dyn FnMut() -> T,
        lit: &'a dyn Fn(u8) -> T,
        any: T,
    }
    fn go(p: &mut P) -> T {
        let c = p.s[p.i];
        p.i += 1;
        match c {
            b'S' => (p.leaf)(),
            b'A'..=b'D' => {
                let k = (c - b'A') as usize;
                if p.shared[k].is_none() {
                    let t = (p.leaf)();
                    p.shared[k] = Some(t);
                }
                p.shared[k].clone().unwrap()
            }
            b'a'..=b'c' => (p.lit)(c - b'a'),
            b'e' => T::Eps,
            b'0' => T::Nothing,
            b'N' => p.any.clone(),
            b'T' => T::star(p.any.clone()),
            b'.' | b'|' | b'&' => {
                let a = go(p);
                let b = go(p);
                match c {
                    b'.' => T::Cat(vec![a, b]),
                    b'|' => T::Or(vec![a, b]),
                    _ => T::And(vec![a, b]),
                }
            }
            b'~' => T::not(go(p)),
            b'*' => T::star(go(p)),
            b'+' => T::plus(go(p)),
            b'?' => T::opt(go(p)),
            b'2' => T::rep(go(p), 2, u32::MAX),
            b'3' => T::rep(go(p), 2, 3),
            b'4' => T::rep(go(p), 0, 2),
            b'r' => {
                let lo = any_u32();
                let hi = any_u32();
                assume(lo <= hi);
                T::rep(go(p), lo, hi)
            }
            b'p' => T::pref(go(p)),
            _ => panic!(),
        }
    }
    let mut p = P { s: s.as_bytes(), i: 0, shared: [None, None, None, None], leaf, lit, any };
    let t = go(&mut p);
    assert!(p.i == p.s.len());
    t
}

/// numbered from 100 in the jobs
pub const SHAPES: &[&str] = &[
    // 0: emptiness through several layers
    "&~&SSS",
    "|&AB&CD",
    "~|&AB&CD",
    ".&AB.C|&ADS",
    "&|.AS.BS~.CS",
    // 5: overlapping first letters
    "|.AS|.BS.CS",
    "&.AS&.BS.CS",
    "&|.AS|.BS.CS~.DS",
    "~.~A~B",
    "&.T.AT~.T.BT",
    // 10: optional and repeated things next to each other
    ".?A?A",
    ".?A.?A?B",
    ".4A?A",
    ".4A4A",
    ".?A.*A?A",
    // 15
    ".*A.A*A",
    "..?A?B.?A?B",
    "?2A",
    "*2A",
    "+2A",
    // 20
    "43A",
    "r2S",
    "rrS",
    "r.Sr.AS",
    "*.?A?B",
    // 25
    "2|.AB.CA",
    "*.ArB",
    "&*.AB*|AB",
    "&~*.AB*|AB",
    "&*.AB~*|AB",
    // 30
    "&rSrS",
    "&.rAB.rAC",
    "|.rAB.rAC",
    "~*~A",
    "*~A",
    // 35
    "r~.AS",
    "&.A*B.*AB",
    "|.A.BC|.A.BD.A.CD",
    "|.A*B|.A*C.B*A",
    "&&*A*B~e",
    // 40: prefixes
    "&p.AB.CD",
    "&.ABp.CD",
    "p|.AB.CD",
    "p.rA.SrB",
    "~p.AS",
    // 45
    "|p.AS.Bp.CS",
    ".p.ABC",
    "p*.AB",
    "&~p.AB.CD",
    "pp.AS",
    // 50
    "~~.A~.BC",
    "~.A.~B~C",
    "|~A.A~B",
    "&~.AT~.BT",
    "&~.TA&~.TB.CT",
    // 55
    "~&~.A*B~.*AB",
    "|e.A|e.B|eA",
    "|.AA|.AB.BB",
    ".|eA.|eB|eA",
    "*|.AB|.BAe",
    // 60
    "*S",
    ".*SS",
    ".*S.SS",
    "|.SS.S.SS",
    ".*A|A.AB",
    // 65: branches that die, next to ones that do not
    "|.a&.Aa.Bb.b&.Ca.Da",
    "|.a|&.Aa.Bb&.Ca.Db.bb",
    "|.a&.AN.Bb.b&.Ca.*ND",
    "|.A~&.aN~.bN.b&.Aa.Ba",
    "..A&.Aa.BbC",
    // 70: left-hand sides overlapping in several ways (best with three letters)
    "&~|.Aa|.Bb.Cc.DN",
    "&~|.Aa|.BN.Cc|.DN.Ac",
    "~|.AT|.BT|.C.bTe",
    "&~.A|.Ba.CN.D.NN",
    "&|.AN.Bb|.Ca.DN",
    // 75: intersections with prefixes
    "&p.A.BC.SD",
    "&p.A.*BC.S.SS",
    "|.a&p.A.BC.SD.bb",
    "&*|a.bA~.*BC",
    "&~.*Na~.*Nb",
    // 80: pairs for containment
    "|.Aa|.Bb.Cc",
    ".DN",
    "|.A*a|.Bb.Cc",
    ".D?a",
    "|.AN|.Bb.Ca",
    // 85
    "&~|.bb|.BS.CS.aN",
    "|.bb|.BS.CS",
    ".aN",
    // long literals
    "..a.b.c.a.b.c.b.b.c.aAc",
    "|.A.b.c.a.b.c.b.b.c.aa..a.b.c.a.b.c.b.b.c.aAb",
    // 90: pairs for containment whose ends agree
    ".*A.AB",
    ".*AB",
    "..BA*A",
    ".B*A",
    "|.*Aa.*Ab",
    // 95
    ".*A|ab",
    "|.AS.?AS",
    ".?AS",
    "*|.AB.BA",
    "*|AB",
    // 100
    ".4A.AB",
    ".4AB",
    ".?AA",
    ".?A?.AA",
];
fn nth(i: u32) -> String {
    SHAPES[i as usize].chars().filter(|c| *c != ' ').collect()
}
/// Families of any width: kind * 100 + width. Kinds 0 to 8 use two letters, the others as many as they are wide.
pub fn family(i: u32, leaf: &mut dyn FnMut() -> T, lit: &dyn Fn(u8) -> T, any: T) -> T {
    let (kind, m) = (i / 100, i % 100);
    let code = |x: u32, l: u32| T::Cat((0..l).map(|j| lit((x >> (l - 1 - j) & 1) as u8)).collect());
    let all = || T::star(any.clone());
    let each = |f: &dyn Fn(u32) -> T| (0..m).map(f).collect::<Vec<T>>();
    match kind {
        // m of the 16 words of length 4
        0 => T::Or(each(&|i| code(i * 5 + 3, 4))),
        1 => T::And(each(&|i| T::not(code(i * 5 + 3, 4)))),
        2 => T::Cat(each(&|i| T::opt(lit((i % 3 == 1) as u8)))),
        3 => T::Or(each(&|i| T::rep(lit(0), 3 * i, 3 * i + 1))),
        4 => T::And(each(&|i| T::not(T::rep(lit(0), 2 * i + 1, 2 * i + 1)))),
        5 => {
            let s = leaf();
            T::Or(each(&|i| T::Cat(vec![s.clone(), code(i * 3 + 1, 3)])))
        }
        6 => T::not(T::Cat(each(&|i| if i == m / 2 { any.clone() } else { lit(0) }))),
        7 => T::And(each(&|i| T::Cat(vec![all(), code(i * 3 + 1, 2), all()]))),
        8 => T::Or(each(&|i| T::Cat(vec![all(), code(i * 5 + 3, 4)]))),
        9 => T::Or(each(&|i| T::Cat(vec![lit(i as u8), lit(((3 * i + 1) % m) as u8)]))),
        10 => T::And(each(&|i| T::not(T::Cat(vec![lit(i as u8), all()])))),
        11 => T::Cat(each(&|i| T::opt(lit(i as u8)))),
        12 => T::Or(each(&|i| T::star(lit(i as u8)))),
        13 => {
            let s = leaf();
            T::Or(each(&|i| T::Cat(vec![lit(i as u8), s.clone()])))
        }
        // the same arguments over and over, in another order each time
        14 => T::Cat(vec![T::Or((0..3).map(|j| T::Or((0..m).map(|i| lit(((i + j) % m) as u8)).collect())).collect()), lit(0)]),
        15 => T::Or((0..3).map(|j| T::And((0..m).map(|i| T::not(lit(((i + j) % m) as u8))).collect())).collect()),
        // nested to the right and to the left
        16 => (0..m).fold(T::Eps, |t, i| T::opt(T::Cat(vec![lit((i & 1) as u8), t]))),
        17 => (0..m).fold(lit(0), |t, i| T::Or(vec![lit((i & 1) as u8), T::Cat(vec![t, lit(1)])])),
        18 => (0..m).fold(lit(0), |t, i| T::And(vec![T::not(code(i, 2)), T::not(t)])),
        // alternatives that are not merged, all with the same first letter but one
        19 | 20 => {
            let at = [m - 1, m / 2][kind as usize - 19];
            T::Or(each(&|i| {
                let (c, a) = (lit((i % 5) as u8), lit((i == at) as u8));
                let skip = T::Cat((0..i / 5).map(|_| any.clone()).collect());
                T::And(vec![T::Cat(vec![a.clone(), skip, all(), c.clone()]), T::not(T::Cat(vec![a, c]))])
            }))
        }
        _ => panic!("no such family"),
    }
}
/// over bytes
pub fn template(i: u32, leaf: &mut dyn FnMut() -> T) -> T {
    if i >= 900 {
        return family(i - 900, leaf, &|c| T::set(&[b'a' + c]), T::nset(b""));
    }
    parse(&nth(i), leaf, &|c| T::set(&[b'a' + c]), T::nset(b""))
}
/// over the `k` letters of a small alphabet
pub fn template_mask(i: u32, leaf: &mut dyn FnMut() -> T, k: u32) -> T {
    let m = |c: u32| if c < 8 { 1u8 << c } else { 0 };
    let full = if k >= 8 { 0xff } else { m(k) - 1 };
    if i >= 900 {
        let any = if k < 8 { T::Mask(full) } else { T::Or((0..k).map(|c| T::Letter(c as u8)).collect()) };
        return family(i - 900, leaf, &|c| T::Letter(c), any);
    }
    parse(&nth(i), leaf, &|c| T::Mask(m((c as u32) % k)), T::Mask(full))
}

pub fn pack(tab: &[u8; 256]) -> Vec<u32> {
    let mut bs = vec![0u32; 8];
    for i in 0..256 {
        if tab[i] != 0 {
            bs[i / 32] |= 1 << (i % 32);
        }
    }
    bs
}

pub fn to_ast(t: &T) -> RegexAst {
    match t {
        T::Eps => RegexAst::EmptyString,
        T::Nothing => RegexAst::NoMatch,
        T::Set(tab) => {
            let n: u32 = tab.iter().map(|x| *x as u32).sum();
            if n == 1 {
                RegexAst::Byte(tab.iter().position(|x| *x != 0).unwrap() as u8)
            } else {
                RegexAst::ByteSet(pack(tab))
            }
        }
        T::Mask(_) => panic!(),
        T::Letter(c) => RegexAst::Byte(*c),
        T::Chars(_) => RegexAst::Regex(to_pat(t)),
        T::Cat(v) => RegexAst::Concat(v.iter().map(to_ast).collect()),
        T::Or(v) => RegexAst::Or(v.iter().map(to_ast).collect()),
        T::And(v) => RegexAst::And(v.iter().map(to_ast).collect()),
        T::Not(x) => RegexAst::Not(Box::new(to_ast(x))),
        T::Rep(x, a, b) => RegexAst::Repeat(Box::new(to_ast(x)), *a, *b),
        T::Pref(x) => RegexAst::Prefixes(Box::new(to_ast(x))),
        T::Look(x) => RegexAst::LookAhead(Box::new(to_ast(x))),
    }
}

/// build in an expression set over an alphabet of `es.alphabet_size()` letters
pub fn build(es: &mut ExprSet, t: &T) -> ExprRef {
    match t {
        T::Eps => ExprRef::EMPTY_STRING,
        T::Nothing => ExprRef::NO_MATCH,
        T::Set(tab) => es.mk_byte_set(&pack(tab)),
        T::Mask(k) => {
            let m = if es.alphabet_size() >= 8 { 0xff } else { (1u32 << es.alphabet_size()) - 1 };
            es.mk_byte_set(&[*k as u32 & m])
        }
        T::Letter(c) => es.mk_byte(*c),
        T::Chars(_) => panic!(),
        T::Cat(v) => {
            let a = v.iter().map(|x| build(es, x)).collect();
            es.mk_concat(a)
        }
        T::Or(v) => {
            let a = v.iter().map(|x| build(es, x)).collect();
            es.mk_or(a)
        }
        T::And(v) => {
            let a = v.iter().map(|x| build(es, x)).collect();
            es.mk_and(a)
        }
        T::Not(x) => {
            let a = build(es, x);
            es.mk_not(a)
        }
        T::Rep(x, lo, hi) => {
            let a = build(es, x);
            es.mk_repeat(a, *lo, *hi)
        }
        T::Pref(x) => {
            let a = build(es, x);
            es.mk_prefixes(a)
        }
        T::Look(x) => {
            let a = build(es, x);
            es.mk_lookahead(a, 0)
        }
    }
}

fn pat_char(c: u32) -> String {
    format!("\\x{{{:X}}}", c)
}
/// the same expression in regex syntax (And / Not / Prefixes / bytes >= 0x80 have none)
pub fn to_pat(t: &T) -> String {
    match t {
        T::Eps => "(?:)".to_string(),
        T::Nothing => "[^\\x{0}-\\x{10FFFF}]".to_string(),
        T::Set(tab) => {
            let mut s = "[".to_string();
            let mut i = 0;
            while i < 256 {
                if tab[i] != 0 {
                    let mut j = i;
                    while j + 1 < 256 && tab[j + 1] != 0 {
                        j += 1;
                    }
                    assert!(j < 128);
                    s.push_str(&format!("{}-{}", pat_char(i as u32), pat_char(j as u32)));
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            s.push(']');
            s
        }
        T::Chars(r) => {
            let mut s = "[".to_string();
            for (a, b) in r {
                s.push_str(&format!("{}-{}", pat_char(*a), pat_char(*b)));
            }
            s.push(']');
            s
        }
        T::Cat(v) => v.iter().map(|x| format!("(?:{})", to_pat(x))).collect::<Vec<_>>().concat(),
        T::Or(v) => format!("(?:{})", v.iter().map(to_pat).collect::<Vec<_>>().join("|")),
        T::Rep(x, a, b) => {
            let p = format!("(?:{})", to_pat(x));
            match (*a, *b) {
                (0, u32::MAX) => format!("{}*", p),
                (1, u32::MAX) => format!("{}+", p),
                (0, 1) => format!("{}?", p),
                (a, u32::MAX) => format!("{}{{{},}}", p, a),
                (a, b) if a == b => format!("{}{{{}}}", p, a),
                (a, b) => format!("{}{{{},{}}}", p, a, b),
            }
        }
        T::Look(x) => format!("(?P<stop>{})", to_pat(x)),
        _ => panic!("no syntax"),
    }
}

pub fn show(t: &T) -> String {
    match t {
        T::Eps => "ε".into(),
        T::Nothing => "∅".into(),
        T::Set(tab) => {
            let v: Vec<u8> = (0..=255u8).filter(|b| tab[*b as usize] != 0).collect();
            if v.len() > 16 {
                format!("[{} bytes]", v.len())
            } else {
                format!("[{}]", v.iter().map(|b| std::ascii::escape_default(*b).to_string()).collect::<String>())
            }
        }
        T::Mask(_) => "S".into(),
        T::Letter(_) => "c".into(),
        T::Chars(_) => to_pat(t),
        T::Cat(v) => format!("({})", v.iter().map(show).collect::<Vec<_>>().join(" . ")),
        T::Or(v) => format!("({})", v.iter().map(show).collect::<Vec<_>>().join(" | ")),
        T::And(v) => format!("({})", v.iter().map(show).collect::<Vec<_>>().join(" & ")),
        T::Not(x) => format!("not{}", show(x)),
        T::Rep(x, _, _) => format!("{}{{m,n}}", show(x)),
        T::Pref(x) => format!("prefixes{}", show(x)),
        T::Look(x) => format!("look{}", show(x)),
    }
}
