//! The ways of asking the same question.
use crate::gen::*;
use crate::h_match::*;
use crate::rt::*;
use crate::spec::*;
use derivre::*;

fn ascii(n: usize) -> Vec<u8> {
    (0..n).map(|_| any_below(128)).collect()
}
fn text(w: &[u8]) -> &str {
    // (they are below 128)
    unsafe { std::str::from_utf8_unchecked(w) }
}
fn subject(pool: u32, o: u32, base: u32, ops: &[Op]) -> T {
    let mut p = Pick::new(base);
    let t = if o >= 100 {
        template(o - 100, &mut || leaf(pool, &mut p))
    } else {
        Gen { ops, leaf: &mut |p| leaf(pool, p) }.exact(&mut p, o)
    };
    note(&show(&t));
    t
}

/// args: kind, then those of the kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_api() {
    match arg(0) {
        0 => compilers(),
        1 => queries(),
        2 => alphabet(),
        3 => literals(),
        4 => tags(),
        5 => counters(),
        6 => json_options(),
        _ => containments(),
    }
}

/// the ways of compiling a pattern; args: pool, operators, word length, pinned...
fn compilers() {
    let (pool, o, n) = (arg(1), arg(2), arg(3) as usize);
    let t = subject(pool, o, 4, OPS_NOB);
    let pat = to_pat(&t);
    let w = word(n);
    let mut rs = vec![Regex::new(&pat).unwrap()];
    rs.push(Regex::new_with_parser(regex_syntax::ParserBuilder::new().build(), &pat).unwrap());
    let mut b = RegexBuilder::new();
    let e = b.mk_regex(&pat).unwrap();
    let e2 = b.mk(&RegexAst::Regex(pat.clone())).unwrap();
    let e3 = b.mk(&RegexAst::ExprRef(e)).unwrap();
    let e4 = b.mk(&to_ast(&t)).unwrap();
    let e5 = b.mk(&RegexAst::Or(vec![RegexAst::Concat(vec![RegexAst::ExprRef(e)]), RegexAst::NoMatch])).unwrap();
    let e6 = b.mk(&RegexAst::And(vec![RegexAst::Concat(vec![RegexAst::EmptyString, RegexAst::ExprRef(e)])])).unwrap();
    check(e == e2 && e == e3 && e == e5 && e == e6, 1);
    for x in [e, e2, e3, e4] {
        rs.push(b.to_regex(x));
        rs.push(b.to_regex_limited(x, u64::MAX).unwrap());
    }
    let mut want = None;
    for (i, r) in rs.iter_mut().enumerate() {
        let got = r.is_match_bytes(&w);
        check(*want.get_or_insert(got) == got, 10 + i as u32);
        check(b.is_nullable(e) == r.is_match_bytes(b""), 30);
    }
    cover(want.unwrap() as u32);
}

/// the ways of asking whether a string matches; args: pool, operators, word length, pinned...
fn queries() {
    let (pool, o, n) = (arg(1), arg(2), arg(3) as usize);
    let t = subject(pool, o, 4, &[Op::Cat, Op::Or, Op::And, Op::Not, Op::Star, Op::Plus, Op::Opt]);
    let w = ascii(n);
    let mut b = RegexBuilder::new();
    let e = b.mk(&to_ast(&t)).unwrap();
    let mut r = b.to_regex(e);
    let i = r.initial_state();
    let mut s = i;
    for c in &w {
        s = r.transition(s, *c);
    }
    check(r.transition_bytes(i, &w) == s, 1);
    for k in 0..=n {
        let x = r.transition_bytes(i, &w[..k]);
        check(r.transition_bytes(x, &w[k..]) == s, 2);
        check(r.transition_bytes(x, b"") == x, 3);
    }
    let m = r.is_accepting(s);
    check(r.is_match_bytes(&w) == m, 4);
    check(r.is_match(text(&w)) == m, 5);
    let l = r.lookahead_len_bytes(&w);
    check(r.lookahead_len(text(&w)) == l, 6);
    if m {
        check(l == r.lookahead_len_for_state(s), 7);
    } else {
        check(l.is_none(), 8);
    }
    // states stay valid, and mean the same in a clone
    let mut c = r.clone();
    check(c.initial_state() == i && c.is_accepting(s) == m && c.transition_bytes(i, &w) == s, 9);
    check(r.initial_state() == i && s.is_valid() && i.is_valid(), 10);
    if s.is_dead() {
        check(s == StateID::DEAD && !m && r.transition(s, any_u8()) == s, 11);
    }
    check(r.always_empty() == i.is_dead(), 12);
    cover(m as u32);
}

/// the classes of bytes; args: pool, operators, pinned...
fn alphabet() {
    let (pool, o) = (arg(1), arg(2));
    let t = subject(pool, o, 3, &[Op::Cat, Op::Or, Op::And, Op::Not, Op::Star]);
    let mut b = RegexBuilder::new();
    let e = b.mk(&to_ast(&t)).unwrap();
    let mut r = b.to_regex(e);
    let i = r.initial_state();
    let (x, y) = (any_u8(), any_u8());
    let al = r.alpha().clone();
    check(!al.has_error() && al.len() >= 1 && al.len() <= 256, 1);
    let (mx, my) = (al.map(x), al.map(y));
    check(mx < al.len(), 2);
    check(al.map_state(i, x) == mx + i.as_usize() * al.len(), 3);
    // bytes of one class are interchangeable
    if mx == my {
        check(r.transition(i, x) == r.transition(i, y), 4);
        cover(0);
    }
    // a class that stands for one byte has no other, and the other way round
    let inv = al.inv_map(mx);
    let mut others = 0u8;
    for z in 0..=255u8 {
        others |= ((al.map(z) == mx) & (z != x)) as u8;
    }
    match inv {
        Some(z) => {
            check(z == x && others == 0, 5);
            cover(1);
        }
        None => {
            check(others == 1, 6);
            cover(2);
        }
    }
}

/// the ways of writing a literal; args: which, or the length; word length; the symbolic byte of the literal
fn literals() {
    let (k, n, at) = (arg(1) as usize, arg(2) as usize, arg(3) as usize);
    let mut s = match k {
        100 => "\u{e9}",
        101 => "\u{20ac}",
        102 => "\u{1f600}",
        103 => "x\u{7ff}",
        104 => "\u{80}",
        105 => "\u{0}",
        _ => &"abcdefghij"[..k],
    }
    .as_bytes()
    .to_vec();
    let l = s.len();
    if at < l {
        s[at] = any_below(128);
    }
    let s = s;
    let w = word(n);
    let one = |c: u8| {
        let mut v = vec![0u32; 8];
        for i in 0..8 {
            v[i] = if c as usize / 32 == i { 1 << (c % 32) } else { 0 };
        }
        RegexAst::ByteSet(v)
    };
    let asts = [
        RegexAst::ByteLiteral(s.clone()),
        RegexAst::Literal(text(&s).to_string()),
        RegexAst::Concat(s.iter().map(|c| RegexAst::Byte(*c)).collect()),
        RegexAst::Concat(s.iter().map(|c| one(*c)).collect()),
        RegexAst::Concat(vec![RegexAst::ByteLiteral(s[..l / 2].to_vec()), RegexAst::EmptyString, RegexAst::ByteLiteral(s[l / 2..].to_vec())]),
    ];
    let mut b = RegexBuilder::new();
    let es: Vec<ExprRef> = asts.iter().map(|a| b.mk(a).unwrap()).collect();
    let mut want = b01(l == n);
    for i in 0..l.min(n) {
        want &= b01(s[i] == w[i]);
    }
    for (i, e) in es.iter().enumerate() {
        check(*e == es[0], 1 + i as u32);
    }
    let mut r = b.to_regex(es[0]);
    let got = r.is_match_bytes(&w);
    check(got as u8 == want, 10);
    cover(got as u32);
}

/// numbers of states
fn tags() {
    let i = any_u32();
    assume(i < 1 << 31);
    let s = StateID::new(i);
    check(s.as_u32() == i && s.as_usize() == i as usize, 1);
    check(!s.has_lowest_match(), 2);
    check(s.is_dead() == (i == 0) && (s == StateID::DEAD) == (i == 0), 3);
    check(s.is_valid() == (i != 1) && (s == StateID::MISSING) == (i == 1), 4);
    let m = s._set_lowest_match();
    check(m.as_u32() == i && m.has_lowest_match() && m._set_lowest_match() == m && m != s, 5);
    cover(0);
}

/// estimates and counters; args: pool, operators, word length, pinned...
fn counters() {
    let (pool, o, n) = (arg(1), arg(2), arg(3) as usize);
    let t = subject(pool, o, 4, &[Op::Cat, Op::Or, Op::And, Op::Not, Op::Star, Op::Plus, Op::Opt]);
    let mut b = RegexBuilder::new();
    let e = b.mk(&to_ast(&t)).unwrap();
    let mut r = b.to_regex(e);
    check(r.cost() >= b.exprset().cost(), 1);
    let w = word(n);
    let mut s = r.initial_state();
    let (mut cost, mut bytes) = (r.cost(), r.num_bytes());
    for c in &w {
        s = r.transition(s, *c);
        check(r.cost() >= cost, 2);
        check(r.num_bytes() >= bytes, 3);
        let t = r.stats();
        check(t.starts_with("regexp: "), 4);
        r.next_byte(s);
        r.lookahead_len_for_state(s);
        check(r.cost() >= cost && r.num_bytes() >= bytes, 5);
        cost = r.cost();
        bytes = r.num_bytes();
    }
    // what is known already costs nothing
    let i = r.initial_state();
    r.transition_bytes(i, &w);
    check(r.cost() == cost && r.num_bytes() == bytes, 6);
    cover(r.is_accepting(s) as u32);
}

/// the two sets of options
fn json_options() {
    let b = any_u8();
    let (p, q) = (JsonQuoteOptions::no_unicode(), JsonQuoteOptions::with_unicode());
    let simple = (b == b'n') | (b == b'r') | (b == b'b') | (b == b't') | (b == b'f') | (b == b'\\') | (b == b'"');
    check(p.is_allowed(b) == simple, 1);
    check(q.is_allowed(b) == (simple | (b == b'u')), 2);
    check(p.raw_mode && q.raw_mode, 3);
    let mut v = vec![0u32; 8];
    p.set_if_allowed(&mut v, b);
    for i in 0..8 {
        check(v[i] == if simple & (b as usize / 32 == i) { 1 << (b % 32) } else { 0 }, 4);
    }
    cover(simple as u32);
}

/// the ways of asking for containment; args: pool, operators, operators, pinned...
fn containments() {
    let (pool, o1, o2) = (arg(1), arg(2), arg(3));
    let mut p = Pick::new(4);
    let mut one = |o: u32, p: &mut Pick| Gen { ops: OPS_NOB, leaf: &mut |p| leaf(pool, p) }.exact(p, o);
    let x = one(o1, &mut p);
    let y = one(o2, &mut p);
    note(&show(&x));
    note(&show(&y));
    let mut b = RegexBuilder::new();
    let want = b.is_contained_in(&to_pat(&x), &to_pat(&y), u64::MAX).unwrap();
    let e1 = b.mk_contained_in(&to_pat(&x), &to_pat(&y)).unwrap();
    let e2 = b.mk_contained_in_ast(&to_ast(&x), &to_ast(&y)).unwrap();
    let e3 = b.mk(&to_ast(&x).contained_in(&to_ast(&y))).unwrap();
    for (i, e) in [e1, e2, e3].iter().enumerate() {
        check(b.to_regex(*e).always_empty() == want, 1 + i as u32);
    }
    cover(want as u32);
}
