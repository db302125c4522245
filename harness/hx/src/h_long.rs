//! Long inputs and wide structures: what the small harnesses decide for a handful, here for dozens or hundreds.
use crate::gen::*;
use crate::rt::*;
use crate::spec::*;
use derivre::raw::*;
use derivre::*;

/// args: what, parameters...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_long() {
    match arg(0) {
        0 => lookaheads(),
        1 => many_regexes(),
        2 => traversal(),
        3 => prefix(),
        _ => classes(),
    }
}

fn byte(c: u8) -> RegexAst {
    RegexAst::Byte(c)
}
fn rep(c: u8, lo: u32, hi: u32) -> RegexAst {
    RegexAst::Repeat(Box::new(byte(c)), lo, hi)
}

/// head x{p1,p2}, look-ahead y{q1,q2}; args: kind, x = y?, p1, p2, q1, q2, letters x, letters y, symbolic ones
fn lookaheads() {
    let (kind, same) = (arg(1), arg(2) != 0);
    let (p1, p2, q1, q2) = (arg(3), arg(4), arg(5), arg(6));
    let (nx, ny, n) = (arg(7) as usize, arg(8) as usize, arg(9) as usize);
    let (x, y) = (b'x', if same { b'x' } else { b'y' });
    let mut w = vec![x; nx];
    w.extend(vec![y; ny]);
    for _ in 0..n {
        w.push(any_u8());
    }
    let mut b = RegexBuilder::new();
    let look = || RegexAst::LookAhead(Box::new(rep(y, q1, q2)));
    let ast = match kind {
        0 => RegexAst::Concat(vec![rep(x, p1, p2), look()]),
        // or an empty head
        1 => RegexAst::Or(vec![RegexAst::Concat(vec![rep(x, p1, p2), look()]), RegexAst::Concat(vec![byte(b'z'), look()]), look()]),
        _ => RegexAst::Regex(format!("x{{{},{}}}(?P<stop>{}{{{},{}}})", p1, p2, y as char, q1, q2)),
    };
    let e = b.mk(&ast).unwrap();
    let mut r = b.to_regex(e);
    let l = w.len();
    for j in (nx + ny).saturating_sub(3)..=l {
        // how far back is it y all the way, and from the front x all the way?
        let mut front = vec![1u8];
        for i in 0..j {
            front.push(front[i] & b01(w[i] == x));
        }
        let mut want = u32::MAX;
        let mut back = 1u8;
        let mut okb = vec![0u8; j + 1];
        for k in (0..=j).rev() {
            if k < j {
                back &= b01(w[k] == y);
            }
            let len = (j - k) as u32;
            // (a look-ahead stops at its first match)
            okb[k] = if len == q1 { back } else { 0 };
        }
        for k in 0..=j {
            let mut head = if k as u32 >= p1 && k as u32 <= p2 { front[k] } else { 0 };
            if kind == 1 {
                if k == 0 {
                    head = 1;
                }
                if k == 1 {
                    head |= b01(w[0] == b'z');
                }
            }
            want = if head & okb[k] != 0 { (j - k) as u32 } else { want };
        }
        let got = r.lookahead_len_bytes(&w[..j]).map(|x| x as u32).unwrap_or(u32::MAX);
        check(got == want, 1);
        let s = r.initial_state();
        let s = r.transition_bytes(s, &w[..j]);
        check(r.lookahead_len_for_state(s).map(|x| x as u32).unwrap_or(u32::MAX) == want, 2);
        check(r.is_accepting(s) == (want != u32::MAX), 3);
        cover((got != u32::MAX) as u32);
    }
}

/// many regexes compressed together, with repetitions; args: how many, word length, which to look at
fn many_regexes() {
    let (m, n, at) = (arg(1), arg(2) as usize, arg(3));
    let mut w = vec![];
    for _ in 0..n {
        w.push(any_u8());
    }
    let t = |i: u32| -> T {
        let (c, d) = ((i * 5 % 251) as u8, (i * 7 % 253) as u8);
        match i % 5 {
            0 => T::Cat(vec![T::set(&[c, c.wrapping_add(1)]), T::star(T::set(&[d]))]),
            1 => T::Or(vec![T::Cat(vec![T::set(&[c]), T::set(&[d])]), T::set(&[d.wrapping_add(3)])]),
            2 => T::star(T::range(c, c.saturating_add(9))),
            3 => T::Cat(vec![T::not(T::set(&[c])), T::set(&[d])]),
            _ => T::And(vec![T::star(T::nset(&[c])), T::not(T::lit(&[d]))]),
        }
    };
    let mut b = RegexBuilder::new();
    let mut es: Vec<ExprRef> = (0..m).map(|i| b.mk(&to_ast(&t(i))).unwrap()).collect();
    // once more, in another order
    let again: Vec<ExprRef> = es.iter().rev().cloned().collect();
    es.extend(again);
    es.push(ExprRef::NO_MATCH);
    es.push(ExprRef::EMPTY_STRING);
    let (alpha, mut set, out) = AlphabetInfo::from_exprset(b.exprset(), &es);
    check(out.len() == es.len(), 11);
    check(set.alphabet_size() == alpha.len(), 12);
    let k = out.len();
    check(out[k - 2] == ExprRef::NO_MATCH && out[k - 1] == ExprRef::EMPTY_STRING, 13);
    for i in 0..m as usize {
        check(out[i] == out[2 * m as usize - 1 - i], 14);
    }
    let mut d = DerivCache::new();
    let code: Vec<u8> = w.iter().map(|c| alpha.map(*c) as u8).collect();
    for i in [at, (at + 7) % m, (at + 31) % m] {
        let mut f = out[i as usize];
        for c in &code {
            f = d.derivative(&mut set, f, *c);
        }
        let got = set.is_nullable(f);
        check(got as u8 == Spec::new(&w).member(&t(i)), 15);
        cover(got as u32);
    }
}

struct Node {
    label: u32,
    kids: Vec<Node>,
}
/// wide and deep trees; args: kind, size
fn traversal() {
    let (kind, size) = (arg(1), arg(2));
    let mut next = 0;
    let mut new = |kids: Vec<Node>| {
        next += 1;
        Node { label: next - 1, kids }
    };
    let t = match kind {
        0 => {
            let k = (0..size).map(|_| new(vec![])).collect();
            new(k)
        }
        1 => (1..size).fold(new(vec![]), |t, _| new(vec![t])),
        2 => (0..size / 3).fold(new(vec![]), |t, i| {
            let a = new(vec![]);
            let b = new(vec![]);
            match i % 3 {
                0 => new(vec![t, a, b]),
                1 => new(vec![a, t, b]),
                _ => new(vec![a, b, t]),
            }
        }),
        _ => {
            // a full binary tree
            let mut v: Vec<Node> = (0..size).map(|_| new(vec![])).collect();
            while v.len() > 1 {
                let mut u = vec![];
                let mut it = v.into_iter();
                while let Some(a) = it.next() {
                    match it.next() {
                        Some(b) => u.push(new(vec![a, b])),
                        None => u.push(a),
                    }
                }
                v = u;
            }
            v.pop().unwrap()
        }
    };
    // (label, number of nodes, mixture of what lies below in order)
    fn mix(l: u32, args: &[(u32, u32, u32)]) -> (u32, u32, u32) {
        let mut x = l.wrapping_mul(31);
        let mut c = 1;
        for a in args {
            x = x.wrapping_mul(1_000_003) ^ a.2;
            c += a.1;
        }
        (l, c, x)
    }
    // the root has the highest label, and labels grow towards it: children of `i`, by label, in order
    let mut kids: Vec<Vec<u32>> = vec![vec![]; next as usize];
    let mut todo = vec![&t];
    while let Some(n) = todo.pop() {
        kids[n.label as usize] = n.kids.iter().map(|k| k.label).collect();
        todo.extend(n.kids.iter());
    }
    let mut want: Vec<(u32, u32, u32)> = vec![];
    for l in 0..next {
        let args: Vec<(u32, u32, u32)> = kids[l as usize].iter().map(|k| want[*k as usize]).collect();
        want.push(mix(l, &args));
    }
    let bad = any_u8() as u32;
    let mut calls = 0u32;
    let r = map_ast(
        &t,
        |n: &Node| &n.kids[..],
        |n: &Node, args: Vec<(u32, u32, u32)>| {
            calls += 1;
            if n.label == bad {
                return Err(std::io::Error::from_raw_os_error(5).into());
            }
            check(args.len() == n.kids.len(), 21);
            Ok(mix(n.label, &args))
        },
    );
    match r {
        Ok(v) => {
            check(bad >= next, 22);
            check(v == want[next as usize - 1], 23);
            check(calls == next, 24);
            cover(1);
        }
        Err(_) => {
            check(bad < next, 25);
            cover(2);
        }
    }
    // (dropping a deep tree recurses)
    let mut todo = vec![t];
    while let Some(mut n) = todo.pop() {
        todo.append(&mut n.kids);
    }
}

/// a long common beginning; args: kind, its length, bytes asked about, two places that are symbolic in them
fn prefix() {
    let (kind, l, m, at, at2) = (arg(1), arg(2) as usize, arg(3) as usize, arg(4) as usize, arg(5) as usize);
    let s: Vec<u8> = (0..l).map(|i| b'a' + (i * 7 % 23) as u8).collect();
    let rest = match kind {
        0 => T::Eps,
        1 => T::star(T::nset(b"")),
        2 => T::Or(vec![T::set(b"x"), T::lit(b"yz")]),
        3 => T::opt(T::set(b"q")),
        _ => T::And(vec![T::star(T::set(b"xy")), T::not(T::set(b"x"))]),
    };
    let t = T::Cat(vec![T::lit(&s), rest.clone()]);
    let t = if kind == 3 { T::Or(vec![t.clone(), T::Cat(vec![T::lit(&s), T::lit(b"zz")])]) } else { t };
    let mut bytes: Vec<u8> = (0..m).map(|i| if i < l { s[i] } else { b'x' }).collect();
    for p in [at, at2] {
        if p < m {
            bytes[p] = any_u8();
        }
    }
    // a word of the language: s and one letter or none
    let tail: Vec<u8> = match kind {
        0 => vec![],
        1 => vec![any_u8()],
        2 => vec![b'x'],
        3 => vec![],
        _ => vec![b'y'],
    };
    let mut w = s.clone();
    w.extend(&tail);
    let mut starts = b01(w.len() >= m);
    for i in 0..m.min(w.len()) {
        starts &= b01(w[i] == bytes[i]);
    }
    let mut b = RegexBuilder::new();
    let e = b.mk(&to_ast(&t)).unwrap();
    let claim = b.exprset().has_simply_forced_bytes(e, &bytes);
    if claim {
        // w is in the language
        check(starts == 1, 31);
        cover(1);
    } else {
        check(m > 0, 32);
        cover(2);
    }
}

/// a class of many ranges of scalar values; args: first, distance, width, how many, word length, builder/Regex
fn classes() {
    let (first, step, width, m, n) = (arg(1), arg(2), arg(3), arg(4), arg(5) as usize);
    let mut v = vec![];
    for i in 0..m {
        let a = first + i * step;
        let b = a + width - 1;
        if b > 0x10ffff || (a < 0xe000 && b >= 0xd800) {
            continue;
        }
        v.push((a, b));
    }
    let t = T::Chars(v);
    let t = match arg(6) {
        0 => t,
        1 => T::Cat(vec![T::set(b"a"), t]),
        _ => T::plus(t),
    };
    note(&show(&t));
    let mut w = vec![];
    for _ in 0..n {
        w.push(any_u8());
    }
    let want = Spec::new(&w).member(&t);
    let mut b = RegexBuilder::new();
    let e = b.mk_regex(&to_pat(&t)).unwrap();
    let mut r = b.to_regex(e);
    let got = r.is_match_bytes(&w);
    check(got as u8 == want, 41);
    cover(got as u32);
}
