//! Regex-level harnesses: states, next byte, history independence, fuel,
//! look-ahead, table export.
use crate::gen::*;
use crate::h_match::*;
use crate::h_raw::*;
use crate::rt::*;
use crate::spec::*;
use derivre::*;

/// operators whose shortest witnesses stay short
pub const OPS_SHORT: &[Op] = &[Op::Cat, Op::Or, Op::And, Op::Not, Op::Star, Op::Plus, Op::Opt];

/// one byte of every class the sets of a pool can distinguish
pub fn reps(pool: u32) -> &'static [u8] {
    match pool {
        0 => b"abc",
        1 => b"abcd",
        3 => &[b'a', b'b', b'c', 0x80],
        5 => &[0, 1, 254, 255],
        6 => b"abc",
        7 => b"abcd",
        8 => b"abcdefghijklmnop",
        _ => &[b'a', b'b', 0x80],
    }
}
fn tree(sel: u32, pool: u32, o: u32, base: u32) -> T {
    let mut p = Pick::new(base);
    if sel >= 100 {
        let t = template(sel - 100, &mut || leaf(pool, &mut p));
        note(&show(&t));
        return t;
    }
    let ops = match sel {
        0 => crate::h_match::OPS,
        1 => OPS_SHORT,
        _ => crate::gen::OPS_NOB,
    };
    let t = Gen { ops, leaf: &mut |p| leaf(pool, p) }.exact(&mut p, o);
    note(&show(&t));
    t
}
fn compile(t: &T) -> Regex {
    let mut b = RegexBuilder::new();
    let e = b.mk(&to_ast(t)).unwrap();
    b.to_regex(e)
}
fn run(r: &mut Regex, w: &[u8]) -> StateID {
    let s = r.initial_state();
    r.transition_bytes(s, w)
}

/// dead states and always_empty; args: opset, pool, operators, word length, witness length, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_dead() {
    let (sel, pool, o, n, wl) = (arg(0), arg(1), arg(2), arg(3) as usize, arg(4) as usize);
    let t = tree(sel, pool, o, 5);
    let w = word(n);
    let some: Vec<u8> = (0..=n).map(|j| exists_after(&t, &w[..j], reps(pool), wl)).collect();
    let mut r = compile(&t);
    check(r.always_empty() as u8 == some[0] ^ 1, 1);
    let mut s = r.initial_state();
    for j in 0..=n {
        if j > 0 {
            s = r.transition(s, w[j - 1]);
        }
        check(s.is_dead() as u8 == some[j] ^ 1, 2);
        check(s.is_valid(), 3);
        cover(some[j] as u32);
    }
    if s.is_dead() {
        // dead is absorbing
        let c = any_u8();
        let s2 = r.transition(s, c);
        check(s2.is_dead(), 4);
        check(!r.is_accepting(s), 5);
        check(r.next_byte(s) == NextByte::Dead, 6);
        check(r.lookahead_len_for_state(s).is_none(), 7);
    }
}

/// next_byte of compiled regexes; args as h_dead
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_next() {
    let (sel, pool, o, n, wl) = (arg(0), arg(1), arg(2), arg(3) as usize, arg(4) as usize);
    let t = tree(sel, pool, o, 5);
    let w: Vec<u8> = (0..n).map(|_| letter()).collect();
    let c = any_u8();
    let spec: Vec<(u8, u8)> = (0..=n)
        .map(|j| {
            let mut wc = w[..j].to_vec();
            wc.push(c);
            (Spec::new(&w[..j]).member(&t), exists_after(&t, &wc, reps(pool), wl))
        })
        .collect();
    let mut r = compile(&t);
    let mut s = r.initial_state();
    for j in 0..=n {
        if j > 0 {
            s = r.transition(s, w[j - 1]);
        }
        let (null, after) = spec[j];
        let nb = r.next_byte(s);
        match nb {
            NextByte::ForcedByte(b) => {
                check(null == 0, 1);
                check((c == b) | (after == 0), 2);
                cover(1);
            }
            NextByte::ForcedEOI => {
                check(after == 0, 3);
                check(null == 1, 6);
                cover(2);
            }
            NextByte::Dead => {
                check((after == 0) & (null == 0), 4);
                cover(3);
            }
            NextByte::SomeBytes => cover(4),
        }
        if j == n {
            // asking again, after a transition
            r.transition(s, c);
            check(r.next_byte(s) == nb, 5);
        }
    }
}

/// the outcome of a query does not depend on what was asked before, nor on cloning
/// args: opset, pool, operators, word length, other word's length, scenario, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_history() {
    let (sel, pool, o, n, m, sc) = (arg(0), arg(1), arg(2), arg(3) as usize, arg(4) as usize, arg(5));
    let t = tree(sel, pool, o, 6);
    let w = word(n);
    let u = word(m);
    let want = Spec::new(&w).member(&t);
    let wantu = Spec::new(&u).member(&t);
    let mut r = compile(&t);
    match sc {
        // other queries first
        0 => {
            let a = r.is_match_bytes(&u);
            let s0 = run(&mut r, &u);
            r.next_byte(s0);
            r.lookahead_len_for_state(s0);
            let got = r.is_match_bytes(&w);
            check(got as u8 == want, 1);
            let s1 = run(&mut r, &w);
            check(r.is_accepting(s1) as u8 == want, 2);
            // states are stable names
            check(run(&mut r, &u) == s0, 3);
            check(r.is_match_bytes(&u) == a, 4);
            check(a as u8 == wantu, 5);
            check(run(&mut r, &w) == s1, 6);
            cover(got as u32);
        }
        // clones are independent of each other
        1 => {
            let s0 = run(&mut r, &u);
            let mut r2 = r.clone();
            let a = r2.is_match_bytes(&w);
            check(r2.is_accepting(s0) as u8 == wantu, 1);
            let s1 = run(&mut r, &w);
            check(r.is_accepting(s1) as u8 == want, 2);
            check(a as u8 == want, 3);
            check(run(&mut r2, &u) == s0, 4);
            check(run(&mut r, &u) == s0, 5);
            cover(a as u32);
        }
        // in two pieces / one byte at a time / from a state in the middle
        2 => {
            let k = n / 2;
            let s1 = run(&mut r, &w);
            let s = r.initial_state();
            let h = r.transition_bytes(s, &w[..k]);
            let s2 = r.transition_bytes(h, &w[k..]);
            check(s1 == s2, 1);
            r.is_match_bytes(&u);
            let mut s3 = r.initial_state();
            for b in &w {
                s3 = r.transition(s3, *b);
            }
            check(s3 == s1, 2);
            check(r.is_accepting(s1) as u8 == want, 3);
            cover(want as u32);
        }
        // two states named alike are the same language; an accepting state stays so
        3 => {
            let s1 = run(&mut r, &w);
            let s2 = run(&mut r, &u);
            if s1 == s2 {
                check(want == wantu, 1);
            }
            check(r.is_accepting(s1) as u8 == want, 2);
            check(r.is_accepting(s2) as u8 == wantu, 3);
            check(r.is_accepting(s1) as u8 == want, 4);
            cover((s1 == s2) as u32);
        }
        // a builder used for something else before and after
        _ => {
            let mut b = RegexBuilder::new();
            let other = T::Cat(vec![T::not(T::set(b"b")), t.clone(), T::star(T::set(b"a"))]);
            let x = b.mk(&to_ast(&other)).unwrap();
            let mut rx = b.to_regex(x);
            let e = b.mk(&to_ast(&t)).unwrap();
            let mut r1 = b.to_regex(e);
            let y = b.mk(&RegexAst::Concat(vec![RegexAst::ExprRef(e), RegexAst::ExprRef(x)])).unwrap();
            let e2 = b.mk(&RegexAst::ExprRef(e)).unwrap();
            let mut r2 = b.to_regex(e2);
            let _ = rx.is_match_bytes(&u);
            check(r1.is_match_bytes(&w) as u8 == want, 1);
            check(r2.is_match_bytes(&w) as u8 == want, 2);
            check(r.is_match_bytes(&w) as u8 == want, 3);
            let _ = y;
            cover(want as u32);
        }
    }
}

/// shared caches at the level of expressions; args: opset, alphabet, ops of 1st, ops of 2nd, word length, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_shared() {
    use derivre::raw::*;
    let (sel, k, o1, o2, n) = (arg(0), arg(1), arg(2), arg(3), arg(4) as usize);
    let mut p = Pick::new(5);
    let ops = if sel == 0 { crate::h_raw::OPS_NP } else { crate::h_raw::OPS_POS };
    let mut one = |o: u32| {
        if o >= 100 {
            template_mask(o - 100, &mut || mask(k), k)
        } else {
            Gen { ops, leaf: &mut |_| mask(k) }.exact(&mut p, o)
        }
    };
    let t1 = one(o1);
    let t2 = one(o2);
    note(&show(&t1));
    note(&show(&t2));
    let w = letters(k, n);
    let want1 = Spec::new(&w).member(&t1);
    let want2 = Spec::new(&w).member(&t2);
    let mut es = ExprSet::new(k as usize);
    let e1 = build(&mut es, &t1);
    let e2 = build(&mut es, &t2);
    let mut d = DerivCache::new();
    let mut rc = RelevanceCache::new();
    let (mut f1, mut f2) = (e1, e2);
    for b in &w {
        rc.is_non_empty(&mut es, f1);
        f1 = d.derivative(&mut es, f1, *b);
        rc.is_non_empty(&mut es, f2);
        f2 = d.derivative(&mut es, f2, *b);
    }
    check(es.is_nullable(f1) as u8 == want1, 1);
    check(es.is_nullable(f2) as u8 == want2, 2);
    // fresh caches, a cloned set
    let mut es2 = es.clone();
    let g1 = walk(&mut es2, &mut DerivCache::new(), e1, &w);
    check(es2.is_nullable(g1) as u8 == want1, 3);
    check(walk(&mut es, &mut d, e2, &w) == f2, 4);
    let a = rc.is_non_empty(&mut es, f1);
    let b = RelevanceCache::new().is_non_empty(&mut es2, g1);
    check(a == b, 5);
    let g2 = walk(&mut es2, &mut DerivCache::new(), e2, &w);
    check(rc.is_non_empty(&mut es, f2) == RelevanceCache::new().is_non_empty(&mut es2, g2), 6);
    cover(want1 as u32 + 2 * want2 as u32);
}

/// limited compilation; args: opset, pool, operators, word length, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_limited() {
    let (sel, pool, o, n) = (arg(0), arg(1), arg(2), arg(3) as usize);
    let t = tree(sel, pool, o, 4);
    let w = word(n);
    let want = Spec::new(&w).member(&t);
    let mut b = RegexBuilder::new();
    let e = b.mk(&to_ast(&t)).unwrap();
    let (f1, f2) = (any_u64(), any_u64());
    assume(f1 <= f2);
    let x = b.to_regex_limited(e, f1);
    let y = b.to_regex_limited(e, f2);
    let mut full = b.to_regex(e);
    check(full.is_match_bytes(&w) as u8 == want, 1);
    match x {
        Ok(mut r) => {
            cover(1);
            check(r.is_match_bytes(&w) as u8 == want, 2);
            check(r.always_empty() == full.always_empty(), 3);
            // the work accounted for so far is not forgotten
            check(r.cost() >= b.exprset().cost(), 6);
            check(y.is_ok(), 4);
        }
        Err(_) => cover(2),
    }
    if let Ok(mut r) = y {
        check(r.always_empty() == full.always_empty(), 5);
    }
}

/// limits of more than 32 bits are never used up; args: opset, pool, operators, (unused), pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_plenty() {
    let (sel, pool, o) = (arg(0), arg(1), arg(2));
    let t = tree(sel, pool, o, 4);
    let fuel = match choose(8) {
        0 => 1 << 32,
        1 => (1 << 32) + 1,
        2 => 1 << 33,
        3 => 1 << 48,
        4 => 1 << 63,
        5 => u64::MAX - 1,
        6 => u64::MAX - any_u8() as u64,
        _ => 1 << 31,
    };
    let mut b = RegexBuilder::new();
    let e = b.mk(&to_ast(&t)).unwrap();
    let mut full = b.to_regex(e);
    let r = b.to_regex_limited(e, fuel);
    check(r.is_ok(), 1);
    check(r.unwrap().always_empty() == full.always_empty(), 2);
    let mut es = b.exprset().clone();
    let mut rc = derivre::raw::RelevanceCache::new();
    let (c0, x) = (es.cost(), rc.is_non_empty_limited(&mut es, e, fuel));
    check(es.cost() - c0 < 1 << 31, 3);
    check(x.is_ok() && x.unwrap() == !full.always_empty(), 4);
    cover(full.always_empty() as u32);
}

/// the fuel limit bounds the work; args: length of the chain, kind
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_bounded() {
    let (len, kind) = (arg(0), arg(1));
    let fuel = any_u32();
    assume(fuel < 100_000);
    let mut b = RegexBuilder::new();
    // a chain of `len` steps, each of constant cost, none of them trivially non-empty
    let rep = RegexAst::Repeat(Box::new(RegexAst::Byte(b'a')), len, len);
    let not = RegexAst::Not(Box::new(RegexAst::Byte(b'b')));
    let ast = match kind {
        0 => RegexAst::And(vec![rep, not]),
        _ => RegexAst::And(vec![
            RegexAst::Repeat(Box::new(RegexAst::Byte(b'a')), len, len),
            RegexAst::Repeat(Box::new(RegexAst::Byte(b'a')), len + 1, u32::MAX),
        ]),
    };
    let e = b.mk(&ast).unwrap();
    let mut es = b.exprset().clone();
    let c0 = es.cost();
    let mut rc = derivre::raw::RelevanceCache::new();
    let r = rc.is_non_empty_limited(&mut es, e, fuel as u64);
    let used = es.cost() - c0;
    // one step may be taken beyond the limit
    check(used <= fuel as u64 + 400, 1);
    match r {
        Ok(x) => {
            check(x == (kind == 0), 2);
            cover(1);
        }
        Err(_) => {
            check(used > fuel as u64, 3);
            cover(2);
        }
    }
}

/// the length of the look-ahead; args: kind, pool, ops of A, ops of B, word length, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_look() {
    let (kind, pool, oa, ob, n) = (arg(0), arg(1), arg(2), arg(3), arg(4) as usize);
    let mut p = Pick::new(5);
    let ops: &[Op] = if kind == 1 { crate::gen::OPS_NOB } else { OPS_SHORT };
    let mut one = |o: u32, p: &mut Pick| {
        if o >= 100 {
            template(o - 100, &mut || leaf(pool, p))
        } else {
            Gen { ops, leaf: &mut |p| leaf(pool, p) }.exact(p, o)
        }
    };
    let a = one(oa, &mut p);
    let b = one(ob, &mut p);
    let look = T::lookahead(b.clone());
    let t = match kind {
        0 | 1 => T::Cat(vec![a.clone(), look.clone()]),
        2 => T::Cat(vec![a.clone(), T::set(b"a"), look.clone()]),
        // alternatives with the same look-ahead
        _ => T::Or(vec![T::Cat(vec![a.clone(), look.clone()]), T::Cat(vec![T::set(b"b"), look.clone()])]),
    };
    note(&show(&t));
    let head = match kind {
        0 | 1 => a,
        2 => T::Cat(vec![a, T::set(b"a")]),
        _ => T::Or(vec![a, T::set(b"b")]),
    };
    let w = word(n);
    lut(true);
    let sp = Spec::new(&w);
    let (ma, mb) = (sp.mat(&head), sp.mat(&look));
    // split k: w[..k] in the head, w[k..j] the look-ahead
    let want: Vec<u8> = (0..=n)
        .map(|j| {
            let mut x = 255u8;
            for k in 0..=j {
                let ok = ma.at(0, k) & mb.at(k, j);
                let l = (j - k) as u8;
                x = if ok != 0 { l } else { x };
            }
            x
        })
        .collect();
    lut(false);
    let mut bld = RegexBuilder::new();
    let e = if kind == 1 {
        bld.mk_regex(&to_pat(&t)).unwrap()
    } else {
        bld.mk(&to_ast(&t)).unwrap()
    };
    let mut r = bld.to_regex(e);
    for j in 0..=n {
        match r.lookahead_len_bytes(&w[..j]) {
            None => {
                check(want[j] == 255, 1);
                cover(0);
            }
            Some(l) => {
                check(l as u8 == want[j], 2);
                cover(1 + l as u32);
            }
        }
        let s = run(&mut r, &w[..j]);
        check(r.is_accepting(s) as u8 == (want[j] != 255) as u8, 3);
        check(r.lookahead_len_for_state(s).map(|x| x as u8).unwrap_or(255) == want[j], 4);
    }
}

/// the exported table; args: opset, pool, operators, word length, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_dfa() {
    let (sel, pool, o, n) = (arg(0), arg(1), arg(2), arg(3) as usize);
    let t = tree(sel, pool, o, 4);
    let w = word(n);
    lut(true);
    let mat = Spec::new(&w).mat(&t);
    lut(false);
    let mut r = compile(&t);
    let tab = r.dfa();
    let k = r.alpha().len();
    check(tab.len() > 256 && (tab.len() - 256) % k == 0, 1);
    let states = (tab.len() - 256) / k;
    let mut s = r.initial_state().as_usize();
    let mut q = r.initial_state();
    for (j, b) in w.iter().enumerate() {
        let m = tab[*b as usize] as usize;
        check(m < k, 2);
        check(m == r.alpha().map(*b), 3);
        s = tab[256 + s * k + m] as usize;
        check(s < states, 4);
        q = r.transition(q, *b);
        check(q.as_usize() == s, 5);
        let id = StateID::new(s as u32);
        let acc = r.is_accepting(id);
        check(acc as u8 == mat.at(0, j + 1), 6);
        check(id.is_dead() == (s == 0), 7);
        cover(acc as u32);
    }
}

/// the exported table of a regex with many states or many classes
/// args: kind, size, concrete bytes before the symbolic ones, symbolic bytes, may it be refused
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_dfabig() {
    let (kind, size, pre, n) = (arg(0), arg(1) as usize, arg(2) as usize, arg(3) as usize);
    // the words of the language, as a byte set for each position of each alternative
    let one = |b: u8| vec![b];
    let alts: Vec<Vec<Vec<u8>>> = match kind {
        // one class, many states
        0 => vec![vec![b"ab".to_vec(); size]],
        // four branches
        1 => (0..4).map(|i| (0..size).map(|j| one(if j == 0 { b'p' + i } else { b'a' + (j as u8 * (i + 1)) % 3 })).collect()).collect(),
        // as many classes as states
        2 => vec![(0..size).map(|j| one(j as u8 + 20)).collect()],
        // a loop and long ways out of it
        _ => (0..8).map(|i| (0..size).map(|j| if j == 0 { one(i) } else { vec![b'x' + (i & 1), b'z'] }).collect()).collect(),
    };
    let t = T::Or(alts.iter().map(|a| T::Cat(a.iter().map(|s| T::set(s)).collect())).collect());
    let t = if kind == 0 { T::rep(T::set(b"ab"), size as u32, size as u32) } else { t };
    let first = (arg(5) as usize) % alts.len();
    let mut w: Vec<u8> = (0..pre).map(|j| if j < size { *alts[first][j].last().unwrap() } else { b'a' }).collect();
    w.extend(word(n));
    let mut r = compile(&t);
    may_refuse(arg(4) != 0);
    let tab = r.dfa();
    may_refuse(false);
    let k = r.alpha().len();
    check(tab.len() > 256 && (tab.len() - 256) % k == 0, 1);
    let states = (tab.len() - 256) / k;
    let mut s = r.initial_state().as_usize();
    let mut q = r.initial_state();
    // 1 as long as the bytes so far agree with the alternative
    let mut alive = vec![1u8; alts.len()];
    for (j, b) in w.iter().enumerate() {
        let m = tab[*b as usize] as usize;
        check(m < k, 2);
        s = tab[256 + s * k + m] as usize;
        check(s < states, 4);
        q = r.transition(q, *b);
        check(q.as_usize() == s, 5);
        let (mut acc, mut live) = (0, 0);
        for (i, a) in alts.iter().enumerate() {
            alive[i] &= if j < a.len() { a[j].iter().fold(0, |x, c| x | (*c == *b) as u8) } else { 0 };
            live |= alive[i];
            acc |= alive[i] & (j + 1 == a.len()) as u8;
        }
        let id = StateID::new(s as u32);
        check(r.is_accepting(id) as u8 == acc, 6);
        check(id.is_dead() as u8 == live ^ 1, 7);
        cover(acc as u32);
    }
}

/// containment; args: 0 patterns/1 asts/2 compile the ast by hand, pool, ops, ops, witness length, fuel?, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_contain() {
    let (kind, pool, o1, o2, wl, lim) = (arg(0), arg(1), arg(2), arg(3), arg(4) as usize, arg(5));
    let mut p = Pick::new(6);
    let ops: &[Op] = if kind == 0 { crate::gen::OPS_NOB } else { OPS_SHORT };
    let mut one = |o: u32, p: &mut Pick| {
        if o >= 100 {
            template(o - 100, &mut || leaf(pool, p))
        } else {
            Gen { ops, leaf: &mut |p| leaf(pool, p) }.exact(p, o)
        }
    };
    let a = one(o1, &mut p);
    let b = one(o2, &mut p);
    note(&show(&a));
    note(&show(&b));
    let w = word(wl);
    // every prefix of the symbolic word is a potential counterexample to containment
    lut(true);
    let sp = Spec::new(&w);
    let (ma, mb) = (sp.mat(&a), sp.mat(&b));
    let mut bad = 0u8;
    for j in 0..=wl {
        bad |= ma.at(0, j) & (mb.at(0, j) ^ 1);
    }
    lut(false);
    let fuel = if lim != 0 { any_u64() } else { u64::MAX };
    let mut bld = RegexBuilder::new();
    let r = if kind == 0 {
        bld.is_contained_in(&to_pat(&a), &to_pat(&b), fuel)
    } else {
        let e = bld.mk_contained_in_ast(&to_ast(&a), &to_ast(&b)).unwrap();
        bld.to_regex_limited(e, fuel).map(|mut r| r.always_empty())
    };
    match r {
        Ok(true) => {
            check(bad == 0, 1);
            cover(1);
        }
        Ok(false) => {
            // some word over the representatives is in a but not in b
            let diff = T::And(vec![a, T::not(b)]);
            check(exists_after(&diff, &[], reps(pool), wl) == 1, 2);
            cover(2);
        }
        Err(_) => {
            check(lim != 0, 3);
            cover(3);
        }
    }
}

/// a regex that has been used for thousands of transitions answers like a fresh one
/// args: opset, pool, operators, word length, rounds of warming up, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_busy() {
    let (sel, pool, o, n, rounds) = (arg(0), arg(1), arg(2), arg(3) as usize, arg(4));
    let t = tree(sel, pool, o, 5);
    // x followed by four letters out of d..w: many states, many classes
    let mut words = vec![];
    for i in 0..rounds {
        words.push([b'x', b'd' + (i % 20) as u8, b'd' + (i * 7 % 19) as u8, b'd' + (i * 11 / 5 % 20) as u8, b'd' + (i * 3 / 7 % 18) as u8]);
    }
    let mut all = vec![t.clone()];
    all.extend(words.iter().map(|w| T::lit(w)));
    let all = T::Or(all);
    let mut r = compile(&all);
    let mut fresh = r.clone();
    for w in &words {
        for k in 1..=w.len() {
            for c in b'a'..=b'x' {
                let mut s = run(&mut r, &w[..k]);
                s = r.transition(s, c);
                r.next_byte(s);
            }
        }
        check(r.is_match_bytes(w), 1);
    }
    let w = word(n);
    let want: Vec<u8> = (0..=n).map(|j| Spec::new(&w[..j]).member(&all)).collect();
    let mut s = r.initial_state();
    let mut f = fresh.initial_state();
    for j in 0..=n {
        if j > 0 {
            s = r.transition(s, w[j - 1]);
            f = fresh.transition(f, w[j - 1]);
        }
        check(r.is_accepting(s) as u8 == want[j], 2);
        check(s.is_dead() == f.is_dead(), 3);
        check(r.next_byte(s) == fresh.next_byte(f), 4);
        check(r.is_match_bytes(&w[..j]) as u8 == want[j], 5);
        cover(s.is_dead() as u32);
    }
}
