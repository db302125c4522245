//! Languages of lengths: questions whose shortest witnesses are long.
use crate::gen::*;
use crate::rt::*;
use crate::spec::*;
use derivre::raw::*;
use derivre::*;

/// sets of numbers
enum U {
    AtLeast(u32),
    AtMost(u32),
    /// r, r + p, r + 2p...
    Mod(u32, u32),
    Not(Box<U>),
    And(Vec<U>),
    Or(Vec<U>),
}
impl U {
    fn has(&self, n: u32) -> bool {
        match self {
            U::AtLeast(m) => n >= *m,
            U::AtMost(m) => n <= *m,
            U::Mod(p, r) => n >= *r && (n - r) % p == 0,
            U::Not(u) => !u.has(n),
            U::And(v) => v.iter().all(|u| u.has(n)),
            U::Or(v) => v.iter().any(|u| u.has(n)),
        }
    }
    /// words over `a` of these lengths (complements are relative to all words)
    fn tree(&self, a: &T) -> T {
        match self {
            U::AtLeast(m) => T::rep(a.clone(), *m, u32::MAX),
            U::AtMost(m) => T::rep(a.clone(), 0, *m),
            U::Mod(p, r) => T::Cat(vec![T::star(T::rep(a.clone(), *p, *p)), T::rep(a.clone(), *r, *r)]),
            U::Not(u) => T::not(u.tree(a)),
            U::And(v) => T::And(v.iter().map(|u| u.tree(a)).collect()),
            U::Or(v) => T::Or(v.iter().map(|u| u.tree(a)).collect()),
        }
    }
}
fn not(u: U) -> U {
    U::Not(Box::new(u))
}

/// args: what (0 emptiness, 1 fuel, 2 next bytes, 3 dead states, 4 containment), kind, p1, p2, m, number of second
/// remainders, first remainder, letters read before, symbolic letters, lowest fuel
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_unary() {
    let (what, kind, p1, p2, m, nr, r1) = (arg(0), arg(1), arg(2), arg(3), arg(4), arg(5), arg(6));
    let (pre, n) = (arg(7) as usize, arg(8) as usize);
    let r2 = choose(nr);
    let (a, b) = (U::Mod(p1, r1), U::Mod(p2, r2));
    let u = match kind {
        0 => U::And(vec![a, b, U::AtLeast(m)]),
        1 => U::And(vec![a, b, U::AtMost(m)]),
        2 => U::And(vec![a, not(b), U::AtLeast(m)]),
        3 => U::And(vec![a, not(b), U::AtMost(m)]),
        4 => U::And(vec![a, not(b)]),
        5 => U::And(vec![a, U::AtLeast(m), U::AtMost(m + r2)]),
        6 => U::And(vec![U::AtMost(m), not(a), not(b), not(U::AtMost(m / 2))]),
        7 => U::And(vec![U::Or(vec![a, b]), U::AtMost(m), not(U::AtMost(m - 3))]),
        // every number is in one of the classes
        8 => U::And(vec![U::AtLeast(m), not(U::Or((0..p1).filter(|x| *x != r2).map(|x| U::Mod(p1, x)).collect()))]),
        _ => U::And(vec![U::Mod(1, 0), not(U::And(vec![not(a), not(b)])), U::AtLeast(m)]),
    };
    let top = m + r1 + r2 + p1 * p2 + (pre + n) as u32 + 2;
    let from = |j: u32| (j..=top).any(|x| u.has(x));
    // the lengths are those of words over two of three letters (of all the others, for the last three questions)
    let ab = if what < 3 { T::Mask(3) } else { T::set(b"ab") };
    let t = u.tree(&ab);
    note(&show(&t));
    let (lo, hi) = if what < 3 { (0, 1) } else { (b'a', b'b') };
    let mut w = vec![lo; pre];
    for i in 0..pre {
        if i % 3 == 1 {
            w[i] = hi;
        }
    }
    for _ in 0..n {
        w.push(if what < 3 { any_below(3) } else { any_u8() });
    }
    // is the word one over the two letters so far?
    let mut ok = vec![1u8];
    for c in &w {
        ok.push(ok[ok.len() - 1] & (b01(*c == lo) | b01(*c == hi)));
    }
    let has = |j: usize| ok[j] & u.has(j as u32) as u8;
    let some = |j: usize| ok[j] & from(j as u32) as u8;
    match what {
        0 | 1 | 2 => {
            let mut es = ExprSet::new(3);
            let mut f = build(&mut es, &t);
            let mut d = DerivCache::new();
            let mut rc = RelevanceCache::new();
            let mut nb = NextByteCache::new();
            for j in 0..=w.len() {
                if j > 0 {
                    f = d.derivative(&mut es, f, w[j - 1]);
                }
                check(es.is_nullable(f) as u8 == has(j), 1);
                check(!es.is_positive(f) | (some(j) != 0), 2);
                if what == 0 && (j >= pre || j % 7 == 0) {
                    let got = rc.is_non_empty(&mut es, f);
                    check(got as u8 == some(j), 3);
                    cover(got as u32);
                }
                if what == 1 && j == w.len() {
                    let fuel = arg(9) as u64 + any_below(12) as u64;
                    match rc.is_non_empty_limited(&mut es, f, fuel) {
                        Ok(got) => {
                            check(got as u8 == some(j), 4);
                            cover(got as u32);
                        }
                        Err(_) => cover(2),
                    }
                    check(rc.is_non_empty(&mut es, f) as u8 == some(j), 5);
                }
                if what == 2 {
                    let after = some_after(&ok, j, &from);
                    match nb.next_byte(&es, f) {
                        NextByte::ForcedByte(_) => check(after == 0, 6),
                        NextByte::ForcedEOI => check(after == 0, 7),
                        NextByte::Dead => check(some(j) == 0, 8),
                        NextByte::SomeBytes => cover(1),
                    }
                }
            }
        }
        3 => {
            let mut bld = RegexBuilder::new();
            let e = bld.mk(&to_ast(&t)).unwrap();
            let mut r = bld.to_regex(e);
            check(r.always_empty() as u8 == some(0) ^ 1, 10);
            let mut s = r.initial_state();
            for j in 0..=w.len() {
                if j > 0 {
                    s = r.transition(s, w[j - 1]);
                }
                check(r.is_accepting(s) as u8 == has(j), 11);
                check(s.is_dead() as u8 == some(j) ^ 1, 12);
                cover(some(j) as u32);
            }
        }
        4 => {
            // is every such word one of a number of letters?
            let (a, b) = (U::And(vec![U::Mod(p1, r1), U::AtLeast(m)]), U::Mod(p2, r2));
            let a = if kind == 0 { a } else { U::And(vec![a, U::AtMost(m + kind)]) };
            let want = (0..=top + kind).all(|x| !a.has(x) || b.has(x));
            let mut bld = RegexBuilder::new();
            let e = bld.mk_contained_in_ast(&to_ast(&a.tree(&ab)), &to_ast(&b.tree(&ab))).unwrap();
            let fuel = if n == 0 { u64::MAX } else { arg(9) as u64 + any_below(12) as u64 };
            match bld.to_regex_limited(e, fuel) {
                Ok(mut r) => {
                    let got = r.always_empty();
                    check(got == want, 13);
                    cover(got as u32);
                }
                Err(_) => {
                    check(n != 0, 14);
                    cover(2);
                }
            }
        }
        _ => (),
    }
}
/// is there a longer word in the language?
fn some_after(ok: &[u8], j: usize, from: &dyn Fn(u32) -> bool) -> u8 {
    ok[j] & from(j as u32 + 1) as u8
}

/// A wide search: m branches, told apart by the first two letters, each without words but for one at most.
/// args: what (0 emptiness, 1 dead states, 2 containment, 3 fuel), branches, letters, first place, stride, places, letters read
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_front() {
    let (what, m, k) = (arg(0), arg(1), arg(2));
    let (off, stride, places, n) = (arg(3), arg(4), arg(5), arg(6) as usize);
    let at = off + stride * choose(places);
    // what is special about that branch: nothing, or words of 0, 1 or 2 modulo 3 letters
    let how = choose(4);
    let lit = |c: u32| if what == 0 || what == 3 { T::Letter(c as u8) } else { T::set(&[5 + c as u8]) };
    let class = |p: u32, r: u32| T::Cat(vec![T::star(T::Cat((0..p).map(|_| lit(0)).collect())), T::Cat((0..r).map(|_| lit(0)).collect())]);
    let side = |second: bool| {
        T::Or(
            (0..m)
                .map(|i| {
                    let c = if second && i == at && how > 0 { class(3, how - 1) } else { class(2, (i + second as u32) & 1) };
                    T::Cat(vec![lit(i / k), lit(i % k), c, lit(1), lit(i % k), lit(i / k)])
                })
                .collect(),
        )
    };
    let (a, b) = (side(false), side(true));
    let empty = how == 0;
    let w: Vec<u8> = (0..n).map(|_| if what == 0 { any_below(k as u8) } else { any_u8() }).collect();
    let base = if what == 0 { 0 } else { 5 };
    // can the word still become one of the language? (asked after at most two letters)
    let mut some = vec![b01(!empty)];
    for j in 0..n {
        let c = if j == 0 { at / k } else { at % k } as u8 + base;
        some.push(some[j] & b01(w[j] == c));
    }
    match what {
        0 => {
            let mut es = ExprSet::new(k as usize);
            let t = T::And(vec![a, b]);
            note(&show(&t));
            let mut f = build(&mut es, &t);
            let mut d = DerivCache::new();
            let mut rc = RelevanceCache::new();
            for j in 0..=n {
                if j > 0 {
                    f = d.derivative(&mut es, f, w[j - 1]);
                }
                let got = rc.is_non_empty(&mut es, f);
                check(got as u8 == some[j], 20);
                check(!es.is_positive(f) | (some[j] != 0), 21);
                cover(got as u32);
            }
        }
        1 => {
            let t = T::And(vec![a, b]);
            note(&show(&t));
            let mut bld = RegexBuilder::new();
            let e = bld.mk(&to_ast(&t)).unwrap();
            let mut r = bld.to_regex(e);
            check(r.always_empty() == empty, 22);
            let mut s = r.initial_state();
            for j in 0..=n {
                if j > 0 {
                    s = r.transition(s, w[j - 1]);
                }
                check(s.is_dead() as u8 == some[j] ^ 1, 23);
                cover(some[j] as u32);
            }
        }
        2 => {
            let mut bld = RegexBuilder::new();
            let e = bld.mk_contained_in_ast(&to_ast(&a), &to_ast(&T::not(b))).unwrap();
            let mut r = bld.to_regex(e);
            check(r.always_empty() == empty, 24);
            cover(empty as u32);
        }
        _ => {
            let mut es = ExprSet::new(k as usize);
            let f = build(&mut es, &T::And(vec![a, b]));
            // anything from 64 * 2^i on, up to 15 more
            let fuel = (64u64 << choose(14)) + (any_u64() & 15);
            let mut rc = RelevanceCache::new();
            match rc.is_non_empty_limited(&mut es, f, fuel) {
                Ok(got) => {
                    check(got == !empty, 25);
                    cover(got as u32);
                }
                Err(_) => cover(2),
            }
            check(rc.is_non_empty(&mut es, f) == !empty, 26);
        }
    }
}
