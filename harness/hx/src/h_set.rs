//! Byte-set operations, n-ary constructors, literal tries.
use crate::gen::*;
use crate::h_raw::*;
use crate::rt::*;
use crate::spec::*;
use derivre::raw::*;
use derivre::*;

/// does `e` (a byte, a byte set, or no match) contain the letter c? observed through derivatives
fn has(es: &mut ExprSet, e: ExprRef, c: u8) -> bool {
    let mut d = DerivCache::new();
    let f = d.derivative(es, e, c);
    f == ExprRef::EMPTY_STRING
}
/// args: alphabet size, 0: two symbolic words / 1: one symbolic word shifted to word `arg(2)`
/// set algebra on byte sets, for every pair of sets and every letter
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_bytesets() {
    let k = arg(0) as usize;
    let op = arg(1);
    // the sets differ in 4 symbolic letters placed by the job; the rest is fixed
    let pos: Vec<u8> = (0..4).map(|i| arg(3 + i) as u8).collect();
    let fill = arg(2);
    let words = (k + 31) / 32;
    let mk = |fill: bool, m: u8| -> Vec<u32> {
        let mut s = vec![if fill { !0u32 } else { 0 }; words];
        for i in k..words * 32 {
            s[i / 32] &= !(1 << (i % 32));
        }
        for (i, p) in pos.iter().enumerate() {
            let p = *p as usize;
            s[p / 32] &= !(1 << (p % 32));
            s[p / 32] |= ((m as u32 >> i) & 1) << (p % 32);
        }
        s
    };
    let (ma, mb) = (any_below(16), any_below(16));
    let sa = mk(fill & 1 != 0, ma);
    let sb = mk(fill & 2 != 0, mb);
    let c = any_u8();
    if k < 256 {
        assume(c < k as u8);
    }
    // spec
    let member = |fill: bool, m: u8| -> u8 {
        let mut r = fill as u8;
        for (i, p) in pos.iter().enumerate() {
            let is = b01(c == *p);
            r = (r & (is ^ 1)) | (is & (m >> i) & 1);
        }
        r
    };
    let ina = member(fill & 1 != 0, ma);
    let inb = member(fill & 2 != 0, mb);
    let mut es = ExprSet::new(k);
    if op == 6 {
        let x = es.byte_set_from_byte(c);
        let x = es.mk_byte_set(&x);
        check(es.mk_byte(c) == x, 7);
        let y = any_u8();
        assume((y as usize) < k);
        check(has(&mut es, x, y) == (c == y), 2);
        cover(1);
        return;
    }
    let a = es.mk_byte_set(&sa);
    let b = es.mk_byte_set(&sb);
    check(has(&mut es, a, c) as u8 == ina, 1);
    let (r, want) = match op {
        0 => (es.mk_or(vec![a, b]), ina | inb),
        1 => {
            if a == ExprRef::NO_MATCH || b == ExprRef::NO_MATCH {
                return;
            }
            (es.mk_byte_set_and(a, b), ina & inb)
        }
        2 => {
            if a == ExprRef::NO_MATCH || b == ExprRef::NO_MATCH {
                return;
            }
            (es.mk_byte_set_sub(a, b), ina & (inb ^ 1))
        }
        3 => {
            if a == ExprRef::NO_MATCH {
                return;
            }
            (es.mk_byte_set_not(a), ina ^ 1)
        }
        4 => {
            if a == ExprRef::NO_MATCH || b == ExprRef::NO_MATCH {
                return;
            }
            (es.mk_byte_set_or(&[a, b]), ina | inb)
        }
        _ => {
            if a == ExprRef::NO_MATCH || b == ExprRef::NO_MATCH {
                return;
            }
            (es.mk_byte_set_neg_or(&[a, b]), (ina | inb) ^ 1)
        }
    };
    let got = has(&mut es, r, c) as u8;
    check(got == want, 2);
    cover(got as u32);
    // equal sets have equal names: the set of the members, spelled out, is the same expression
    let wm: Option<(bool, u8)> = match op {
        0 | 4 => Some((fill & 1 != 0 || fill & 2 != 0, ma | mb)),
        1 => Some((fill & 1 != 0 && fill & 2 != 0, ma & mb)),
        2 => Some((fill & 1 != 0 && fill & 2 == 0, ma & !mb & 15)),
        3 => Some((fill & 1 == 0, !ma & 15)),
        _ => Some((fill & 3 == 0, !(ma | mb) & 15)),
    };
    if let Some((f, m)) = wm {
        let spelled = mk(f, m);
        check(es.mk_byte_set(&spelled) == r, 6);
        let mut cnt = 0u32;
        for x in &spelled {
            cnt += x.count_ones();
        }
        if cnt == 1 {
            check(es.mk_byte(c) == r || got == 0, 7);
        }
    }
    // the empty set is recognised as such: some letter is in the result iff it is not NO_MATCH
    if r == ExprRef::NO_MATCH {
        check(want == 0, 3);
    } else {
        check(es.is_positive(r), 4);
        let mut any = 0u8;
        for x in 0..k {
            any |= has(&mut es, r, x as u8) as u8;
        }
        check(any == 1, 5);
    }
}

/// args: alphabet, word length, operator (0 or, 1 and, 2 concat), number of arguments, pinned...
/// n-ary constructors over arbitrary lists (repeated, nested, unit and zero elements)
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_nary() {
    let (k, n, op, na) = (arg(0), arg(1) as usize, arg(2), arg(3));
    let mut p = Pick::new(4);
    let s1 = mask(k);
    let s2 = mask(k);
    let pool = |i: u32| -> T {
        match i {
            0 => s1.clone(),
            1 => T::star(s1.clone()),
            2 => T::Eps,
            3 => T::Nothing,
            4 => T::star(T::Mask(if k >= 8 { 0xff } else { (1u8 << k) - 1 })),
            5 => T::Cat(vec![s1.clone(), s2.clone()]),
            6 => T::Or(vec![T::star(s1.clone()), s2.clone()]),
            7 => T::And(vec![T::star(s1.clone()), T::not(s2.clone())]),
            8 => T::not(s1.clone()),
            9 => T::opt(s1.clone()),
            10 => T::rep(s1.clone(), 0, 2),
            11 => T::opt(T::Cat(vec![s1.clone(), s2.clone()])),
            12 => T::not(T::Eps),
            13 => T::plus(s1.clone()),
            14 => T::not(T::Nothing),
            _ => T::opt(T::opt(s2.clone())),
        }
    };
    let mut v = vec![];
    for _ in 0..na {
        let i = p.pick(16);
        v.push(pool(i));
    }
    let args = v.clone();
    let t = match op {
        0 => T::Or(v),
        1 => T::And(v),
        _ => T::Cat(v),
    };
    note(&show(&t));
    let w = letters(k, n);
    let want = Spec::new(&w).member(&t);
    let mut es = ExprSet::new(k as usize);
    let e = build(&mut es, &t);
    let e2 = build(&mut es, &t);
    check(e == e2, 3);
    // the order and the repetition of the arguments of a union or intersection do not matter
    if op < 2 {
        let mut v: Vec<ExprRef> = args.iter().map(|x| build(&mut es, x)).collect();
        v.reverse();
        let x = v[0];
        v.push(x);
        let e3 = if op == 0 { es.mk_or(v) } else { es.mk_and(v) };
        check(e3 == e, 4);
    }
    // nor does the grouping of those of an intersection
    if op == 1 {
        let v: Vec<ExprRef> = args.iter().map(|x| build(&mut es, x)).collect();
        let mut x = vec![es.mk_and(v[..2].to_vec())];
        x.extend_from_slice(&v[2..]);
        check(es.mk_and(x) == e, 5);
        if v.len() > 2 {
            let last = es.mk_and(v[1..].to_vec());
            check(es.mk_and(vec![v[0], last]) == e, 6);
        }
    }
    let mut d = DerivCache::new();
    let f = walk(&mut es, &mut d, e, &w);
    let got = es.is_nullable(f);
    check(got as u8 == want, 1);
    cover(got as u32);
}

/// args: alphabet, word length, number of literals, then their lengths; last: tail kind
/// union of literals with symbolic letters (shared-prefix factoring)
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_trie() {
    let (k, n, m) = (arg(0), arg(1) as usize, arg(2));
    let tail = arg(3 + m);
    let mut alts = vec![];
    for i in 0..m {
        let l = arg(3 + i);
        let mut v = vec![];
        for _ in 0..l {
            v.push(T::Letter(any_below(k as u8)));
        }
        if tail == 1 && i == 0 {
            v.push(T::star(T::Mask(1)));
        }
        if tail == 2 && i < 2 {
            v.push(T::Mask(3));
        }
        alts.push(T::Cat(v));
    }
    let t = T::Or(alts);
    let w = letters(k, n);
    let want = Spec::new(&w).member(&t);
    let mut es = ExprSet::new(k as usize);
    let e = build(&mut es, &t);
    let mut d = DerivCache::new();
    let f = walk(&mut es, &mut d, e, &w);
    let got = es.is_nullable(f);
    check(got as u8 == want, 1);
    cover(got as u32);
}
