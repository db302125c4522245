//! Expression-level checks over small alphabets: byte sets, letters, repeat
//! counts and fuel are symbolic.
use crate::gen::*;
use crate::rt::*;
use crate::spec::*;
use derivre::raw::*;
use derivre::*;

pub const OPS: &[Op] = &[Op::Cat, Op::Or, Op::And, Op::Not, Op::RepS, Op::Pref];
pub const OPS_NP: &[Op] = &[Op::Cat, Op::Or, Op::And, Op::Not, Op::RepS];
/// concrete repeats
pub const OPS_CONC: &[Op] = &[Op::Cat, Op::Or, Op::And, Op::Not, Op::Star, Op::Opt, Op::Rep23];
/// no And / Not: prefixes are compositional
pub const OPS_POS: &[Op] = &[Op::Cat, Op::Or, Op::RepS, Op::Pref];

pub fn mask(k: u32) -> T {
    let m = any_u8();
    if k < 8 {
        assume(m < (1u8 << k));
    }
    T::Mask(m)
}
pub fn full(k: u32) -> u8 {
    if k >= 8 {
        0xff
    } else {
        (1u8 << k) - 1
    }
}
pub fn letters(k: u32, n: usize) -> Vec<u8> {
    (0..n).map(|_| any_below(k as u8)).collect()
}
pub fn walk(es: &mut ExprSet, d: &mut DerivCache, e: ExprRef, w: &[u8]) -> ExprRef {
    let mut e = e;
    for b in w {
        e = d.derivative(es, e, *b);
    }
    e
}
/// symbolic counts that keep shortest witnesses short: min <= 2, max <= 2 or none
pub fn small_counts(t: &T) {
    match t {
        T::Rep(x, lo, hi) => {
            assume((*lo <= 2) & ((*hi <= 2) | (*hi == u32::MAX)));
            small_counts(x)
        }
        T::Cat(v) | T::Or(v) | T::And(v) => v.iter().for_each(small_counts),
        T::Not(x) | T::Pref(x) | T::Look(x) => small_counts(x),
        _ => {}
    }
}
/// is there a word of length <= n over k letters in the language?
pub fn exists(t: &T, k: u32, n: usize) -> u8 {
    let ls: Vec<u8> = (0..k as u8).collect();
    exists_after(t, &[], &ls, n)
}
/// is there a word v, |v| <= n over the letters, with u.v in the language?
pub fn exists_after(t: &T, u: &[u8], ls: &[u8], n: usize) -> u8 {
    let mut r = 0;
    lut(true);
    // the prefixes of the longest words are all the words
    for v in words(ls, n) {
        if v.len() == n {
            let mut w = u.to_vec();
            w.extend_from_slice(&v);
            let m = Spec::new(&w).mat(t);
            for j in u.len()..=w.len() {
                r |= m.at(0, j);
            }
        }
    }
    lut(false);
    r
}

fn ops(sel: u32) -> &'static [Op] {
    match sel {
        0 => OPS_NP,
        1 => OPS_POS,
        _ => OPS,
    }
}
/// prefixes of And/Not have no compositional description
fn pref_ok(t: &T) -> bool {
    !t.has(&|x| matches!(x, T::Pref(y) if !y.simple()))
}
fn shape(sel: u32, k: u32, o: u32, base: u32) -> T {
    let mut p = Pick::new(base);
    let t = if sel >= 100 {
        template_mask(sel - 100, &mut || mask(k), k)
    } else {
        Gen { ops: ops(sel), leaf: &mut |_| mask(k) }.exact(&mut p, o)
    };
    if !pref_ok(&t) {
        assume(false);
    }
    note(&show(&t));
    t
}

/// args: opset, alphabet, operators, word length, pinned...
/// the language reached by derivatives is the denoted one, nullable is exact
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_deriv() {
    let (sel, k, o, n) = (arg(0), arg(1), arg(2), arg(3) as usize);
    let t = shape(sel, k, o, 4);
    let w = letters(k, n);
    lut(true);
    let m = Spec::new(&w).mat(&t);
    lut(false);
    let mut es = ExprSet::new(k as usize);
    let e = build(&mut es, &t);
    check(es.is_nullable(e) as u8 == m.at(0, 0), 1);
    let mut d = DerivCache::new();
    let mut f = e;
    for j in 0..n {
        f = d.derivative(&mut es, f, w[j]);
        let got = es.is_nullable(f);
        check(got as u8 == m.at(0, j + 1), 2);
        cover(got as u32);
    }
}

/// nullable exact, positive sound (for the expression and its derivatives)
/// args: opset, alphabet, operators, word length, witness length, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_flags() {
    let (sel, k, o, n, wl) = (arg(0), arg(1), arg(2), arg(3) as usize, arg(4) as usize);
    let t = shape(sel, k, o, 5);
    small_counts(&t);
    let w = letters(k, n);
    let ls: Vec<u8> = (0..k as u8).collect();
    // for every prefix of the word
    let spec: Vec<(u8, u8)> = (0..=n).map(|j| (Spec::new(&w[..j]).member(&t), exists_after(&t, &w[..j], &ls, wl))).collect();
    let mut es = ExprSet::new(k as usize);
    let mut f = build(&mut es, &t);
    let mut d = DerivCache::new();
    for j in 0..=n {
        if j > 0 {
            f = d.derivative(&mut es, f, w[j - 1]);
        }
        let (null, some) = spec[j];
        check(es.is_nullable(f) as u8 == null, 1);
        let pos = es.is_positive(f);
        check(!pos | (some != 0), 2);
        check(!es.is_nullable(f) | pos, 3);
        check((f == ExprRef::NO_MATCH) as u8 & some == 0, 4);
        cover(pos as u32 + 2 * (some as u32));
    }
}

/// emptiness is decided exactly; args as h_flags
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_empty() {
    let (sel, k, o, n, wl) = (arg(0), arg(1), arg(2), arg(3) as usize, arg(4) as usize);
    let t = shape(sel, k, o, 5);
    small_counts(&t);
    let w = letters(k, n);
    let ls: Vec<u8> = (0..k as u8).collect();
    let some: Vec<u8> = (0..=n).map(|j| exists_after(&t, &w[..j], &ls, wl)).collect();
    let mut es = ExprSet::new(k as usize);
    let e = build(&mut es, &t);
    let mut d = DerivCache::new();
    let mut rc = RelevanceCache::new();
    // the caches are shared by all the questions asked along the word
    let mut f = e;
    for j in 0..=n {
        if j > 0 {
            f = d.derivative(&mut es, f, w[j - 1]);
        }
        let got = rc.is_non_empty(&mut es, f);
        check(got as u8 == some[j], 1);
        check(rc.is_non_empty(&mut es, f) == got, 2);
        cover(got as u32);
    }
}

/// fuel: an error or the exact answer, monotone, no lasting effect
/// args: opset, alphabet, operators, witness length, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_fuel() {
    let (sel, k, o, wl) = (arg(0), arg(1), arg(2), arg(3) as usize);
    let t = shape(sel, k, o, 4);
    small_counts(&t);
    let some = exists(&t, k, wl);
    let mut es = ExprSet::new(k as usize);
    let e = build(&mut es, &t);
    let mut es2 = es.clone();
    let (f1, f2) = (any_u64(), any_u64());
    assume(f1 <= f2);
    let mut rc = RelevanceCache::new();
    let r1 = rc.is_non_empty_limited(&mut es, e, f1);
    let mut rc2 = RelevanceCache::new();
    let r2 = rc2.is_non_empty_limited(&mut es2, e, f2);
    match (&r1, &r2) {
        (Ok(a), Ok(b)) => {
            check(a == b, 1);
            check(*a as u8 == some, 2);
            cover(1);
        }
        (Ok(_), Err(_)) => check(false, 3),
        (Err(_), Ok(b)) => {
            check(*b as u8 == some, 4);
            cover(2);
        }
        (Err(_), Err(_)) => cover(3),
    }
    // asking again after running out of fuel
    let r3 = rc.is_non_empty(&mut es, e);
    check(r3 as u8 == some, 5);
}

/// next_byte: sound for every expression reached, over a small alphabet
/// args: opset, alphabet, operators, word length, witness length, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_next_raw() {
    let (sel, k, o, n, wl) = (arg(0), arg(1), arg(2), arg(3) as usize, arg(4) as usize);
    let t = shape(sel, k, o, 5);
    small_counts(&t);
    let w = letters(k, n);
    let c = any_below(k as u8);
    let ls: Vec<u8> = (0..k as u8).collect();
    // for every prefix of the word
    let spec: Vec<(u8, u8)> = (0..=n)
        .map(|j| {
            let mut wc = w[..j].to_vec();
            wc.push(c);
            (Spec::new(&w[..j]).member(&t), exists_after(&t, &wc, &ls, wl))
        })
        .collect();
    let mut es = ExprSet::new(k as usize);
    let mut f = build(&mut es, &t);
    let mut d = DerivCache::new();
    let mut nb = NextByteCache::new();
    for j in 0..=n {
        if j > 0 {
            f = d.derivative(&mut es, f, w[j - 1]);
        }
        let (null, after) = spec[j];
        let r = nb.next_byte(&es, f);
        match r {
            NextByte::ForcedByte(b) => {
                check(null == 0, 1);
                check((c == b) | (after == 0), 2);
                cover(1);
            }
            NextByte::ForcedEOI => {
                check(after == 0, 3);
                cover(2);
            }
            NextByte::Dead => {
                check((after == 0) & (null == 0), 4);
                cover(3);
            }
            NextByte::SomeBytes => cover(4),
        }
        check(nb.next_byte(&es, f) == r, 5);
    }
}

/// prefixes: u.v in L  =>  u in prefixes(L), for any L; exact without And/Not and but for the known finding
/// args: opset, alphabet, operators, |u|, |v|, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_pref() {
    let (sel, k, o, n, wl) = (arg(0), arg(1), arg(2), arg(3) as usize, arg(4) as usize);
    let t = shape(sel, k, o, 5);
    small_counts(&t);
    let w = letters(k, n);
    let ls: Vec<u8> = (0..k as u8).collect();
    let want: Vec<u8> = (0..=n).map(|j| exists_after(&t, &w[..j], &ls, wl)).collect();
    let mut es = ExprSet::new(k as usize);
    let e = build(&mut es, &t);
    let mut f = es.mk_prefixes(e);
    let mut inner = e;
    let mut d = DerivCache::new();
    for j in 0..=n {
        if j > 0 {
            f = d.derivative(&mut es, f, w[j - 1]);
            inner = d.derivative(&mut es, inner, w[j - 1]);
        }
        let got = es.is_nullable(f) as u8;
        if t.simple() {
            check(got == want[j], 1);
        } else {
            // what is reported as a prefix is one; what is wrongly rejected is so because of
            // the known finding: the rest is not known to be non-empty without a search
            check(got <= want[j], 2);
            check((got == want[j]) | !es.is_positive(inner), 3);
        }
        cover(got as u32);
    }
}

/// the known findings about prefixes, as they show to users
/// args: which
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_pref_finding() {
    let set = |s: &[u8]| -> RegexAst { RegexAst::Or(s.iter().map(|b| RegexAst::Byte(*b)).collect()) };
    let (ast, w): (RegexAst, &[u8]) = match arg(0) {
        // "" is a prefix of "b", which a? does not match
        0 => (RegexAst::Not(Box::new(RegexAst::Repeat(Box::new(set(b"a")), 0, 1))), b""),
        // "a" is a prefix of "ab", which both a[ab] and [ac]b match
        _ => (RegexAst::And(vec![RegexAst::Concat(vec![set(b"a"), set(b"ab")]), RegexAst::Concat(vec![set(b"ac"), set(b"b")])]), b""),
    };
    let mut b = RegexBuilder::new();
    let e = b.mk(&RegexAst::Prefixes(Box::new(ast))).unwrap();
    let mut r = b.to_regex(e);
    check(r.is_match_bytes(w), 1);
}

/// look-ahead over symbolic sets; args: kind, alphabet, A (operators or shape), B, word length, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_lookraw() {
    let (kind, k, oa, ob, n) = (arg(0), arg(1), arg(2), arg(3), arg(4) as usize);
    let mut p = Pick::new(5);
    let mut one = |o: u32, p: &mut Pick| {
        if o >= 100 {
            template_mask(o - 100, &mut || mask(k), k)
        } else {
            Gen { ops: OPS_CONC, leaf: &mut |_| mask(k) }.exact(p, o)
        }
    };
    let a = one(oa, &mut p);
    let b = one(ob, &mut p);
    let look = T::lookahead(b);
    let (t, head) = match kind {
        0 => (T::Cat(vec![a.clone(), look.clone()]), a),
        _ => {
            let c = mask(k);
            (T::Or(vec![T::Cat(vec![a.clone(), look.clone()]), T::Cat(vec![c.clone(), look.clone()])]), T::Or(vec![a, c]))
        }
    };
    note(&show(&t));
    let w = letters(k, n);
    lut(true);
    let sp = Spec::new(&w);
    let (ma, mb) = (sp.mat(&head), sp.mat(&look));
    let want: Vec<u8> = (0..=n)
        .map(|j| {
            let mut x = 255u8;
            for i in 0..=j {
                let ok = ma.at(0, i) & mb.at(i, j);
                x = if ok != 0 { (j - i) as u8 } else { x };
            }
            x
        })
        .collect();
    lut(false);
    let mut es = ExprSet::new(k as usize);
    let mut f = build(&mut es, &t);
    let mut d = DerivCache::new();
    // the possible lengths after every prefix
    let mut poss = vec![];
    for j in 0..=n {
        if j > 0 {
            f = d.derivative(&mut es, f, w[j - 1]);
        }
        poss.push(es.possible_lookahead_len(f));
        // no more than was read
        check(poss[j] <= j, 4);
        let acc = es.is_nullable(f);
        check(acc as u8 == (want[j] != 255) as u8, 1);
        if acc {
            // (the way compiled regexes read it)
            let l = es.lookahead_len(f).unwrap_or(0);
            check(l as u8 == want[j], 2);
            // what is reported now was possible after every shorter prefix, too
            let mut ok = 1u8;
            for i in 0..=j {
                ok &= (l <= poss[i] + (j - i)) as u8;
            }
            check(ok == 1, 3);
            cover(1 + l as u32);
        } else {
            cover(0);
        }
    }
}

/// what expressions and caches account for; args: opset, alphabet, operators, word length, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_costs() {
    let (sel, k, o, n) = (arg(0), arg(1), arg(2), arg(3) as usize);
    let t = shape(sel, k, o, 4);
    small_counts(&t);
    let mut es = ExprSet::new(k as usize);
    let mut d = DerivCache::new();
    let mut rc = RelevanceCache::new();
    let mut nb = NextByteCache::new();
    let mut last = (0, 0, 0);
    let mut ahead = |es: &ExprSet, d: &DerivCache, rc: &RelevanceCache, nb: &NextByteCache, code: u32| {
        let now = (es.cost(), es.len(), es.num_bytes() + d.num_bytes() + rc.num_bytes() + nb.num_bytes());
        check((now.0 >= last.0) & (now.1 >= last.1) & (now.2 >= last.2), code);
        last = now;
    };
    ahead(&es, &d, &rc, &nb, 1);
    let e = build(&mut es, &t);
    ahead(&es, &d, &rc, &nb, 2);
    check(es.is_valid(e) && e.as_usize() < es.len(), 3);
    // building it again makes nothing
    let l = es.len();
    check(build(&mut es, &t) == e && es.len() == l, 4);
    let w = letters(k, n);
    let mut f = e;
    for c in &w {
        f = d.derivative(&mut es, f, *c);
        ahead(&es, &d, &rc, &nb, 5);
        nb.next_byte(&es, f);
        ahead(&es, &d, &rc, &nb, 6);
        let r = rc.is_non_empty(&mut es, f);
        ahead(&es, &d, &rc, &nb, 7);
        cover(r as u32);
    }
    // what is known already costs nothing
    let (c, l, m) = (es.cost(), es.len(), es.num_bytes() + d.num_bytes() + rc.num_bytes() + nb.num_bytes());
    check(walk(&mut es, &mut d, e, &w) == f, 8);
    nb.next_byte(&es, f);
    check((c == es.cost()) & (l == es.len()) & (m == es.num_bytes() + d.num_bytes() + rc.num_bytes() + nb.num_bytes()), 9);
    // a copy has the same
    let es2 = es.clone();
    check((c == es2.cost()) & (l == es2.len()), 10);
}
