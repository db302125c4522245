//! Hash-consing, alphabets, the builder's input checks, next-byte algebra, size extremes.
use crate::gen::*;
use crate::h_match::*;
use crate::h_raw::*;
use crate::rt::*;
use crate::spec::*;
use derivre::raw::*;
use derivre::*;

/// hash-consing of vectors with symbolic content
/// args: insertions, maximal length, hash mode, bits of content, prefill
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_cons() {
    let (m, ml, mode, bits, pre) = (arg(0), arg(1), arg(2), arg(3), arg(4));
    arg(0xffff_fff0 + mode);
    let mut p = Pick::new(5);
    let mut h = VecHashCons::new();
    let mut have: Vec<Vec<u32>> = vec![];
    for i in 0..pre {
        // enough to make the tables grow
        let v = vec![0x1000_0000 + i; 2 + (i % 3) as usize];
        let id = h.insert(&v);
        check(id as usize == have.len(), 1);
        have.push(v);
    }
    for i in 0..m {
        let l = p.pick(ml + 1);
        let mut v = vec![];
        for _ in 0..l {
            let x = if bits >= 32 { any_u32() } else { any_below(1 << bits) as u32 };
            v.push(x);
        }
        let before = h.len();
        check(before == have.len(), 2);
        // whole, element by element, or in two slices
        let id = match p.pick(3) {
            0 => h.insert(&v),
            1 => {
                h.start_insert();
                for x in &v {
                    h.push_u32(*x);
                }
                h.finish_insert()
            }
            _ => {
                h.start_insert();
                h.push_slice(&v[..v.len() / 2]);
                h.push_slice(&v[v.len() / 2..]);
                h.finish_insert()
            }
        } as usize;
        if id == have.len() {
            check(h.len() == before + 1, 3);
            // really new
            for o in &have {
                if o.len() == v.len() {
                    let mut same = 1u8;
                    for j in 0..v.len() {
                        same &= b01(o[j] == v[j]);
                    }
                    check(same == 0, 4);
                }
            }
            have.push(v);
            cover(1);
        } else {
            check(id < have.len(), 5);
            check(h.len() == before, 6);
            let o = &have[id];
            check(o.len() == v.len(), 7);
            let mut same = 1u8;
            for j in 0..v.len().min(o.len()) {
                same &= b01(o[j] == v[j]);
            }
            check(same == 1, 8);
            cover(2);
        }
        let _ = i;
    }
    for (i, v) in have.iter().enumerate() {
        check(h.is_valid(i as u32), 9);
        let g = h.get(i as u32);
        check(g.len() == v.len(), 10);
        let mut same = 1u8;
        for j in 0..v.len().min(g.len()) {
            same &= b01(g[j] == v[j]);
        }
        check(same == 1, 11);
    }
    check(!h.is_valid(have.len() as u32), 12);
    // a clone continues on its own
    let mut c = h.clone();
    let x = c.insert(&[7, 7, 7, 7, 7, 7, 7]);
    check(x as usize == have.len(), 13);
    check(h.len() == have.len(), 14);
}

/// long vectors that differ in a few symbolic words, if at all
/// args: length of the first, length of the second, hash mode, positions of three words
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_conslong() {
    let (la, lb, mode) = (arg(0) as usize, arg(1) as usize, arg(2));
    arg(0xffff_fff0 + mode);
    let pos: Vec<usize> = (0..3).map(|i| arg(3 + i) as usize).collect();
    let mk = |l: usize| -> Vec<u32> {
        let mut v: Vec<u32> = (0..l as u32).map(|i| i * 3 + 1).collect();
        for p in &pos {
            if *p < l {
                v[*p] = any_u32();
            }
        }
        v
    };
    let (a, b) = (mk(la), mk(lb));
    let mut same = b01(la == lb);
    for i in 0..la.min(lb) {
        same &= b01(a[i] == b[i]);
    }
    let mut h = VecHashCons::new();
    h.insert(&[5]);
    let x = h.insert(&a);
    h.start_insert();
    h.push_slice(&b[..lb / 3]);
    for w in &b[lb / 3..] {
        h.push_u32(*w);
    }
    let y = h.finish_insert();
    check((x == y) as u8 == same, 1);
    check(h.len() == if x == y { 2 } else { 3 }, 2);
    for (i, v) in [(x, &a), (y, &b)] {
        let g = h.get(i);
        check(g.len() == v.len(), 3);
        let mut eq = 1u8;
        for j in 0..v.len().min(g.len()) {
            eq &= b01(g[j] == v[j]);
        }
        check(eq == 1, 4);
    }
    check(h.insert(&a) == x && h.insert(&b) == y && h.insert(&[5]) == 0, 5);
    cover((x == y) as u32);
}

/// compression: a regex over byte sets with symbolic members at given positions
/// args: number of sets, structure, word length, positions...(3)
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_alpha() {
    let (m, st, n) = (arg(0) as usize, arg(1), arg(2) as usize);
    let pos: Vec<usize> = (0..3).map(|i| arg(3 + i) as usize).collect();
    // set i: an arbitrary background, symbolic at the three positions
    let mut sets: Vec<Vec<u32>> = vec![];
    let mut tabs: Vec<[u8; 256]> = vec![];
    for i in 0..m {
        let mut bs = match i % 4 {
            0 => vec![0u32; 8],
            1 => vec![!0u32; 8],
            2 => vec![0xffff_0000, 0, 0xff, !0, 0, 1, 0, 0],
            _ => vec![0, 0x0fff_fff0, 0, 0, !0, 0, 0, 0x8000_0000],
        };
        let k = any_below(8);
        let mut tab = [0u8; 256];
        for x in 0..256 {
            tab[x] = ((bs[x / 32] >> (x % 32)) & 1) as u8;
        }
        for (j, p) in pos.iter().enumerate() {
            let v = (k >> j) & 1;
            bs[p / 32] &= !(1 << (p % 32));
            bs[p / 32] |= (v as u32) << (p % 32);
            tab[*p] = v;
        }
        sets.push(bs);
        tabs.push(tab);
    }
    let w = word(n);
    // which sets does each letter belong to
    lut(true);
    let inset: Vec<Vec<u8>> = tabs
        .iter()
        .map(|t| w.iter().map(|b| look(t, *b)).collect())
        .collect();
    // the structure: 0: the sets in sequence, 1: union of set_i followed by its complement, 2: exported alphabet
    let mut want = 0u8;
    match st {
        0 => {
            want = b01(n == m);
            for i in 0..m.min(n) {
                want &= inset[i][i];
            }
        }
        _ => {
            if n == 2 {
                for i in 0..m {
                    want |= inset[i][0] & (inset[(i + 1) % m][1] ^ 1);
                }
            }
        }
    }
    lut(false);
    let mut b = RegexBuilder::new();
    let es: Vec<RegexAst> = sets.iter().map(|s| RegexAst::ByteSet(s.clone())).collect();
    let ast = match st {
        0 => RegexAst::Concat(es),
        _ => RegexAst::Or(
            (0..m)
                .map(|i| {
                    let neg = RegexAst::And(vec![
                        RegexAst::ByteSet(vec![!0; 8]),
                        RegexAst::Not(Box::new(es[(i + 1) % m].clone())),
                    ]);
                    RegexAst::Concat(vec![es[i].clone(), neg])
                })
                .collect(),
        ),
    };
    let e = b.mk(&ast).unwrap();
    let mut r = b.to_regex(e);
    let got = r.is_match_bytes(&w);
    check(got as u8 == want, 1);
    cover(got as u32);
    let a = r.alpha();
    // classes separate what the sets separate
    if n >= 2 && st == 0 {
        let (x, y) = (a.map(w[0]), a.map(w[1]));
        check(x < a.len() && y < a.len(), 2);
        if x == y && e != ExprRef::NO_MATCH {
            let mut diff = 0u8;
            for i in 0..m {
                diff |= inset[i][0] ^ inset[i][1];
            }
            check(diff == 0, 3);
        }
        // inverse images
        if let Some(z) = a.inv_map(x) {
            check(z == w[0], 4);
            check(a.map(z) == x, 5);
            check((x != y) | (w[0] == w[1]), 6);
            cover(3);
        }
    }
}

/// many distinct byte sets; args: number of sets, 0: union / 1: sequence, word length / where the word is symbolic
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_manysets() {
    let (m, kind, n) = (arg(0), arg(1), arg(2) as usize);
    if kind == 1 {
        return seqsets(m, n);
    }
    let w = word(n);
    // set i = { i, i+1, .. i+span } (mod 256), all in a row:  ( S_0 x | S_1 y | ... ) style union
    let mut alts = vec![];
    for i in 0..m {
        let lo = (i * 3 + 1) % 250;
        let hi = (lo + 1 + i % 5).min(255);
        alts.push(T::Cat(vec![T::set(&[(i % 256) as u8]), T::range(lo as u8, hi as u8)]));
    }
    let t = T::Or(alts);
    let want = Spec::new(&w).member(&t);
    let mut b = RegexBuilder::new();
    let e = b.mk(&to_ast(&t)).unwrap();
    let mut r = b.to_regex(e);
    let got = r.is_match_bytes(&w);
    check(got as u8 == want, 1);
    cover(got as u32);
}
/// exactly m byte sets in a row: the i-th has the bytes 2i, 2i+1 (mod 256), or is every 7th byte from i for i >= 128
fn seqsets(m: u32, at: usize) {
    let tabs: Vec<[u8; 256]> = (0..m as usize)
        .map(|i| {
            let mut t = [0u8; 256];
            if i < 128 {
                t[2 * i] = 1;
                t[2 * i + 1] = 1;
            } else {
                for j in 0..20 {
                    t[(i * 5 + j * 7) % 256] = 1;
                }
            }
            t
        })
        .collect();
    let mut w: Vec<u8> = tabs.iter().map(|t| t.iter().position(|x| *x == 1).unwrap() as u8).collect();
    let mut want = 1u8;
    lut(true);
    for k in [at, at + 1] {
        if k < w.len() {
            w[k] = any_u8();
            want &= look(&tabs[k], w[k]);
        }
    }
    lut(false);
    let mut b = RegexBuilder::new();
    let e = b.mk(&RegexAst::Concat(tabs.iter().map(|t| RegexAst::ByteSet(pack(t))).collect())).unwrap();
    let mut r = b.to_regex(e);
    let got = r.is_match_bytes(&w);
    check(got as u8 == want, 1);
    cover(got as u32);
}

/// several regexes over one compressed alphabet; args: pool, ops each, word length, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_multi() {
    let (pool, o, n) = (arg(0), arg(1), arg(2) as usize);
    let mut p = Pick::new(3);
    const OPS: &[Op] = &[Op::Cat, Op::Or, Op::And, Op::Not, Op::Star];
    let t1 = Gen { ops: OPS, leaf: &mut |p| leaf(pool, p) }.exact(&mut p, o);
    let t2 = Gen { ops: OPS, leaf: &mut |p| leaf(pool, p) }.exact(&mut p, o);
    note(&show(&t1));
    note(&show(&t2));
    let t3 = T::Cat(vec![t2.clone(), T::range(b'x', b'z')]);
    let ts = [t1, t2, t3];
    let w = word(n);
    let sp = Spec::new(&w);
    let want: Vec<u8> = ts.iter().map(|t| sp.member(t)).collect();
    let mut b = RegexBuilder::new();
    let es: Vec<ExprRef> = ts.iter().map(|t| b.mk(&to_ast(t)).unwrap()).collect();
    let (alpha, mut set, out) = AlphabetInfo::from_exprset(b.exprset(), &es);
    check(out.len() == 3, 1);
    check(set.alphabet_size() == alpha.len(), 2);
    let mut d = DerivCache::new();
    let m: Vec<u8> = w.iter().map(|c| alpha.map(*c) as u8).collect();
    for i in 0..3 {
        let f = walk(&mut set, &mut d, out[i], &m);
        check(set.is_nullable(f) as u8 == want[i], 3);
        cover(set.is_nullable(f) as u32);
    }
    for c in &m {
        check((*c as usize) < alpha.len(), 4);
        if let Some(x) = alpha.inv_map(*c as usize) {
            check(alpha.map(x) == *c as usize, 5);
        }
    }
    // the source set is not affected
    let mut r = b.to_regex(es[0]);
    check(r.is_match_bytes(&w) as u8 == want[0], 6);
}

/// what the builder accepts
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_builder() {
    let mut b = RegexBuilder::new();
    let e = b.mk(&RegexAst::Concat(vec![RegexAst::Literal("ab".into()), RegexAst::Regex("[c-e]*".into())])).unwrap();
    let len = b.exprset().len() as u32;
    match choose(4) {
        // references
        0 => {
            let id = any_u32();
            assume(id != 0);
            let x = ExprRef::new(id);
            let wrap = choose(3);
            let r = RegexAst::ExprRef(x);
            let ast = match wrap {
                0 => r,
                1 => RegexAst::Not(Box::new(r)),
                _ => RegexAst::Concat(vec![r, RegexAst::Byte(b'x'), RegexAst::Byte(b'y')]),
            };
            // the first dozen and beyond
            assume((id < 4) | (id >= len.wrapping_sub(2)));
            let valid = id < len;
            let r = b.mk(&ast);
            check(r.is_ok() == valid, 1);
            if wrap == 0 {
                if let Ok(y) = r {
                    check(x == y, 2);
                }
            }
            cover(valid as u32);
        }
        // the invalid reference
        1 => {
            let r = b.mk(&RegexAst::Or(vec![RegexAst::ExprRef(ExprRef::INVALID), RegexAst::Byte(1)]));
            check(r.is_err(), 3);
            let r = b.mk(&RegexAst::Prefixes(Box::new(RegexAst::ExprRef(ExprRef::INVALID))));
            check(r.is_err(), 3);
            cover(2);
        }
        // byte sets
        2 => {
            let l = choose(20) as usize;
            let r = b.mk(&RegexAst::Concat(vec![RegexAst::ByteSet(vec![any_u32() | 3; l]), RegexAst::Byte(1)]));
            check(r.is_ok() == (l == 8), 4);
            cover(3);
        }
        // after an error, the builder is still usable
        _ => {
            check(b.mk(&RegexAst::Concat(vec![RegexAst::Byte(7), RegexAst::Regex("(".into()), RegexAst::Byte(9)])).is_err(), 5);
            check(b.mk(&RegexAst::Regex("\\bx".into())).is_err(), 6);
            check(b.mk_regex("a(?=b)").is_err(), 7);
            let w = word(3);
            let want = Spec::new(&w).member(&T::Cat(vec![T::lit(b"ab"), T::star(T::range(b'c', b'e'))]));
            let mut r = b.to_regex(e);
            check(r.is_match_bytes(&w) as u8 == want, 8);
            cover(4);
        }
    }
}

/// "only strings starting with these bytes": never claimed wrongly
/// args: opset, pool, operators, bytes, word length, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_forced() {
    let (pool, o, m, n) = (arg(0), arg(1), arg(2) as usize, arg(3) as usize);
    let mut p = Pick::new(4);
    let t = Gen { ops: &[Op::Cat, Op::Or, Op::And, Op::Not, Op::Star, Op::Cat3], leaf: &mut |p| leaf(pool, p) }.exact(&mut p, o);
    note(&show(&t));
    let bytes = word(m);
    let w = word(n);
    let want = Spec::new(&w).member(&t);
    let mut starts = b01(n >= m);
    for i in 0..m.min(n) {
        starts &= b01(w[i] == bytes[i]);
    }
    let mut b = RegexBuilder::new();
    let e = b.mk(&to_ast(&t)).unwrap();
    if b.exprset().has_simply_forced_bytes(e, &bytes) {
        check((want ^ 1) | starts == 1, 1);
        cover(1);
    } else {
        check(m > 0, 2);
        cover(2);
    }
}

/// & and | on next bytes over-approximate intersection and union of what may come next
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_nblattice() {
    let mk = |k: u32| match k {
        0 => NextByte::ForcedByte(any_u8()),
        1 => NextByte::ForcedEOI,
        2 => NextByte::SomeBytes,
        _ => NextByte::Dead,
    };
    let x = mk(choose(4));
    let y = mk(choose(4));
    let c = any_u8();
    let eoi = any_bool();
    let may = |z: NextByte| -> u8 {
        match z {
            NextByte::ForcedByte(b) => b01(b == c) & b01(!eoi),
            NextByte::ForcedEOI => b01(eoi),
            NextByte::SomeBytes => 1,
            NextByte::Dead => 0,
        }
    };
    let (a, b) = (may(x), may(y));
    check((may(x | y)) == 1 || (a | b) == 0, 1);
    check((may(x & y)) == 1 || (a & b) == 0, 2);
    check((x | y) == (y | x), 3);
    check((x & y) == (y & x), 4);
    check((x | x) == x, 5);
    check((x & x) == x, 6);
    // precise when it can be
    check((x | NextByte::Dead) == x, 7);
    check((x & NextByte::SomeBytes) == x, 8);
    if let (NextByte::ForcedByte(p), NextByte::ForcedByte(q)) = (x, y) {
        if p != q {
            check((x & y) == NextByte::Dead, 9);
        }
    }
    cover(1);
}

/// large structures; args: kind, size, word length, position of the symbolic bytes
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_big() {
    let (kind, size, n, at) = (arg(0), arg(1), arg(2) as usize, arg(3) as usize);
    // a long word with three symbolic bytes
    let mut w = vec![b'a'; n];
    let k = 3.min(n.saturating_sub(at));
    for i in 0..k {
        w[at + i] = any_u8();
    }
    let cnt = |w: &[u8], lo: usize, hi: usize| -> u8 {
        let mut r = 1;
        for i in lo..hi {
            r &= b01(w[i] == b'a');
        }
        r
    };
    let mut bld = RegexBuilder::new();
    let lit = |n: u32, tail: &[u8]| -> Vec<u8> {
        let mut v = vec![b'a'; n as usize];
        v.extend_from_slice(tail);
        v
    };
    let (ast, want): (RegexAst, u8) = match kind {
        // literals sharing prefixes, deeper than the factoring goes: a^i b for i in 1..=size, every one its own branch
        0 => {
            let v: Vec<RegexAst> = (1..=size).map(|i| RegexAst::ByteLiteral(lit(i, b"b"))).collect();
            let mut ok = 0;
            if n >= 2 && n <= size as usize + 1 {
                ok = cnt(&w, 0, n - 1) & b01(w[n - 1] == b'b');
            }
            (RegexAst::Or(v), ok)
        }
        // the same with two endings each
        1 => {
            let mut v = vec![];
            for i in 1..=size {
                v.push(RegexAst::ByteLiteral(lit(i, b"b")));
                v.push(RegexAst::ByteLiteral(lit(i, b"cd")));
            }
            let mut ok = 0;
            if n >= 2 && n <= size as usize + 1 {
                ok |= cnt(&w, 0, n - 1) & b01(w[n - 1] == b'b');
            }
            if n >= 3 && n <= size as usize + 2 {
                ok |= cnt(&w, 0, n - 2) & b01(w[n - 2] == b'c') & b01(w[n - 1] == b'd');
            }
            (RegexAst::Or(v), ok)
        }
        // a large bounded repeat
        2 => {
            let a = RegexAst::Repeat(Box::new(RegexAst::Byte(b'a')), size, size + 2);
            (a, cnt(&w, 0, n) & b01(n >= size as usize && n <= size as usize + 2))
        }
        // deep nesting: opt(a . opt(a . ...))
        3 => {
            let mut a = RegexAst::EmptyString;
            for _ in 0..size {
                a = RegexAst::Repeat(Box::new(RegexAst::Concat(vec![RegexAst::Byte(b'a'), a])), 0, 1);
            }
            (a, cnt(&w, 0, n) & b01(n <= size as usize))
        }
        // not of not of ... over a literal
        4 => {
            let mut a = RegexAst::ByteLiteral(lit(size, b""));
            for i in 0..size {
                a = RegexAst::Not(Box::new(RegexAst::Concat(vec![a, RegexAst::EmptyString])));
                if i % 7 == 3 && i < 30 {
                    a = RegexAst::And(vec![a.clone(), a]);
                }
            }
            let inl = cnt(&w, 0, n) & b01(n == size as usize);
            (a, if size % 2 == 0 { inl } else { inl ^ 1 })
        }
        // every a^i for i in 1..=size that is not a multiple of 7
        6 => {
            let v: Vec<RegexAst> = (1..=size).filter(|i| i % 7 != 0).map(|i| RegexAst::ByteLiteral(lit(i, b""))).collect();
            (RegexAst::Or(v), cnt(&w, 0, n) & b01(n >= 1 && n <= size as usize && n % 7 != 0))
        }
        // pairs of literals differing late, with a repeated tail
        7 => {
            let mut v = vec![];
            for x in [b"bx", b"by", b"cx"] {
                v.push(RegexAst::Concat(vec![RegexAst::ByteLiteral(lit(size, &x[..])), RegexAst::Repeat(Box::new(RegexAst::Byte(b'a')), 0, u32::MAX)]));
            }
            let s = size as usize;
            let mut ok = 0;
            if n >= s + 2 {
                let (p, q) = (w[s], w[s + 1]);
                let pair = (b01(p == b'b') & (b01(q == b'x') | b01(q == b'y'))) | (b01(p == b'c') & b01(q == b'x'));
                ok = cnt(&w, 0, s) & pair & cnt(&w, s + 2, n);
            }
            (RegexAst::Or(v), ok)
        }
        // a wide union of classes followed by a
        _ => {
            let v: Vec<RegexAst> = (0..size)
                .map(|i| RegexAst::Concat(vec![RegexAst::Repeat(Box::new(RegexAst::Byte(b'a')), i, i), RegexAst::ByteSet(vec![0, 0, 4 << (i % 20), 0, 0, 0, 0, 1 << (i % 31)])]))
                .collect();
            let mut ok = 0;
            if n >= 1 && n <= size as usize {
                let i = (n - 1) as u32;
                let l = w[n - 1];
                ok = cnt(&w, 0, n - 1) & (b01(l == 66 + (i % 20) as u8) | b01(l == 224 + (i % 31) as u8));
            }
            (RegexAst::Or(v), ok)
        }
    };
    let e = bld.mk(&ast).unwrap();
    let mut r = bld.to_regex(e);
    let got = r.is_match_bytes(&w);
    check(got as u8 == want, 1);
    cover(got as u32);
}

/// a derivative closure is finite (and so is every search through it)
/// args: opset, alphabet, operators, cap, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_finite() {
    let (sel, k, o, cap) = (arg(0), arg(1), arg(2), arg(3) as usize);
    let mut p = Pick::new(4);
    let ops = match sel {
        0 => crate::h_raw::OPS_NP,
        1 => crate::h_raw::OPS_POS,
        _ => &[Op::Cat, Op::Or, Op::And, Op::Not, Op::Star, Op::Pref],
    };
    let t = if sel >= 100 {
        template_mask(sel - 100, &mut || mask(k), k)
    } else {
        Gen { ops, leaf: &mut |_| mask(k) }.exact(&mut p, o)
    };
    small_counts(&t);
    note(&show(&t));
    let mut es = ExprSet::new(k as usize);
    let e = build(&mut es, &t);
    let mut d = DerivCache::new();
    let mut seen = vec![e];
    let mut i = 0;
    while i < seen.len() && seen.len() <= cap {
        let x = seen[i];
        for c in 0..k {
            let y = d.derivative(&mut es, x, c as u8);
            if !seen.contains(&y) {
                seen.push(y);
            }
        }
        i += 1;
    }
    check(seen.len() <= cap, 1);
    cover(if seen.len() < 4 { 1 } else { 2 });
}

struct Node {
    label: u8,
    kids: Vec<Node>,
}
fn node(p: &mut Pick, size: u32) -> Node {
    let label = any_u8();
    let mut kids = vec![];
    let mut left = size - 1;
    while left > 0 {
        let k = 1 + p.pick(left);
        kids.push(node(p, k));
        left -= k;
    }
    Node { label, kids }
}
fn post(n: &Node, out: &mut Vec<u8>) {
    out.push(b'(');
    for k in &n.kids {
        post(k, out);
    }
    out.push(n.label);
}
/// the bottom-up traversal utility: order of arguments, errors; args: size, pinned...
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_mapast() {
    let size = arg(0);
    let mut p = Pick::new(1);
    let t = node(&mut p, size);
    let bad = any_u8();
    let r = map_ast(
        &t,
        |n: &Node| &n.kids[..],
        |n: &Node, args: Vec<Vec<u8>>| {
            if n.label == bad {
                return Err(std::io::Error::from_raw_os_error(5).into());
            }
            check(args.len() == n.kids.len(), 1);
            let mut v = vec![b'('];
            for a in args {
                v.extend_from_slice(&a);
            }
            v.push(n.label);
            Ok(v)
        },
    );
    let mut want = vec![];
    post(&t, &mut want);
    // labels are at every position that is not an opening mark of the structure
    fn has(n: &Node, b: u8) -> u8 {
        n.kids.iter().fold(b01(n.label == b), |a, k| a | has(k, b))
    }
    let err = has(&t, bad);
    match r {
        Ok(v) => {
            check(err == 0, 2);
            check(v.len() == want.len(), 3);
            let mut same = 1u8;
            for i in 0..v.len().min(want.len()) {
                same &= b01(v[i] == want[i]);
            }
            check(same == 1, 4);
            cover(1);
        }
        Err(_) => {
            check(err == 1, 5);
            cover(2);
        }
    }
}

/// nestings hundreds of levels deep, built level by level; the stack is bounded (150 frames, for unions of literals 400, in the
/// executor, 96 KB natively), so no step may recurse with the depth of the expression
/// args: kind, depth, word length
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_deep() {
    let (kind, size, n) = (arg(0), arg(1), arg(2) as usize);
    arg(if kind == 4 { 0xffff_ffe1 } else { 0xffff_ffe0 });
    let w = word(n);
    let mut b = RegexBuilder::new();
    let byte = |b: &mut RegexBuilder, c: u8| b.mk(&RegexAst::Byte(c)).unwrap();
    let (ea, eb) = (byte(&mut b, b'a'), byte(&mut b, b'b'));
    let r = RegexAst::ExprRef;
    let mut e = ea;
    let mut want = 0u8;
    match kind {
        // not((not((.. b)) b)): odd numbers of b at the end are out
        0 => {
            for _ in 0..size {
                e = b.mk(&RegexAst::Not(Box::new(RegexAst::Concat(vec![r(e), r(eb)])))).unwrap();
            }
            assume(n < size as usize);
            let mut run = 1u8;
            let mut odd = 0u8;
            for i in (0..n).rev() {
                run &= b01(w[i] == b'b');
                odd ^= run;
            }
            want = odd ^ 1;
        }
        // (a (a (..)?)?)?: up to `size` letters
        1 => {
            e = ExprRef::EMPTY_STRING;
            for _ in 0..size {
                e = b.mk(&RegexAst::Repeat(Box::new(RegexAst::Concat(vec![r(ea), r(e)])), 0, 1)).unwrap();
            }
            want = 1;
            for i in 0..n {
                want &= b01(w[i] == b'a');
            }
        }
        // ((((a | b) & (a..)) | b) & ..)
        2 => {
            let ab = b.mk(&RegexAst::Repeat(Box::new(r(ea)), 0, u32::MAX)).unwrap();
            for i in 0..size {
                e = if i % 2 == 0 {
                    let c = b.mk(&RegexAst::Concat(vec![r(ea), r(e)])).unwrap();
                    b.mk(&RegexAst::Or(vec![r(c), r(eb)])).unwrap()
                } else {
                    let c = b.mk(&RegexAst::Concat(vec![r(ab), r(eb)])).unwrap();
                    b.mk(&RegexAst::And(vec![r(e), r(c)])).unwrap()
                };
            }
            // a^i b for i up to half the depth
            want = b01(n > 0);
            for i in 0..n {
                want &= b01(w[i] == if i + 1 == n { b'b' } else { b'a' });
            }
        }
        // literals branching off one another at every letter: a^i b for i in 1..=size
        4 => {
            let mut v = vec![];
            let mut lit = vec![];
            for _ in 0..size {
                lit.push(b'a');
                lit.push(b'b');
                v.push(RegexAst::ByteLiteral(lit.clone()));
                lit.pop();
            }
            e = b.mk(&RegexAst::Or(v)).unwrap();
            want = b01(n > 1);
            for i in 0..n {
                want &= b01(w[i] == if i + 1 == n { b'b' } else { b'a' });
            }
        }
        _ => {
            // ((((b* a)* a)* a)*: words of a and b with enough a at the end..; the innermost b* takes every b
            e = b.mk(&RegexAst::Repeat(Box::new(r(eb)), 0, u32::MAX)).unwrap();
            for _ in 0..size {
                let c = b.mk(&RegexAst::Concat(vec![r(e), r(ea)])).unwrap();
                e = b.mk(&RegexAst::Repeat(Box::new(r(c)), 0, u32::MAX)).unwrap();
            }
            assume(n < size as usize);
            // blocks of b's have to be followed by `size` letters a
            want = 1;
            for i in 0..n {
                want &= b01(w[i] == b'a');
            }
        }
    }
    let mut rx = b.to_regex(e);
    let got = rx.is_match_bytes(&w);
    check(got as u8 == want, 1);
    let s = rx.initial_state();
    let s = rx.transition_bytes(s, &w);
    rx.next_byte(s);
    // (printing recurses, as far as the limit on the length lets it)
    check(b.exprset().expr_to_string_max_len(e, 20).len() < 100_000, 2);
    cover(got as u32);
}

/// counted repeats with many rounds; args: level (0 expressions, 1 regexes), body, minimum, maximum, concrete letters,
/// symbolic letters, is it followed by one more letter
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_count() {
    let (level, body, min, max) = (arg(0), arg(1), arg(2), arg(3));
    let (pre, n, then) = (arg(4) as usize, arg(5) as usize, arg(6) != 0);
    // the words of the body
    let bs: &[&[u8]] = match body {
        0 => &[b"a"],
        1 => &[b"", b"a"],
        2 => &[b"a", b"ab"],
        3 => &[b"a", b"b", b"aa"],
        4 => &[b"", b"ab"],
        5 => &[b"aa"],
        6 => &[b"aa", b"aaa"],
        _ => &[b"", b"a", b"aab"],
    };
    let mut w = vec![b'a'; pre];
    for _ in 0..n {
        w.push(if level == 0 { b'a' + any_below(2) } else { any_u8() });
    }
    // at[i][c]: may the first i letters be c rounds (c: at least that many, when it is the last)?
    let top = if max == u32::MAX { min.max(1) } else { max } as usize;
    let l = w.len();
    let mut at = vec![vec![0u8; top + 1]; l + 1];
    at[0][0] = 1;
    for i in 0..=l {
        for c in 0..=top {
            for v in bs {
                if v.is_empty() || v.len() > i {
                    continue;
                }
                let k = v.len();
                let m = (0..k).fold(1, |x, j| x & b01(w[i - k + j] == v[j]));
                if c > 0 {
                    at[i][c] |= at[i - k][c - 1] & m;
                }
                if c == top && max == u32::MAX {
                    at[i][c] |= at[i - k][c] & m;
                }
            }
        }
    }
    let skip = bs[0].is_empty();
    let upto = |i: usize| -> u8 {
        let lo = if skip { 0 } else { min as usize };
        (lo..=top).fold(0, |x, c| x | at[i][c])
    };
    let want = |i: usize| -> u8 {
        if then {
            if i == 0 { 0 } else { upto(i - 1) & b01(w[i - 1] == b'a') }
        } else {
            upto(i)
        }
    };
    let t = T::rep(T::Or(bs.iter().map(|v| T::lit(v)).collect()), min, max);
    let t = if then { T::Cat(vec![t, T::lit(b"a")]) } else { t };
    if level == 0 {
        let mut es = ExprSet::new(256);
        let mut e = build(&mut es, &t);
        let mut d = DerivCache::new();
        for i in 0..=l {
            let got = es.is_nullable(e);
            check(got as u8 == want(i), 1);
            cover(got as u32);
            if i < l {
                e = d.derivative(&mut es, e, w[i]);
            }
        }
    } else {
        let mut b = RegexBuilder::new();
        let e = b.mk(&to_ast(&t)).unwrap();
        let mut r = b.to_regex(e);
        let mut s = r.initial_state();
        for i in 0..=l {
            let got = r.is_accepting(s);
            check(got as u8 == want(i), 2);
            cover(got as u32);
            if i < l {
                s = r.transition(s, w[i]);
            }
        }
    }
}
