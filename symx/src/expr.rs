//! Hash-consed bit-vector expressions.  Every expression that depends on a
//! single 8-bit variable is kept as a 256-entry table (`Tab`), everything
//! else is a DAG that is decided by z3.
use crate::ir::{Bop, Pred};
use crate::parse::{mask, sext};
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Const(u64, u8),
    Var(u32, u8),
    Tab(u32, u32, u8),
    Bin(Bop, u8, E, E),
    Cmp(Pred, u8, E, E),
    ZExt(E, u8),
    SExt(E, u8),
    /// w bits starting at lo
    Ext(E, u8, u8),
    /// hi, lo
    Cat(E, E, u8),
    Ite(E, E, E, u8),
}

pub struct VarInfo {
    pub w: u8,
}

pub struct Exprs {
    pub nodes: Vec<N>,
    pub vars_of: Vec<u128>,
    cache: HashMap<N, E>,
    pub tabs: Vec<Rc<[u64; 256]>>,
    narrow_memo: HashMap<(E, u32), E>,
    tab_ids: HashMap<Rc<[u64; 256]>, u32>,
    pub vars: Vec<VarInfo>,
    memo: Vec<(u32, u64)>,
    epoch: u32,
}

pub type Dom = [u64; 4];
pub const FULL: Dom = [u64::MAX; 4];
pub fn dom_has(d: &Dom, v: u64) -> bool {
    d[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn dom_set(d: &mut Dom, v: u64) {
    d[(v >> 6) as usize] |= 1 << (v & 63)
}
pub fn dom_empty(d: &Dom) -> bool {
    d.iter().all(|x| *x == 0)
}
pub fn dom_first(d: &Dom) -> u64 {
    for i in 0..4 {
        if d[i] != 0 {
            return (i as u64) * 64 + d[i].trailing_zeros() as u64;
        }
    }
    panic!("empty domain")
}

pub fn bin_c(op: Bop, w: u32, a: u64, b: u64) -> Option<u64> {
    Some(mask(
        match op {
            Bop::Add => a.wrapping_add(b),
            Bop::Sub => a.wrapping_sub(b),
            Bop::Mul => a.wrapping_mul(b),
            Bop::UDiv => {
                if b == 0 {
                    return None;
                }
                a / b
            }
            Bop::URem => {
                if b == 0 {
                    return None;
                }
                a % b
            }
            Bop::SDiv => {
                if b == 0 {
                    return None;
                }
                sext(a, w).wrapping_div(sext(b, w)) as u64
            }
            Bop::SRem => {
                if b == 0 {
                    return None;
                }
                sext(a, w).wrapping_rem(sext(b, w)) as u64
            }
            Bop::Shl => {
                if b >= w as u64 {
                    0
                } else {
                    a << b
                }
            }
            Bop::LShr => {
                if b >= w as u64 {
                    0
                } else {
                    a >> b
                }
            }
            Bop::AShr => {
                if b >= w as u64 {
                    0
                } else {
                    (sext(a, w) >> b) as u64
                }
            }
            Bop::And => a & b,
            Bop::Or => a | b,
            Bop::Xor => a ^ b,
        },
        w,
    ))
}

pub fn cmp_c(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
    }
}

impl Exprs {
    pub fn new() -> Self {
        Exprs {
            nodes: vec![N::Const(0, 1)], // id 0 reserved
            vars_of: vec![0],
            cache: HashMap::new(),
            tabs: vec![],
            narrow_memo: HashMap::new(),
            tab_ids: HashMap::new(),
            vars: vec![],
            memo: vec![],
            epoch: 0,
        }
    }
    pub fn width(&self, e: E) -> u32 {
        match self.nodes[e as usize] {
            N::Const(_, w)
            | N::Var(_, w)
            | N::Tab(_, _, w)
            | N::Bin(_, w, _, _)
            | N::ZExt(_, w)
            | N::SExt(_, w)
            | N::Ext(_, _, w)
            | N::Cat(_, _, w)
            | N::Ite(_, _, _, w) => w as u32,
            N::Cmp(..) => 1,
        }
    }
    pub fn is_const(&self, e: E) -> Option<u64> {
        match self.nodes[e as usize] {
            N::Const(c, _) => Some(c),
            _ => None,
        }
    }
    /// a wide variable compared to a constant
    pub fn wide_eq(&self, a: E, b: E) -> Option<(u32, u64)> {
        match (self.nodes[a as usize], self.nodes[b as usize]) {
            (N::Var(v, w), N::Const(x, _)) | (N::Const(x, _), N::Var(v, w)) if w != 8 => Some((v, x)),
            _ => None,
        }
    }
    pub fn tab_of(&self, e: E) -> Option<(u32, Rc<[u64; 256]>)> {
        match self.nodes[e as usize] {
            N::Tab(v, t, _) => Some((v, self.tabs[t as usize].clone())),
            _ => None,
        }
    }
    fn raw(&mut self, n: N) -> E {
        if let Some(e) = self.cache.get(&n) {
            return *e;
        }
        let vs = match n {
            N::Const(..) => 0,
            N::Var(v, _) | N::Tab(v, _, _) => 1u128 << v,
            N::Bin(_, _, a, b) | N::Cmp(_, _, a, b) | N::Cat(a, b, _) => {
                self.vars_of[a as usize] | self.vars_of[b as usize]
            }
            N::ZExt(a, _) | N::SExt(a, _) | N::Ext(a, _, _) => self.vars_of[a as usize],
            N::Ite(a, b, c, _) => {
                self.vars_of[a as usize] | self.vars_of[b as usize] | self.vars_of[c as usize]
            }
        };
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.vars_of.push(vs);
        self.cache.insert(n, id);
        id
    }
    pub fn konst(&mut self, c: u64, w: u32) -> E {
        self.raw(N::Const(mask(c, w), w as u8))
    }
    pub fn new_var(&mut self, w: u32) -> (u32, E) {
        let v = self.vars.len() as u32;
        assert!(v < 128, "too many symbolic variables");
        self.vars.push(VarInfo { w: w as u8 });
        if w == 8 {
            let mut t = [0u64; 256];
            for (i, x) in t.iter_mut().enumerate() {
                *x = i as u64;
            }
            (v, self.mk_tab(v, t, 8))
        } else {
            (v, self.raw(N::Var(v, w as u8)))
        }
    }
    pub fn var_expr(&mut self, v: u32) -> E {
        let w = self.vars[v as usize].w;
        if w == 8 {
            let mut t = [0u64; 256];
            for (i, x) in t.iter_mut().enumerate() {
                *x = i as u64;
            }
            self.mk_tab(v, t, 8)
        } else {
            self.raw(N::Var(v, w))
        }
    }
    pub fn mk_tab(&mut self, v: u32, t: [u64; 256], w: u32) -> E {
        if t.iter().all(|x| *x == t[0]) {
            return self.konst(t[0], w);
        }
        let rc = Rc::new(t);
        let id = match self.tab_ids.get(&rc) {
            Some(i) => *i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabs.push(rc.clone());
                self.tab_ids.insert(rc, i);
                i
            }
        };
        self.raw(N::Tab(v, id, w as u8))
    }
    /// view as a table over variable v (constants are constant tables)
    fn as_tab(&self, e: E, v: u32) -> Option<Rc<[u64; 256]>> {
        match self.nodes[e as usize] {
            N::Const(c, _) => Some(Rc::new([c; 256])),
            N::Tab(v2, t, _) if v2 == v => Some(self.tabs[t as usize].clone()),
            _ => None,
        }
    }
    fn single_var(&self, es: &[E]) -> Option<u32> {
        let mut v = None;
        for e in es {
            match self.nodes[*e as usize] {
                N::Const(..) => {}
                N::Tab(x, _, _) => {
                    if v.is_none() || v == Some(x) {
                        v = Some(x)
                    } else {
                        return None;
                    }
                }
                _ => return None,
            }
        }
        v
    }
    pub fn bin(&mut self, op: Bop, w: u32, a: E, b: E) -> E {
        let key = N::Bin(op, w as u8, a, b);
        if let Some(e) = self.cache.get(&key) {
            return *e;
        }
        let r = self.bin0(op, w, a, b);
        if r != 0 {
            self.cache.insert(key, r);
            return r;
        }
        self.raw(key)
    }
    fn bin0(&mut self, op: Bop, w: u32, a: E, b: E) -> E {
        let ca = self.is_const(a);
        let cb = self.is_const(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            return match bin_c(op, w, x, y) {
                Some(r) => self.konst(r, w),
                None => self.konst(0, w),
            };
        }
        let ones = mask(u64::MAX, w);
        match op {
            Bop::And => {
                if a == b {
                    return a;
                }
                if ca == Some(0) || cb == Some(0) {
                    return self.konst(0, w);
                }
                if ca == Some(ones) {
                    return b;
                }
                if cb == Some(ones) {
                    return a;
                }
            }
            Bop::Or => {
                if a == b {
                    return a;
                }
                if ca == Some(ones) || cb == Some(ones) {
                    return self.konst(ones, w);
                }
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
            }
            Bop::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    // !!x
                    if let (Some(1), N::Bin(Bop::Xor, 1, x, y)) = (cb, self.nodes[a as usize]) {
                        if self.is_const(y) == Some(1) {
                            return x;
                        }
                    }
                    if let (Some(1), N::Bin(Bop::Xor, 1, x, y)) = (ca, self.nodes[b as usize]) {
                        if self.is_const(y) == Some(1) {
                            return x;
                        }
                    }
                }
            }
            Bop::Add => {
                if ca == Some(0) {
                    return b;
                }
                if cb == Some(0) {
                    return a;
                }
                // (x + c1) + c2
                if let (Some(c2), N::Bin(Bop::Add, _, x, y)) = (cb, self.nodes[a as usize]) {
                    if let Some(c1) = self.is_const(y) {
                        let k = self.konst(c1.wrapping_add(c2), w);
                        return self.bin(Bop::Add, w, x, k);
                    }
                }
                if ca.is_some() {
                    return self.bin(Bop::Add, w, b, a);
                }
            }
            Bop::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(c) = cb {
                    let k = self.konst(c.wrapping_neg(), w);
                    return self.bin(Bop::Add, w, a, k);
                }
            }
            Bop::Mul => {
                if ca == Some(0) || cb == Some(0) {
                    return self.konst(0, w);
                }
                if ca == Some(1) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
            }
            Bop::Shl | Bop::LShr | Bop::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if op != Bop::AShr {
                    if let Some(c) = cb {
                        if c >= w as u64 {
                            return self.konst(0, w);
                        }
                        if op == Bop::LShr {
                            let x = self.ext(a, c as u32, w - c as u32);
                            return self.zext(x, w);
                        }
                    }
                }
            }
            _ => {}
        }
        if let Some(v) = self.single_var(&[a, b]) {
            let ta = self.as_tab(a, v).unwrap();
            let tb = self.as_tab(b, v).unwrap();
            let mut t = [0u64; 256];
            for i in 0..256 {
                t[i] = bin_c(op, w, ta[i], tb[i]).unwrap_or(0);
            }
            return self.mk_tab(v, t, w);
        }
        0
    }
    pub fn not(&mut self, a: E) -> E {
        let one = self.konst(1, 1);
        self.bin(Bop::Xor, 1, a, one)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        if a <= b {
            self.bin(Bop::And, 1, a, b)
        } else {
            self.bin(Bop::And, 1, b, a)
        }
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        if a <= b {
            self.bin(Bop::Or, 1, a, b)
        } else {
            self.bin(Bop::Or, 1, b, a)
        }
    }
    pub fn cmp(&mut self, p: Pred, w: u32, a: E, b: E) -> E {
        let key = N::Cmp(p, w as u8, a, b);
        if let Some(e) = self.cache.get(&key) {
            return *e;
        }
        let r = self.cmp0(p, w, a, b);
        if r != 0 {
            self.cache.insert(key, r);
            return r;
        }
        self.raw(key)
    }
    fn cmp0(&mut self, p: Pred, w: u32, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.konst(cmp_c(p, w, x, y) as u64, 1);
        }
        if a == b {
            let r = matches!(p, Pred::Eq | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle);
            return self.konst(r as u64, 1);
        }
        if let Some(v) = self.single_var(&[a, b]) {
            let ta = self.as_tab(a, v).unwrap();
            let tb = self.as_tab(b, v).unwrap();
            let mut t = [0u64; 256];
            for i in 0..256 {
                t[i] = cmp_c(p, w, ta[i], tb[i]) as u64;
            }
            return self.mk_tab(v, t, 1);
        }
        if p == Pred::Ne {
            let e = self.cmp(Pred::Eq, w, a, b);
            return self.not(e);
        }
        if w == 1 && p == Pred::Eq {
            let x = self.bin(Bop::Xor, 1, a, b);
            return self.not(x);
        }
        if p == Pred::Eq {
            // ite(c, k1, k2) == k3   /  zext(x) == k
            let (x, k) = if self.is_const(b).is_some() { (a, b) } else { (b, a) };
            if let Some(kc) = self.is_const(k) {
                match self.nodes[x as usize] {
                    N::Ite(c, t, f, _) => {
                        if self.is_const(t).is_some() || self.is_const(f).is_some() {
                            let e1 = self.cmp(Pred::Eq, w, t, k);
                            let e2 = self.cmp(Pred::Eq, w, f, k);
                            return self.ite(c, e1, e2);
                        }
                    }
                    N::ZExt(y, _) => {
                        let yw = self.width(y);
                        if mask(kc, yw) != kc {
                            return self.konst(0, 1);
                        }
                        if yw == 1 {
                            return if kc == 1 { y } else { self.not(y) };
                        }
                        let k2 = self.konst(kc, yw);
                        return self.cmp(Pred::Eq, yw, y, k2);
                    }
                    N::Bin(Bop::Add, _, y, c1) => {
                        if let Some(c1) = self.is_const(c1) {
                            let k2 = self.konst(kc.wrapping_sub(c1), w);
                            return self.cmp(Pred::Eq, w, y, k2);
                        }
                    }
                    _ => {}
                }
            }
        }
        0
    }
    fn un_tab(&mut self, a: E, w: u32, f: impl Fn(u64) -> u64) -> E {
        match self.nodes[a as usize] {
            N::Const(c, _) => self.konst(f(c), w),
            N::Tab(v, t, _) => {
                let tt = self.tabs[t as usize].clone();
                let mut r = [0u64; 256];
                for i in 0..256 {
                    r[i] = mask(f(tt[i]), w);
                }
                self.mk_tab(v, r, w)
            }
            _ => 0,
        }
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        if self.width(a) == w {
            return a;
        }
        let key = N::ZExt(a, w as u8);
        if let Some(e) = self.cache.get(&key) {
            return *e;
        }
        let r = self.un_tab(a, w, |x| x);
        let r = if r != 0 {
            r
        } else if let N::ZExt(b, _) = self.nodes[a as usize] {
            self.zext(b, w)
        } else {
            return self.raw(key);
        };
        self.cache.insert(key, r);
        r
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        let r = self.un_tab(a, w, |x| sext(x, aw) as u64);
        if r != 0 {
            return r;
        }
        self.raw(N::SExt(a, w as u8))
    }
    pub fn ext(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.width(a);
        if lo == 0 && aw == w {
            return a;
        }
        debug_assert!(lo + w <= aw);
        let key = N::Ext(a, lo as u8, w as u8);
        if let Some(e) = self.cache.get(&key) {
            return *e;
        }
        let r = self.un_tab(a, w, |x| x >> lo);
        let r = if r != 0 {
            r
        } else {
            match self.nodes[a as usize] {
                N::Ext(b, l2, _) => self.ext(b, lo + l2 as u32, w),
                N::ZExt(b, _) => {
                    let bw = self.width(b);
                    if lo >= bw {
                        self.konst(0, w)
                    } else if lo + w <= bw {
                        self.ext(b, lo, w)
                    } else {
                        let x = self.ext(b, lo, bw - lo);
                        self.zext(x, w)
                    }
                }
                N::Cat(hi, l, _) => {
                    let lw = self.width(l);
                    if lo + w <= lw {
                        self.ext(l, lo, w)
                    } else if lo >= lw {
                        self.ext(hi, lo - lw, w)
                    } else {
                        return self.raw(key);
                    }
                }
                N::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), _, x, y) => {
                    let x = self.ext(x, lo, w);
                    let y = self.ext(y, lo, w);
                    self.bin(op, w, x, y)
                }
                N::Ite(c, x, y, _) => {
                    let x = self.ext(x, lo, w);
                    let y = self.ext(y, lo, w);
                    self.ite(c, x, y)
                }
                _ => return self.raw(key),
            }
        };
        self.cache.insert(key, r);
        r
    }
    /// hi ++ lo
    pub fn cat(&mut self, hi: E, lo: E) -> E {
        let hw = self.width(hi);
        let lw = self.width(lo);
        let w = hw + lw;
        if let (Some(h), Some(l)) = (self.is_const(hi), self.is_const(lo)) {
            return self.konst(h << lw | l, w);
        }
        if self.is_const(hi) == Some(0) {
            return self.zext(lo, w);
        }
        if let Some(v) = self.single_var(&[hi, lo]) {
            let th = self.as_tab(hi, v).unwrap();
            let tl = self.as_tab(lo, v).unwrap();
            let mut t = [0u64; 256];
            for i in 0..256 {
                t[i] = th[i] << lw | tl[i];
            }
            return self.mk_tab(v, t, w);
        }
        // adjacent extracts of the same expression
        let src = |e: &Self, x: E, xw: u32| match e.nodes[x as usize] {
            N::Ext(b, l, _) => (b, l as u32, xw),
            _ => (x, 0, xw),
        };
        let (hb, hl, _) = src(self, hi, hw);
        let (lb, ll, _) = src(self, lo, lw);
        if hb == lb && hl == ll + lw && hb != hi {
            return self.ext(hb, ll, w);
        }
        self.raw(N::Cat(hi, lo, w as u8))
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(x) = self.is_const(c) {
            return if x != 0 { a } else { b };
        }
        let w = self.width(a);
        let key = N::Ite(c, a, b, w as u8);
        if let Some(e) = self.cache.get(&key) {
            return *e;
        }
        if let Some(v) = self.single_var(&[c, a, b]) {
            let tc = self.as_tab(c, v).unwrap();
            let ta = self.as_tab(a, v).unwrap();
            let tb = self.as_tab(b, v).unwrap();
            let mut t = [0u64; 256];
            for i in 0..256 {
                t[i] = if tc[i] != 0 { ta[i] } else { tb[i] };
            }
            let r = self.mk_tab(v, t, w);
            self.cache.insert(key, r);
            return r;
        }
        if w == 1 {
            let r = match (self.is_const(a), self.is_const(b)) {
                (Some(1), _) => self.or(c, b),
                (Some(0), _) => {
                    let nc = self.not(c);
                    self.and(nc, b)
                }
                (_, Some(0)) => self.and(c, a),
                (_, Some(1)) => {
                    let nc = self.not(c);
                    self.or(nc, a)
                }
                _ => 0,
            };
            if r != 0 {
                self.cache.insert(key, r);
                return r;
            }
        }
        self.raw(key)
    }

    /// concrete evaluation under a model
    pub fn eval(&mut self, e: E, model: &[u64]) -> u64 {
        self.epoch += 1;
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
        self.eval1(e, model)
    }
    fn eval1(&mut self, e: E, m: &[u64]) -> u64 {
        match self.nodes[e as usize] {
            N::Const(c, _) => return c,
            N::Var(v, _) => return m[v as usize],
            N::Tab(v, t, _) => return self.tabs[t as usize][m[v as usize] as usize & 255],
            _ => {}
        }
        let mm = self.memo[e as usize];
        if mm.0 == self.epoch {
            return mm.1;
        }
        let r = match self.nodes[e as usize] {
            N::Bin(op, w, a, b) => {
                let x = self.eval1(a, m);
                let y = self.eval1(b, m);
                bin_c(op, w as u32, x, y).unwrap_or(div0(op, w as u32, x))
            }
            N::Cmp(p, w, a, b) => {
                let x = self.eval1(a, m);
                let y = self.eval1(b, m);
                cmp_c(p, w as u32, x, y) as u64
            }
            N::ZExt(a, _) => self.eval1(a, m),
            N::SExt(a, w) => {
                let aw = self.width(a);
                mask(sext(self.eval1(a, m), aw) as u64, w as u32)
            }
            N::Ext(a, lo, w) => mask(self.eval1(a, m) >> lo, w as u32),
            N::Cat(h, l, _) => {
                let lw = self.width(l);
                self.eval1(h, m) << lw | self.eval1(l, m)
            }
            N::Ite(c, a, b, _) => {
                if self.eval1(c, m) != 0 {
                    self.eval1(a, m)
                } else {
                    self.eval1(b, m)
                }
            }
            _ => unreachable!(),
        };
        self.memo[e as usize] = (self.epoch, r);
        r
    }

    /// rebuild with tables that are constant over their domain folded
    /// when the domain is within 0..2^k, the higher bits of the table index do not matter
    fn narrow(&mut self, e: E, v: u32, tid: u32, w: u32, d: &Dom) -> E {
        if d[1] | d[2] | d[3] != 0 {
            return e;
        }
        let top = 63 - d[0].leading_zeros();
        let k = (32 - top.leading_zeros()).max(1);
        if let Some(r) = self.narrow_memo.get(&(e, k)) {
            return *r;
        }
        let t = self.tabs[tid as usize].clone();
        let m = (1usize << k) - 1;
        let mut t2 = [0u64; 256];
        for i in 0..256 {
            t2[i] = t[i & m];
        }
        let r = self.mk_tab(v, t2, w);
        self.narrow_memo.insert((e, k), r);
        r
    }
    pub fn restrict(&mut self, e: E, doms: &[Dom]) -> E {
        let mut memo = HashMap::new();
        self.restrict1(e, doms, &mut memo)
    }
    fn restrict1(&mut self, e: E, doms: &[Dom], memo: &mut HashMap<E, E>) -> E {
        match self.nodes[e as usize] {
            N::Const(..) => return e,
            N::Var(v, w) => {
                // a wide variable: either unconstrained here or fixed to one value
                let d = &doms[v as usize];
                return if w != 8 && *d != FULL { self.konst(d[0], w as u32) } else { e };
            }
            N::Tab(v, tid, w) => {
                let d = &doms[v as usize];
                if *d == FULL {
                    return e;
                }
                let t = self.tabs[tid as usize].clone();
                let mut val = None;
                for i in 0..4 {
                    let mut x = d[i];
                    while x != 0 {
                        let b = x.trailing_zeros() as usize;
                        x &= x - 1;
                        let y = t[i * 64 + b];
                        match val {
                            None => val = Some(y),
                            Some(z) if z == y => {}
                            _ => return self.narrow(e, v, tid, w as u32, d),
                        }
                    }
                }
                return match val {
                    Some(c) => self.konst(c, w as u32),
                    None => e,
                };
            }
            _ => {}
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let r = match self.nodes[e as usize] {
            N::Bin(op, w, a, b) => {
                let x = self.restrict1(a, doms, memo);
                // short cuts for booleans
                if w == 1 && op == Bop::And && self.is_const(x) == Some(0) {
                    x
                } else if w == 1 && op == Bop::Or && self.is_const(x) == Some(1) {
                    x
                } else {
                    let y = self.restrict1(b, doms, memo);
                    self.bin(op, w as u32, x, y)
                }
            }
            N::Cmp(p, w, a, b) => {
                let x = self.restrict1(a, doms, memo);
                let y = self.restrict1(b, doms, memo);
                self.cmp(p, w as u32, x, y)
            }
            N::ZExt(a, w) => {
                let x = self.restrict1(a, doms, memo);
                self.zext(x, w as u32)
            }
            N::SExt(a, w) => {
                let x = self.restrict1(a, doms, memo);
                self.sext(x, w as u32)
            }
            N::Ext(a, lo, w) => {
                let x = self.restrict1(a, doms, memo);
                self.ext(x, lo as u32, w as u32)
            }
            N::Cat(h, l, _) => {
                let x = self.restrict1(h, doms, memo);
                let y = self.restrict1(l, doms, memo);
                self.cat(x, y)
            }
            N::Ite(c, a, b, _) => {
                let c = self.restrict1(c, doms, memo);
                match self.is_const(c) {
                    Some(0) => self.restrict1(b, doms, memo),
                    Some(_) => self.restrict1(a, doms, memo),
                    None => {
                        let x = self.restrict1(a, doms, memo);
                        let y = self.restrict1(b, doms, memo);
                        self.ite(c, x, y)
                    }
                }
            }
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }
    pub fn show(&self, e: E, depth: usize) -> String {
        if depth == 0 {
            return format!("#{}", e);
        }
        match self.nodes[e as usize] {
            N::Const(c, _) => format!("{:#x}", c),
            N::Var(v, _) => format!("v{}", v),
            N::Tab(v, t, w) => format!("T{}[v{}]:{}", t, v, w),
            N::Bin(op, _, a, b) => format!("({:?} {} {})", op, self.show(a, depth - 1), self.show(b, depth - 1)),
            N::Cmp(op, _, a, b) => format!("({:?} {} {})", op, self.show(a, depth - 1), self.show(b, depth - 1)),
            N::ZExt(a, w) => format!("(zext{} {})", w, self.show(a, depth - 1)),
            N::SExt(a, w) => format!("(sext{} {})", w, self.show(a, depth - 1)),
            N::Ext(a, l, w) => format!("{}[{}+{}]", self.show(a, depth - 1), l, w),
            N::Cat(a, b, _) => format!("({}++{})", self.show(a, depth - 1), self.show(b, depth - 1)),
            N::Ite(c, a, b, _) => format!(
                "(ite {} {} {})",
                self.show(c, depth - 1),
                self.show(a, depth - 1),
                self.show(b, depth - 1)
            ),
        }
    }
}

/// SMT-LIB semantics of division by zero (never relied on: the engine
/// forks on zero divisors through rustc's own checks)
fn div0(op: Bop, w: u32, a: u64) -> u64 {
    match op {
        Bop::UDiv => mask(u64::MAX, w),
        Bop::URem | Bop::SRem => a,
        _ => {
            if sext(a, w) >= 0 {
                mask(u64::MAX, w)
            } else {
                1
            }
        }
    }
}
impl Exprs {
    /// variable number v of the path (shared between paths that create the
    /// same number of variables of the same width)
    pub fn new_var_at(&mut self, v: u32, w: u32) -> (u32, E) {
        // a path creates variables 0,1,2,...; two paths may disagree on the
        // width of variable v: then use a fresh number
        let mut v = v;
        loop {
            if v as usize >= self.vars.len() {
                let (v2, e) = self.new_var(w);
                if v2 == v {
                    return (v, e);
                }
                continue;
            }
            if self.vars[v as usize].w as u32 == w {
                return (v, self.var_expr(v));
            }
            v += 1;
        }
    }
}
