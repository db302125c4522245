//! Minimal FFI to libz3 and translation of expressions.
use crate::expr::*;
use crate::ir::{Bop, Pred};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvugt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvuge(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsgt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsge(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
}

pub struct Z3 {
    ctx: P,
    solver: P,
    memo: HashMap<E, P>,
    vars: HashMap<u32, P>,
    dom_memo: HashMap<(u32, Dom), P>,
    bits: HashMap<(u32, u32), P>,
    pub n_sat: u64,
    pub n_unsat: u64,
    pub n_unknown: u64,
    pub time: f64,
    /// directory for SMT-LIB dumps of assertion queries
    pub last_smt: Option<String>,
    pub dump: bool,
}

#[derive(PartialEq, Debug)]
pub enum Res {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("timeout").unwrap();
            let v = CString::new("60000").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(ctx, l.as_ptr());
            let solver = Z3_mk_solver_for_logic(ctx, sym);
            Z3_solver_inc_ref(ctx, solver);
            Z3 {
                ctx,
                solver,
                memo: HashMap::new(),
                vars: HashMap::new(),
                dom_memo: HashMap::new(),
                bits: HashMap::new(),
                n_sat: 0,
                n_unsat: 0,
                n_unknown: 0,
                time: 0.0,
                last_smt: None,
                dump: false,
            }
        }
    }
    unsafe fn var(&mut self, ex: &Exprs, v: u32) -> P {
        if let Some(p) = self.vars.get(&v) {
            return *p;
        }
        let n = CString::new(format!("v{}", v)).unwrap();
        let s = Z3_mk_string_symbol(self.ctx, n.as_ptr());
        let p = Z3_mk_const(self.ctx, s, Z3_mk_bv_sort(self.ctx, ex.vars[v as usize].w as c_uint));
        self.vars.insert(v, p);
        p
    }
    unsafe fn num(&self, c: u64, w: u32) -> P {
        Z3_mk_unsigned_int64(self.ctx, c, Z3_mk_bv_sort(self.ctx, w))
    }
    /// v is within [lo,hi] (8 bit)
    unsafe fn range(&self, v: P, lo: usize, hi: usize) -> P {
        if lo == hi {
            return Z3_mk_eq(self.ctx, v, self.num(lo as u64, 8));
        }
        let mut l = vec![];
        if lo > 0 {
            l.push(Z3_mk_bvuge(self.ctx, v, self.num(lo as u64, 8)));
        }
        if hi < 255 {
            l.push(Z3_mk_bvule(self.ctx, v, self.num(hi as u64, 8)));
        }
        match l.len() {
            0 => Z3_mk_true(self.ctx),
            1 => l[0],
            _ => Z3_mk_and(self.ctx, 2, l.as_ptr()),
        }
    }
    unsafe fn set(&self, v: P, f: impl Fn(usize) -> bool) -> P {
        let mut l = vec![];
        let mut i = 0;
        while i < 256 {
            if f(i) {
                let mut j = i;
                while j + 1 < 256 && f(j + 1) {
                    j += 1;
                }
                l.push(self.range(v, i, j));
                i = j + 1;
            } else {
                i += 1;
            }
        }
        match l.len() {
            0 => Z3_mk_false(self.ctx),
            1 => l[0],
            n => Z3_mk_or(self.ctx, n as c_uint, l.as_ptr()),
        }
    }
    /// width-1 expressions are z3 booleans, all others bit vectors
    unsafe fn tr(&mut self, ex: &Exprs, e: E) -> P {
        if let Some(p) = self.memo.get(&e) {
            return *p;
        }
        let c = self.ctx;
        let r = match ex.nodes[e as usize] {
            N::Const(x, 1) => {
                if x != 0 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            N::Const(x, w) => self.num(x, w as u32),
            N::Var(v, w) => {
                let p = self.var(ex, v);
                if w == 1 {
                    Z3_mk_eq(c, p, self.num(1, 1))
                } else {
                    p
                }
            }
            N::Tab(v, t, w) => {
                let p = self.var(ex, v);
                let t = ex.tabs[t as usize].clone();
                if w == 8 && (0..256).all(|i| t[i] == i as u64) {
                    p
                } else if w > 8 && (0..256).all(|i| t[i] == i as u64) {
                    Z3_mk_zero_ext(c, w as u32 - 8, p)
                } else {
                    // a decision diagram over the bits of the variable
                    let mut memo: HashMap<Vec<u64>, P> = HashMap::new();
                    self.bdd(v, p, t.to_vec(), w as u32, &mut memo)
                }
            }
            N::Bin(op, 1, a, b) => {
                let x = self.tr(ex, a);
                let y = self.tr(ex, b);
                match op {
                    Bop::And | Bop::Mul => Z3_mk_and(c, 2, [x, y].as_ptr()),
                    Bop::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                    Bop::Xor | Bop::Add | Bop::Sub => {
                        if ex.is_const(b) == Some(1) {
                            Z3_mk_not(c, x)
                        } else {
                            Z3_mk_xor(c, x, y)
                        }
                    }
                    _ => panic!("i1 {:?}", op),
                }
            }
            N::Bin(op, _, a, b) => {
                let x = self.tr(ex, a);
                let y = self.tr(ex, b);
                match op {
                    Bop::Add => Z3_mk_bvadd(c, x, y),
                    Bop::Sub => Z3_mk_bvsub(c, x, y),
                    Bop::Mul => Z3_mk_bvmul(c, x, y),
                    Bop::UDiv => Z3_mk_bvudiv(c, x, y),
                    Bop::SDiv => Z3_mk_bvsdiv(c, x, y),
                    Bop::URem => Z3_mk_bvurem(c, x, y),
                    Bop::SRem => Z3_mk_bvsrem(c, x, y),
                    Bop::Shl => Z3_mk_bvshl(c, x, y),
                    Bop::LShr => Z3_mk_bvlshr(c, x, y),
                    Bop::AShr => Z3_mk_bvashr(c, x, y),
                    Bop::And => Z3_mk_bvand(c, x, y),
                    Bop::Or => Z3_mk_bvor(c, x, y),
                    Bop::Xor => Z3_mk_bvxor(c, x, y),
                }
            }
            N::Cmp(p, w, a, b) => {
                let mut x = self.tr(ex, a);
                let mut y = self.tr(ex, b);
                if w == 1 && !matches!(p, Pred::Eq | Pred::Ne) {
                    x = Z3_mk_ite(c, x, self.num(1, 1), self.num(0, 1));
                    y = Z3_mk_ite(c, y, self.num(1, 1), self.num(0, 1));
                }
                match p {
                    Pred::Eq => Z3_mk_eq(c, x, y),
                    Pred::Ne => Z3_mk_not(c, Z3_mk_eq(c, x, y)),
                    Pred::Ugt => Z3_mk_bvugt(c, x, y),
                    Pred::Uge => Z3_mk_bvuge(c, x, y),
                    Pred::Ult => Z3_mk_bvult(c, x, y),
                    Pred::Ule => Z3_mk_bvule(c, x, y),
                    Pred::Sgt => Z3_mk_bvsgt(c, x, y),
                    Pred::Sge => Z3_mk_bvsge(c, x, y),
                    Pred::Slt => Z3_mk_bvslt(c, x, y),
                    Pred::Sle => Z3_mk_bvsle(c, x, y),
                }
            }
            N::ZExt(a, w) => {
                let aw = ex.width(a);
                let x = self.tr(ex, a);
                if aw == 1 {
                    Z3_mk_ite(c, x, self.num(1, w as u32), self.num(0, w as u32))
                } else {
                    Z3_mk_zero_ext(c, w as u32 - aw, x)
                }
            }
            N::SExt(a, w) => {
                let aw = ex.width(a);
                let x = self.tr(ex, a);
                if aw == 1 {
                    Z3_mk_ite(c, x, self.num(crate::parse::mask(u64::MAX, w as u32), w as u32), self.num(0, w as u32))
                } else {
                    Z3_mk_sign_ext(c, w as u32 - aw, x)
                }
            }
            N::Ext(a, lo, w) => {
                let x = self.tr(ex, a);
                let x = Z3_mk_extract(c, lo as u32 + w as u32 - 1, lo as u32, x);
                if w == 1 {
                    Z3_mk_eq(c, x, self.num(1, 1))
                } else {
                    x
                }
            }
            N::Cat(h, l, _) => {
                let x = self.bv(ex, h);
                let y = self.bv(ex, l);
                Z3_mk_concat(c, x, y)
            }
            N::Ite(k, a, b, _) => {
                let k = self.tr(ex, k);
                let x = self.tr(ex, a);
                let y = self.tr(ex, b);
                Z3_mk_ite(c, k, x, y)
            }
        };
        self.memo.insert(e, r);
        r
    }
    unsafe fn bit(&mut self, v: u32, p: P, i: u32) -> P {
        if let Some(b) = self.bits.get(&(v, i)) {
            return *b;
        }
        let c = self.ctx;
        let b = Z3_mk_eq(c, Z3_mk_extract(c, i, i, p), self.num(1, 1));
        self.bits.insert((v, i), b);
        b
    }
    unsafe fn bdd(&mut self, v: u32, p: P, mut t: Vec<u64>, w: u32, memo: &mut HashMap<Vec<u64>, P>) -> P {
        // drop the top bits that do not matter
        while t.len() > 1 && t[..t.len() / 2] == t[t.len() / 2..] {
            t.truncate(t.len() / 2);
        }
        let c = self.ctx;
        if t.len() == 1 {
            return if w == 1 {
                if t[0] != 0 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            } else {
                self.num(t[0], w)
            };
        }
        if let Some(r) = memo.get(&t) {
            return *r;
        }
        let h = t.len() / 2;
        let lo = self.bdd(v, p, t[..h].to_vec(), w, memo);
        let hi = self.bdd(v, p, t[h..].to_vec(), w, memo);
        let b = self.bit(v, p, h.trailing_zeros());
        let r = Z3_mk_ite(c, b, hi, lo);
        memo.insert(t, r);
        r
    }
    unsafe fn bv(&mut self, ex: &Exprs, e: E) -> P {
        let p = self.tr(ex, e);
        if ex.width(e) == 1 {
            Z3_mk_ite(self.ctx, p, self.num(1, 1), self.num(0, 1))
        } else {
            p
        }
    }
    /// conjunction of constraints and variable domains
    pub fn check(&mut self, ex: &Exprs, cons: &[E], doms: &[(u32, Dom)], want: &[u32]) -> Res {
        let t0 = std::time::Instant::now();
        let r = unsafe { self.check0(ex, cons, doms, want) };
        self.time += t0.elapsed().as_secs_f64();
        match r {
            Res::Sat(_) => self.n_sat += 1,
            Res::Unsat => self.n_unsat += 1,
            Res::Unknown => self.n_unknown += 1,
        }
        r
    }
    unsafe fn check0(&mut self, ex: &Exprs, cons: &[E], doms: &[(u32, Dom)], want: &[u32]) -> Res {
        let c = self.ctx;
        let s = self.solver;
        Z3_solver_push(c, s);
        for (v, d) in doms {
            if *d == FULL {
                continue;
            }
            if ex.vars[*v as usize].w != 8 {
                let p = self.var(ex, *v);
                let k = self.num(d[0], ex.vars[*v as usize].w as u32);
                Z3_solver_assert(c, s, Z3_mk_eq(c, p, k));
                continue;
            }
            let a = match self.dom_memo.get(&(*v, *d)) {
                Some(a) => *a,
                None => {
                    let p = self.var(ex, *v);
                    let a = self.set(p, |i| dom_has(d, i as u64));
                    self.dom_memo.insert((*v, *d), a);
                    a
                }
            };
            Z3_solver_assert(c, s, a);
        }
        for e in cons {
            let a = self.tr(ex, *e);
            Z3_solver_assert(c, s, a);
        }
        if self.dump {
            let p = Z3_solver_to_string(c, s);
            self.last_smt = Some(CStr::from_ptr(p).to_string_lossy().to_string());
        }
        let r = Z3_solver_check(c, s);
        let out = if r == 1 {
            let m = Z3_solver_get_model(c, s);
            Z3_model_inc_ref(c, m);
            let mut vals = vec![];
            for v in want {
                let p = self.var(ex, *v);
                let mut o: P = std::ptr::null_mut();
                let mut u = 0u64;
                if Z3_model_eval(c, m, p, true, &mut o) && Z3_get_numeral_uint64(c, o, &mut u) {
                    vals.push((*v, u));
                } else {
                    vals.push((*v, 0));
                }
            }
            Z3_model_dec_ref(c, m);
            Res::Sat(vals)
        } else if r == -1 {
            Res::Unsat
        } else {
            Res::Unknown
        };
        Z3_solver_pop(c, s, 1);
        let ec = Z3_get_error_code(c);
        if ec != 0 {
            panic!("z3 error {}", ec);
        }
        out
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_solver_dec_ref(self.ctx, self.solver) }
    }
}
