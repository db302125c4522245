//! Symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::parse::{mask, sext};
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sp {
    None,
    Undef,
    SymU8,
    SymU32,
    SymChoice,
    SymAssume,
    SymAssert,
    SymCover,
    SymLut,
    SymRefusal,
    SymArg,
    SymNote,
    SymHashMode,
    Panic,
    Abort,
    Nop,
    Zero,
    Malloc,
    Calloc,
    Free,
    Realloc,
    PosixMemalign,
    RustAlloc,
    RustAllocZeroed,
    RustDealloc,
    RustRealloc,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Getrandom,
    Umax,
    Umin,
    Smax,
    Smin,
    Usubsat,
    Uaddsat,
    Uaddo,
    Usubo,
    Umulo,
    Saddo,
    Ssubo,
    Smulo,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Abs,
    Ucmp,
    Scmp,
    Ret0Arg,
}

#[derive(Clone)]
struct Frame {
    f: u32,
    pc: u32,
    cur: u32,
    base: u32,
    sp: u64,
    dst: u32,
    normal: u32,
}

#[derive(Clone, Copy, Debug)]
pub enum In {
    Var(u32),
    Choice(u64),
}

#[derive(Clone)]
pub struct State {
    mem: Mem,
    regs: Vec<V>,
    frames: Vec<Frame>,
    doms: Vec<Dom>,
    ent: u128,
    cons: Vec<E>,
    known: HashMap<E, u64>,
    model: Vec<u64>,
    inputs: Vec<In>,
    lut: bool,
    /// from here on, a panic is a legitimate refusal
    refusal: bool,
    hash_mode: u64,
    max_frames: usize,
    steps: u64,
    notes: Vec<String>,
    covers: Vec<u64>,
}

pub enum Err {
    /// the path ends silently (infeasible assumption)
    Drop,
    /// a panic where one is a legitimate refusal: the path is complete
    Refused,
    Violation(String, u64),
    Engine(String),
}
type R<T> = Result<T, Err>;
impl From<BadMem> for Err {
    fn from(b: BadMem) -> Err {
        Err::Violation(format!("invalid memory access at {:#x}", b.0), 0)
    }
}

#[derive(Default, Clone)]
pub struct Viol {
    pub msg: String,
    pub code: u64,
    pub values: Vec<u64>,
    pub stack: Vec<String>,
    pub notes: Vec<String>,
}

/// one completed path: a concrete input that takes it
pub struct Sample {
    pub values: Vec<u64>,
    pub covers: Vec<u64>,
    pub notes: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub dropped: u64,
    pub instrs: u64,
    pub forks: u64,
    pub asserts: u64,
    /// decided by constant propagation over the path's domains
    pub asserts_prop: u64,
    /// ... and put to the solver all the same
    pub confirmed: u64,
    pub confirm_s: f64,
    pub asserts_const: u64,
    pub assert_queries: u64,
    pub branch_queries: u64,
    pub cache_hits: u64,
    pub covers: BTreeMap<u64, u64>,
    pub max_steps: u64,
}

pub struct Engine {
    pub p: &'static Program,
    pub special: Rc<Vec<Sp>>,
    pub ex: Exprs,
    pub z3: Z3,
    pub st: Stats,
    pub work: Vec<State>,
    pub called: Vec<bool>,
    pub args: Vec<u64>,
    pub viols: Vec<Viol>,
    pub samples: Vec<Sample>,
    pub max_viols: usize,
    pub confirm_max: u64,
    pub confirm_time: f64,
    pub profile: bool,
    pub fork_sites: HashMap<String, u64>,
    pub max_steps: u64,
    pub max_instrs: u64,
    pub deadline: std::time::Instant,
    qcache: HashMap<(Vec<E>, Vec<(u32, Dom)>), Option<Vec<(u32, u64)>>>,
    pub smt_dir: Option<String>,
    smt_n: u64,
    pub smt_max: u64,
    pub trace: bool,
}

pub fn specials(p: &Program) -> Vec<Sp> {
    p.funcs
        .iter()
        .map(|f| {
            let n = f.name.as_str();
            let s = match n {
                "sym_u8" => Sp::SymU8,
                "sym_u32" => Sp::SymU32,
                "sym_choice" => Sp::SymChoice,
                "sym_assume" => Sp::SymAssume,
                "sym_assert" => Sp::SymAssert,
                "sym_cover" => Sp::SymCover,
                "sym_lut" => Sp::SymLut,
                "sym_refusal" => Sp::SymRefusal,
                "sym_arg" => Sp::SymArg,
                "sym_note" => Sp::SymNote,
                "sym_hash_mode" => Sp::SymHashMode,
                "malloc" => Sp::Malloc,
                "calloc" => Sp::Calloc,
                "free" => Sp::Free,
                "realloc" => Sp::Realloc,
                "posix_memalign" => Sp::PosixMemalign,
                "memcmp" => Sp::Memcmp,
                "bcmp" => Sp::Bcmp,
                "memcpy" | "memmove" => Sp::Memcpy,
                "memset" => Sp::Memset,
                "strlen" => Sp::Strlen,
                "getrandom" => Sp::Getrandom,
                "abort" | "llvm.trap" => Sp::Abort,
                "getenv" | "__cxa_thread_atexit_impl" | "write" => Sp::Zero,
                _ => Sp::None,
            };
            if s != Sp::None {
                return s;
            }
            if n.starts_with("llvm.") {
                let pre = |x: &str| n.starts_with(x);
                return if pre("llvm.lifetime") || pre("llvm.assume") || pre("llvm.experimental.noalias") || pre("llvm.x86.sse2.pause") || pre("llvm.prefetch") || pre("llvm.dbg") {
                    Sp::Nop
                } else if pre("llvm.memcpy") || pre("llvm.memmove") {
                    Sp::Memcpy
                } else if pre("llvm.memset") {
                    Sp::Memset
                } else if pre("llvm.umax") {
                    Sp::Umax
                } else if pre("llvm.umin") {
                    Sp::Umin
                } else if pre("llvm.smax") {
                    Sp::Smax
                } else if pre("llvm.smin") {
                    Sp::Smin
                } else if pre("llvm.usub.sat") {
                    Sp::Usubsat
                } else if pre("llvm.uadd.sat") {
                    Sp::Uaddsat
                } else if pre("llvm.uadd.with") {
                    Sp::Uaddo
                } else if pre("llvm.usub.with") {
                    Sp::Usubo
                } else if pre("llvm.umul.with") {
                    Sp::Umulo
                } else if pre("llvm.sadd.with") {
                    Sp::Saddo
                } else if pre("llvm.ssub.with") {
                    Sp::Ssubo
                } else if pre("llvm.smul.with") {
                    Sp::Smulo
                } else if pre("llvm.ctlz") {
                    Sp::Ctlz
                } else if pre("llvm.cttz") {
                    Sp::Cttz
                } else if pre("llvm.ctpop") {
                    Sp::Ctpop
                } else if pre("llvm.bswap") {
                    Sp::Bswap
                } else if pre("llvm.bitreverse") {
                    Sp::Bitreverse
                } else if pre("llvm.fshl") {
                    Sp::Fshl
                } else if pre("llvm.fshr") {
                    Sp::Fshr
                } else if pre("llvm.abs") {
                    Sp::Abs
                } else if pre("llvm.ucmp") {
                    Sp::Ucmp
                } else if pre("llvm.scmp") {
                    Sp::Scmp
                } else if pre("llvm.is.constant") {
                    Sp::Zero
                } else if pre("llvm.threadlocal.address") || pre("llvm.expect") {
                    Sp::Ret0Arg
                } else {
                    Sp::Undef
                };
            }
            if n.starts_with("_R") {
                if n.ends_with("___rust_alloc") {
                    return Sp::RustAlloc;
                }
                if n.ends_with("___rust_alloc_zeroed") {
                    return Sp::RustAllocZeroed;
                }
                if n.ends_with("___rust_dealloc") {
                    return Sp::RustDealloc;
                }
                if n.ends_with("___rust_realloc") {
                    return Sp::RustRealloc;
                }
                if n.ends_with("___rust_no_alloc_shim_is_unstable_v2") {
                    return Sp::Nop;
                }
                if n.contains("4core9panicking9panic_fmt")
                    || n.contains("4core9panicking14panic_nounwind")
                    || n.contains("4core9panicking26panic_nounwind_nobacktrace")
                    || n.contains("18handle_alloc_error")
                    || n.contains("7process5abort")
                {
                    return Sp::Panic;
                }
            }
            if !f.defined {
                Sp::Undef
            } else {
                Sp::None
            }
        })
        .collect()
}

fn is_wide_vec(n: u32, ew: u32) -> bool {
    n * ew > 128
}
fn lanes(v: &V, n: u32, ew: u32) -> Vec<V> {
    match v {
        V::A(l) => l.as_ref().clone(),
        V::C(x) => (0..n).map(|i| V::C(mask(shr(*x, i * ew), ew))).collect(),
        V::W(a, b) => {
            let x = *a as u128 | (*b as u128) << 64;
            (0..n).map(|i| V::C(mask((x >> (i * ew)) as u64, ew))).collect()
        }
        V::S(_) => panic!("scalar symbolic as vector"),
    }
}
fn shr(x: u64, n: u32) -> u64 {
    if n >= 64 {
        0
    } else {
        x >> n
    }
}
fn pack(l: Vec<V>, n: u32, ew: u32) -> V {
    if !is_wide_vec(n, ew) && l.iter().all(|x| matches!(x, V::C(_))) {
        let mut x = 0u128;
        for (i, e) in l.iter().enumerate() {
            if let V::C(c) = e {
                x |= (*c as u128) << (i as u32 * ew);
            }
        }
        V::wide(x, n * ew)
    } else {
        V::A(Rc::new(l))
    }
}

/// outcome of one instruction
enum Flow {
    Next,
    Jump,
}

impl Engine {
    pub fn new(p: &'static Program, special: Rc<Vec<Sp>>) -> Engine {
        Engine {
            called: vec![false; p.funcs.len()],
            p,
            special,
            ex: Exprs::new(),
            z3: Z3::new(),
            st: Stats::default(),
            work: vec![],
            args: vec![],
            viols: vec![],
            samples: vec![],
            max_viols: 1,
            confirm_max: 40,
            confirm_time: 5.0,
            profile: std::env::var("SYMX_PROFILE").is_ok(),
            fork_sites: HashMap::new(),
            max_steps: 200_000_000,
            max_instrs: 20_000_000_000,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(600),
            qcache: HashMap::new(),
            smt_dir: None,
            smt_n: 0,
            smt_max: 0,
            trace: false,
        }
    }

    // ---------- values ----------
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.ex.konst(*c, w),
            V::S(e) => *e,
            _ => panic!("to_e"),
        }
    }
    fn v(&self, e: E) -> V {
        match self.ex.is_const(e) {
            Some(c) => V::C(c),
            None => V::S(e),
        }
    }
    #[inline(always)]
    fn get(&self, s: &State, base: u32, o: &O) -> V {
        match o {
            O::R(r) => s.regs[(base + r) as usize].clone(),
            O::C(c) => V::C(*c),
            O::K(k) => self.p.consts[*k as usize].clone(),
        }
    }
    #[inline(always)]
    fn getc(&self, s: &State, base: u32, o: &O) -> Option<u64> {
        match o {
            O::R(r) => match s.regs[(base + r) as usize] {
                V::C(c) => Some(c),
                _ => None,
            },
            O::C(c) => Some(*c),
            O::K(_) => None,
        }
    }
    fn bin(&mut self, op: Bop, w: u32, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::C(x), V::C(y)) if w <= 64 => match bin_c(op, w, *x, *y) {
                Some(r) => Ok(V::C(r)),
                None => Err(Err::Violation("division by zero".into(), 0)),
            },
            _ if w > 64 => {
                let x = self.to128(a)?;
                let y = self.to128(b)?;
                let (x, y) = match (x, y) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Err(Err::Engine("symbolic 128-bit arithmetic".into())),
                };
                let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                let r = match op {
                    Bop::Add => x.wrapping_add(y),
                    Bop::Sub => x.wrapping_sub(y),
                    Bop::Mul => x.wrapping_mul(y),
                    Bop::And => x & y,
                    Bop::Or => x | y,
                    Bop::Xor => x ^ y,
                    Bop::Shl => x.checked_shl(y as u32).unwrap_or(0),
                    Bop::LShr => (x & m).checked_shr(y as u32).unwrap_or(0),
                    Bop::UDiv => x / y,
                    Bop::URem => x % y,
                    _ => return Err(Err::Engine("128-bit op".into())),
                };
                Ok(V::W((r & m) as u64, ((r & m) >> 64) as u64))
            }
            _ => {
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = self.ex.bin(op, w, x, y);
                Ok(self.v(r))
            }
        }
    }
    fn to128(&self, a: &V) -> R<Option<u128>> {
        Ok(match a {
            V::C(x) => Some(*x as u128),
            V::W(l, h) => Some(*l as u128 | (*h as u128) << 64),
            V::S(_) => None,
            V::A(_) => return Err(Err::Engine("aggregate as integer".into())),
        })
    }
    fn cmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::C(x), V::C(y)) if w <= 64 => Ok(V::C(cmp_c(p, w, *x, *y) as u64)),
            _ if w > 64 => match (self.to128(a)?, self.to128(b)?) {
                (Some(x), Some(y)) => {
                    let sx = |x: u128| ((x << (128 - w)) as i128) >> (128 - w);
                    Ok(V::C(match p {
                        Pred::Eq => x == y,
                        Pred::Ne => x != y,
                        Pred::Ugt => x > y,
                        Pred::Uge => x >= y,
                        Pred::Ult => x < y,
                        Pred::Ule => x <= y,
                        Pred::Sgt => sx(x) > sx(y),
                        Pred::Sge => sx(x) >= sx(y),
                        Pred::Slt => sx(x) < sx(y),
                        Pred::Sle => sx(x) <= sx(y),
                    } as u64))
                }
                _ => Err(Err::Engine("symbolic 128-bit compare".into())),
            },
            _ => {
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = self.ex.cmp(p, w, x, y);
                Ok(self.v(r))
            }
        }
    }
    fn cast(&mut self, k: Cast, fw: u32, tw: u32, a: &V) -> R<V> {
        Ok(match a {
            V::C(x) => match k {
                Cast::ZExt => {
                    if tw > 64 {
                        V::W(*x, 0)
                    } else {
                        V::C(*x)
                    }
                }
                Cast::SExt => {
                    let s = sext(*x, fw);
                    if tw > 64 {
                        V::wide(s as i128 as u128, tw)
                    } else {
                        V::C(mask(s as u64, tw))
                    }
                }
                Cast::Trunc => V::C(mask(*x, tw)),
                Cast::Bit => V::C(*x),
            },
            V::W(l, h) => match k {
                Cast::Trunc => V::wide(*l as u128 | (*h as u128) << 64, tw),
                Cast::Bit => a.clone(),
                Cast::ZExt => a.clone(),
                _ => return Err(Err::Engine("wide sext".into())),
            },
            V::S(e) => {
                if tw > 64 {
                    return Err(Err::Engine("symbolic extension beyond 64 bits".into()));
                }
                let r = match k {
                    Cast::ZExt => self.ex.zext(*e, tw),
                    Cast::SExt => self.ex.sext(*e, tw),
                    Cast::Trunc => self.ex.ext(*e, 0, tw),
                    Cast::Bit => *e,
                };
                self.v(r)
            }
            V::A(_) => return Err(Err::Engine("cast of aggregate".into())),
        })
    }

    // ---------- path conditions ----------
    fn slice(&self, s: &State, extra: u128) -> (Vec<E>, Vec<(u32, Dom)>) {
        let mut vs = extra;
        let mut used = vec![false; s.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in s.cons.iter().enumerate() {
                if !used[i] && self.ex.vars_of[*c as usize] & vs != 0 {
                    used[i] = true;
                    vs |= self.ex.vars_of[*c as usize];
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let cons = s.cons.iter().zip(&used).filter(|x| *x.1).map(|x| *x.0).collect();
        let mut doms = vec![];
        for v in 0..s.doms.len() as u32 {
            if vs >> v & 1 == 1 {
                doms.push((v, s.doms[v as usize]));
            }
        }
        (cons, doms)
    }
    /// is path condition + extra satisfiable?  returns values of the relevant variables
    fn query(&mut self, s: &State, extra: &[E], vars: u128, assertion: bool) -> R<Option<Vec<(u32, u64)>>> {
        let (mut cons, doms) = self.slice(s, vars);
        for c in cons.iter_mut() {
            *c = self.ex.restrict(*c, &s.doms);
        }
        cons.retain(|c| self.ex.is_const(*c) != Some(1));
        cons.extend_from_slice(extra);
        cons.sort();
        cons.dedup();
        let key = (cons, doms);
        if assertion {
            self.st.assert_queries += 1;
        } else {
            self.st.branch_queries += 1;
        }
        if let Some(r) = self.qcache.get(&key) {
            self.st.cache_hits += 1;
            return Ok(r.clone());
        }
        let want: Vec<u32> = key.1.iter().map(|x| x.0).collect();
        let dump = assertion && self.smt_dir.is_some() && self.smt_n < self.smt_max;
        self.z3.dump = dump;
        let r = self.z3.check(&self.ex, &key.0, &key.1, &want);
        if dump {
            let n = self.smt_n;
            self.smt_n += 1;
            let st = match &r {
                Res::Sat(_) => "sat",
                Res::Unsat => "unsat",
                Res::Unknown => "unknown",
            };
            let f = format!("{}/q{}.{}.smt2", self.smt_dir.as_ref().unwrap(), n, st);
            let t = self.z3.last_smt.take().unwrap_or_default();
            let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", t));
        }
        let out = match r {
            Res::Sat(m) => {
                // the model returned by the solver must satisfy the constraints in our own semantics
                let mut mm = s.model.clone();
                for (v, x) in &m {
                    mm[*v as usize] = *x;
                }
                for c in &key.0 {
                    if self.ex.eval(*c, &mm) == 0 {
                        return Err(Err::Engine("solver model does not satisfy the encoding".into()));
                    }
                }
                Some(m)
            }
            Res::Unsat => None,
            Res::Unknown => return Err(Err::Engine("solver gave no answer".into())),
        };
        self.qcache.insert(key, out.clone());
        Ok(out)
    }
    fn dom_split(&self, t: &[u64; 256], d: &Dom) -> (Dom, Dom) {
        let mut a = [0u64; 4];
        let mut b = [0u64; 4];
        for i in 0..4 {
            let mut x = d[i];
            while x != 0 {
                let k = x.trailing_zeros();
                x &= x - 1;
                if t[i * 64 + k as usize] != 0 {
                    a[i] |= 1 << k;
                } else {
                    b[i] |= 1 << k;
                }
            }
        }
        (a, b)
    }
    /// add `c == val` to the state (the caller knows it is feasible and provides a model)
    fn add(&mut self, s: &mut State, c: E, val: bool) {
        match self.ex.nodes[c as usize] {
            N::Const(..) => {}
            N::Tab(v, t, 1) => {
                let t = self.ex.tabs[t as usize].clone();
                let (a, b) = self.dom_split(&t, &s.doms[v as usize]);
                s.doms[v as usize] = if val { a } else { b };
            }
            N::Bin(Bop::And, 1, a, b) if val => {
                self.add(s, a, true);
                self.add(s, b, true);
            }
            N::Bin(Bop::Or, 1, a, b) if !val => {
                self.add(s, a, false);
                self.add(s, b, false);
            }
            N::Bin(Bop::Xor, 1, a, b) if self.ex.is_const(b) == Some(1) => self.add(s, a, !val),
            N::Cmp(Pred::Eq, _, a, b) if val && self.ex.wide_eq(a, b).is_some() => {
                let (v, x) = self.ex.wide_eq(a, b).unwrap();
                s.doms[v as usize] = [x, 0, 0, 0];
            }
            _ => {
                let e = if val { c } else { self.ex.not(c) };
                s.ent |= self.ex.vars_of[e as usize];
                s.cons.push(e);
                s.known.insert(c, val as u64);
            }
        }
    }
    fn set_model(&self, s: &mut State, m: &[(u32, u64)]) {
        for (v, x) in m {
            s.model[*v as usize] = *x;
        }
    }
    fn prof(&mut self, s: &State) {
        if self.profile {
            let fr = s.frames.last().unwrap();
            let mut k = format!("lut={} pc={} ", s.lut as u8, fr.pc);
            for f in s.frames.iter().rev().take(4) {
                let f = &self.p.funcs[f.f as usize];
                k.push_str(&f.pretty.clone().unwrap_or(f.name.clone()));
                k.push_str(" < ");
            }
            *self.fork_sites.entry(k).or_insert(0) += 1;
        }
    }
    /// decide a condition; forks (pushes the other side, which will re-execute
    /// the current instruction) when both outcomes are possible
    fn decide(&mut self, s: &mut State, c: E) -> R<bool> {
        match self.ex.nodes[c as usize] {
            N::Const(x, _) => return Ok(x != 0),
            N::Tab(v, t, _) => {
                let t = self.ex.tabs[t as usize].clone();
                let (a, b) = self.dom_split(&t, &s.doms[v as usize]);
                if dom_empty(&b) {
                    return Ok(true);
                }
                if dom_empty(&a) {
                    return Ok(false);
                }
                if s.ent >> v & 1 == 0 {
                    self.st.forks += 1;
                    self.prof(s);
                    let cur = s.model[v as usize];
                    let mut o = s.clone();
                    o.doms[v as usize] = b;
                    if !dom_has(&b, cur) {
                        o.model[v as usize] = dom_first(&b);
                    }
                    self.work.push(o);
                    s.doms[v as usize] = a;
                    if !dom_has(&a, cur) {
                        s.model[v as usize] = dom_first(&a);
                    }
                    return Ok(true);
                }
            }
            _ => {}
        }
        if let Some(k) = s.known.get(&c) {
            return Ok(*k != 0);
        }
        let rc = self.ex.restrict(c, &s.doms);
        if let Some(x) = self.ex.is_const(rc) {
            return Ok(x != 0);
        }
        if rc != c {
            if let N::Tab(..) = self.ex.nodes[rc as usize] {
                return self.decide(s, rc);
            }
            if let Some(k) = s.known.get(&rc) {
                return Ok(*k != 0);
            }
        }
        let cur = self.ex.eval(rc, &s.model) != 0;
        let neg = self.ex.not(rc);
        let vars = self.ex.vars_of[rc as usize];
        let other = if cur { neg } else { rc };
        match self.query(s, &[other], vars, false)? {
            None => {
                s.known.insert(c, cur as u64);
                s.known.insert(rc, cur as u64);
                Ok(cur)
            }
            Some(m) => {
                self.st.forks += 1;
                self.prof(s);
                let mut o = s.clone();
                self.set_model(&mut o, &m);
                self.add(&mut o, rc, !cur);
                o.known.insert(c, !cur as u64);
                o.known.insert(rc, !cur as u64);
                self.work.push(o);
                self.add(s, rc, cur);
                s.known.insert(c, cur as u64);
                s.known.insert(rc, cur as u64);
                Ok(cur)
            }
        }
    }
    fn decide_v(&mut self, s: &mut State, c: &V) -> R<bool> {
        match c {
            V::C(x) => Ok(*x != 0),
            V::S(e) => self.decide(s, *e),
            _ => Err(Err::Engine("condition".into())),
        }
    }
    /// make an expression concrete, forking over its values
    fn concretize(&mut self, s: &mut State, e: E) -> R<u64> {
        if let Some(c) = self.ex.is_const(e) {
            return Ok(c);
        }
        if let Some(k) = s.known.get(&e) {
            return Ok(*k);
        }
        let r = self.ex.restrict(e, &s.doms);
        if let Some(c) = self.ex.is_const(r) {
            return Ok(c);
        }
        let w = self.ex.width(r);
        for _ in 0..4096 {
            let val = self.ex.eval(r, &s.model);
            let k = self.ex.konst(val, w);
            let eq = self.ex.cmp(Pred::Eq, w, r, k);
            if self.decide(s, eq)? {
                s.known.insert(e, val);
                s.known.insert(r, val);
                return Ok(val);
            }
        }
        Err(Err::Engine("too many values to concretize".into()))
    }
    fn conc_v(&mut self, s: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::S(e) => self.concretize(s, *e),
            _ => Err(Err::Engine("concretize".into())),
        }
    }

    // ---------- memory ----------
    fn load_c(&mut self, s: &State, addr: u64, n: usize) -> R<V> {
        if let Some(x) = s.mem.read(addr, n)? {
            return Ok(V::C(x));
        }
        // combine from high to low
        let mut acc: E = 0;
        for i in (0..n).rev() {
            let (c, e) = s.mem.byte(addr + i as u64)?;
            let b = if e != 0 { e } else { self.ex.konst(c as u64, 8) };
            acc = if acc == 0 { b } else { self.ex.cat(acc, b) };
        }
        Ok(self.v(acc))
    }
    fn load_bits(&mut self, s: &State, addr: u64, bits: u32) -> R<V> {
        let v = self.load_c(s, addr, ((bits + 7) / 8) as usize)?;
        if bits % 8 == 0 {
            return Ok(v);
        }
        match v {
            V::C(x) => Ok(V::C(mask(x, bits))),
            V::S(e) => {
                let r = self.ex.ext(e, 0, bits);
                Ok(self.v(r))
            }
            _ => unreachable!(),
        }
    }
    fn load_ty(&mut self, s: &State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(b) if *b <= 64 => self.load_bits(s, addr, *b),
            Ty::Ptr => self.load_c(s, addr, 8),
            Ty::Float => self.load_c(s, addr, 4),
            Ty::Double => self.load_c(s, addr, 8),
            Ty::Int(_) => {
                let lo = self.load_c(s, addr, 8)?;
                let hi = self.load_c(s, addr + 8, ty.store_size() as usize - 8)?;
                match (lo, hi) {
                    (V::C(l), V::C(h)) => Ok(V::W(l, h)),
                    _ => Err(Err::Engine("symbolic 128-bit load".into())),
                }
            }
            Ty::Vec(n, t) => {
                let ew = t.bits();
                if ew % 8 != 0 {
                    let it = Ty::Int(*n as u32 * ew);
                    let x = self.load_ty(s, addr, &it)?;
                    return self.bitcast(&it, ty, x);
                }
                let mut l = vec![];
                for i in 0..*n {
                    l.push(self.load_c(s, addr + i * (ew as u64 / 8), (ew / 8) as usize)?);
                }
                Ok(pack(l, *n as u32, ew))
            }
            Ty::Arr(n, t) => {
                let mut l = vec![];
                for i in 0..*n {
                    l.push(self.load_ty(s, addr + i * t.size(), t)?);
                }
                Ok(V::A(Rc::new(l)))
            }
            Ty::Struct(fs, _) => {
                let mut l = vec![];
                for i in 0..fs.len() {
                    l.push(self.load_ty(s, addr + ty.field_off(i), &fs[i])?);
                }
                Ok(V::A(Rc::new(l)))
            }
            _ => Err(Err::Engine(format!("load of {:?}", ty))),
        }
    }
    fn store_bits(&mut self, s: &mut State, addr: u64, bits: u32, v: &V) -> R<()> {
        let n = ((bits + 7) / 8) as usize;
        match v {
            V::C(x) => s.mem.write(addr, n, *x)?,
            V::S(e) => {
                let e = if bits % 8 != 0 { self.ex.zext(*e, n as u32 * 8) } else { *e };
                for i in 0..n {
                    let b = self.ex.ext(e, 8 * i as u32, 8);
                    match self.ex.is_const(b) {
                        Some(c) => s.mem.write(addr + i as u64, 1, c)?,
                        None => s.mem.write_sym(addr + i as u64, b)?,
                    }
                }
            }
            _ => return Err(Err::Engine("store".into())),
        }
        Ok(())
    }
    fn store_ty(&mut self, s: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Int(b) if *b <= 64 => self.store_bits(s, addr, *b, v),
            Ty::Ptr | Ty::Double => self.store_bits(s, addr, 64, v),
            Ty::Float => self.store_bits(s, addr, 32, v),
            Ty::Int(b) => {
                let x = match self.to128(v)? {
                    Some(x) => x,
                    None => return Err(Err::Engine("symbolic wide store".into())),
                };
                s.mem.write(addr, 8, x as u64)?;
                s.mem.write(addr + 8, ((*b as usize + 7) / 8) - 8, (x >> 64) as u64)?;
                Ok(())
            }
            Ty::Vec(n, t) => {
                let ew = t.bits();
                if ew % 8 != 0 {
                    let it = Ty::Int(*n as u32 * ew);
                    let x = self.bitcast(ty, &it, v.clone())?;
                    return self.store_ty(s, addr, &it, &x);
                }
                let l = lanes(v, *n as u32, ew);
                for (i, x) in l.iter().enumerate() {
                    self.store_bits(s, addr + i as u64 * (ew as u64 / 8), ew, x)?;
                }
                Ok(())
            }
            Ty::Arr(_, t) => {
                if let V::A(l) = v {
                    for (i, x) in l.iter().enumerate() {
                        self.store_ty(s, addr + i as u64 * t.size(), t, x)?;
                    }
                    Ok(())
                } else {
                    Err(Err::Engine("store arr".into()))
                }
            }
            Ty::Struct(fs, _) => {
                if let V::A(l) = v {
                    for (i, x) in l.iter().enumerate() {
                        self.store_ty(s, addr + ty.field_off(i), &fs[i], x)?;
                    }
                    Ok(())
                } else {
                    Err(Err::Engine("store struct".into()))
                }
            }
            _ => Err(Err::Engine(format!("store of {:?}", ty))),
        }
    }
    /// load through a symbolic address
    fn load_sym(&mut self, s: &mut State, addr: E, bits: u32) -> R<V> {
        let addr = self.ex.restrict(addr, &s.doms);
        if let Some(c) = self.ex.is_const(addr) {
            return self.load_bits(s, c, bits);
        }
        if let Some((v, t)) = self.ex.tab_of(addr) {
            let d = s.doms[v as usize];
            let mut vals: Vec<(u64, V)> = vec![]; // per domain value
            let mut seen: HashMap<u64, V> = HashMap::new();
            let mut all_c = true;
            for x in 0..256u64 {
                if !dom_has(&d, x) {
                    continue;
                }
                let a = t[x as usize];
                let val = match seen.get(&a) {
                    Some(v) => v.clone(),
                    None => {
                        let v = self.load_bits(s, a, bits)?;
                        seen.insert(a, v.clone());
                        v
                    }
                };
                if !matches!(val, V::C(_)) {
                    all_c = false;
                }
                vals.push((x, val));
            }
            if all_c {
                let mut tab = [0u64; 256];
                let mut last = 0;
                // values outside the domain are irrelevant: repeat a value that occurs
                if let Some((_, V::C(c))) = vals.first() {
                    last = *c;
                }
                for t in tab.iter_mut() {
                    *t = last;
                }
                for (x, v) in &vals {
                    if let V::C(c) = v {
                        tab[*x as usize] = *c;
                    }
                }
                let e = self.ex.mk_tab(v, tab, bits);
                if let Some(c) = self.ex.is_const(e) {
                    return Ok(V::C(c));
                }
                if s.lut {
                    return Ok(V::S(e));
                }
                let c = self.concretize(s, e)?;
                return Ok(V::C(c));
            }
            if s.lut {
                let w = 64;
                let mut keys: Vec<_> = seen.into_iter().collect();
                keys.sort_by_key(|x| x.0);
                let mut acc = {
                    let v = keys[0].1.clone();
                    self.e(&v, bits)
                };
                for (a, v) in &keys[1..] {
                    let k = self.ex.konst(*a, w);
                    let c = self.ex.cmp(Pred::Eq, w, addr, k);
                    let x = self.e(v, bits);
                    acc = self.ex.ite(c, x, acc);
                }
                return Ok(self.v(acc));
            }
        }
        let a = self.concretize(s, addr)?;
        self.load_bits(s, a, bits)
    }

    fn alloc(&mut self, s: &mut State, size: u64, align: u64) -> R<u64> {
        if size > 0x4000_0000 {
            return Err(Err::Violation("allocation of more than 1 GB".into(), 0));
        }
        let a = align_up(s.mem.heap_hi + 16, align.max(16));
        s.mem.heap_hi = align_up(a + size.max(1), 16);
        if s.mem.heap_hi > 0x6f00_0000 {
            return Err(Err::Engine("heap exhausted".into()));
        }
        s.mem.write(a - 8, 8, size)?;
        Ok(a)
    }
    fn realloc(&mut self, s: &mut State, p: u64, old: u64, new: u64, align: u64) -> R<u64> {
        let a = self.alloc(s, new, align)?;
        s.mem.copy(a, p, old.min(new))?;
        Ok(a)
    }

    // ---------- run ----------
    pub fn init_state(&mut self, fi: u32) -> State {
        let mut mem = Mem::new();
        for (a, b) in &self.p.globals {
            mem.init(*a, b);
        }
        let f = &self.p.funcs[fi as usize];
        let top = mem.stack_hi;
        State {
            mem,
            regs: vec![V::C(0); f.nregs as usize],
            frames: vec![Frame { f: fi, pc: f.blocks[0].start, cur: 0, base: 0, sp: top, dst: u32::MAX, normal: u32::MAX }],
            doms: vec![],
            ent: 0,
            cons: vec![],
            known: HashMap::new(),
            model: vec![],
            inputs: vec![],
            lut: false,
            refusal: false,
            hash_mode: 0,
            max_frames: 20_000,
            steps: 0,
            notes: vec![],
            covers: vec![],
        }
    }
    fn values(s: &State) -> Vec<u64> {
        s.inputs
            .iter()
            .map(|i| match i {
                In::Var(v) => s.model[*v as usize],
                In::Choice(c) => *c,
            })
            .collect()
    }
    fn record(&mut self, s: &State, msg: String, code: u64) {
        let values = Self::values(s);
        let stack = s
            .frames
            .iter()
            .rev()
            .take(12)
            .map(|f| {
                let f = &self.p.funcs[f.f as usize];
                f.pretty.clone().unwrap_or(f.name.clone())
            })
            .collect();
        self.viols.push(Viol { msg, code, values, stack, notes: s.notes.clone() });
    }
    /// explore everything; Err = engine problem
    pub fn run(&mut self, s: State) -> Result<(), String> {
        self.work.push(s);
        while let Some(mut s) = self.work.pop() {
            match self.run_path(&mut s) {
                Ok(()) => {
                    self.st.paths += 1;
                    // a few completed paths, to be run natively
                    if self.st.paths.is_power_of_two() || self.samples.len() < 3 {
                        self.samples.push(Sample { values: Self::values(&s), covers: s.covers.clone(), notes: s.notes.clone() });
                    }
                }
                Err(Err::Drop) => self.st.dropped += 1,
                Err(Err::Refused) => {
                    self.st.paths += 1;
                    s.covers.push(90);
                    *self.st.covers.entry(90).or_insert(0) += 1;
                    if self.st.paths.is_power_of_two() || self.samples.len() < 3 {
                        self.samples.push(Sample { values: Self::values(&s), covers: s.covers.clone(), notes: s.notes.clone() });
                    }
                }
                Err(Err::Violation(m, c)) => {
                    self.st.paths += 1;
                    self.record(&s, m, c);
                }
                Err(Err::Engine(m)) => {
                    let st: Vec<String> = s
                        .frames
                        .iter()
                        .rev()
                        .take(10)
                        .map(|f| {
                            let f = &self.p.funcs[f.f as usize];
                            f.pretty.clone().unwrap_or(f.name.clone())
                        })
                        .collect();
                    return Err(format!("{} in {}", m, st.join(" < ")));
                }
            }
            self.st.max_steps = self.st.max_steps.max(s.steps);
            if self.viols.len() >= self.max_viols {
                return Ok(());
            }
        }
        Ok(())
    }
    fn set(&self, s: &mut State, base: u32, d: u32, v: V) {
        if d != u32::MAX {
            s.regs[(base + d) as usize] = v;
        }
    }
    fn goto(&mut self, s: &mut State, b: u32) {
        let fr = s.frames.last().unwrap();
        let (f, cur, base) = (fr.f, fr.cur, fr.base);
        let p = self.p;
        let blk = &p.funcs[f as usize].blocks[b as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let ph = &blk.phis[0];
                let o = &ph.inc.iter().find(|x| x.0 == cur).expect("phi").1;
                let v = self.get(s, base, o);
                s.regs[(base + ph.d) as usize] = v;
            } else {
                let mut vals: Vec<(u32, V)> = Vec::with_capacity(blk.phis.len());
                for ph in &blk.phis {
                    let o = &ph.inc.iter().find(|x| x.0 == cur).expect("phi").1;
                    vals.push((ph.d, self.get(s, base, o)));
                }
                for (d, v) in vals {
                    s.regs[(base + d) as usize] = v;
                }
            }
        }
        let fr = s.frames.last_mut().unwrap();
        fr.cur = b;
        fr.pc = blk.start;
    }

    fn run_path(&mut self, s: &mut State) -> R<()> {
        let p: &'static Program = self.p;
        loop {
            let (f, pc, base) = match s.frames.last() {
                Some(fr) => (fr.f, fr.pc, fr.base),
                None => return Ok(()),
            };
            s.steps += 1;
            self.st.instrs += 1;
            if s.steps > self.max_steps {
                return Err(Err::Violation("step limit exceeded (possible non-termination)".into(), 9999));
            }
            if self.st.instrs & 0xfffff == 0 {
                if std::time::Instant::now() > self.deadline {
                    return Err(Err::Engine("time limit".into()));
                }
                if self.st.instrs > self.max_instrs {
                    return Err(Err::Engine("instruction limit".into()));
                }
            }
            let ins = &p.funcs[f as usize].code[pc as usize];
            match self.step(s, ins, base)? {
                Flow::Next => s.frames.last_mut().unwrap().pc += 1,
                Flow::Jump => {}
            }
        }
    }

    fn step(&mut self, s: &mut State, ins: &'static I, base: u32) -> R<Flow> {
        match ins {
            I::Bin { op, w, d, a, b } => {
                if *w <= 64 {
                    if let (Some(x), Some(y)) = (self.getc(s, base, a), self.getc(s, base, b)) {
                        match bin_c(*op, *w, x, y) {
                            Some(r) => {
                                s.regs[(base + d) as usize] = V::C(r);
                                return Ok(Flow::Next);
                            }
                            None => return Err(Err::Violation("division by zero".into(), 0)),
                        }
                    }
                }
                let x = self.get(s, base, a);
                let y = self.get(s, base, b);
                let r = self.bin(*op, *w, &x, &y)?;
                s.regs[(base + d) as usize] = r;
            }
            I::Icmp { p, w, d, a, b } => {
                if *w <= 64 {
                    if let (Some(x), Some(y)) = (self.getc(s, base, a), self.getc(s, base, b)) {
                        s.regs[(base + d) as usize] = V::C(cmp_c(*p, *w, x, y) as u64);
                        return Ok(Flow::Next);
                    }
                }
                let x = self.get(s, base, a);
                let y = self.get(s, base, b);
                let r = self.cmp(*p, *w, &x, &y)?;
                s.regs[(base + d) as usize] = r;
            }
            I::Cast { k, fw, tw, d, a } => {
                let x = self.get(s, base, a);
                let r = self.cast(*k, *fw, *tw, &x)?;
                s.regs[(base + d) as usize] = r;
            }
            I::Load { bits, d, p } => {
                let a = self.get(s, base, p);
                let r = match a {
                    V::C(a) => self.load_bits(s, a, *bits)?,
                    V::S(e) => self.load_sym(s, e, *bits)?,
                    _ => return Err(Err::Engine("load ptr".into())),
                };
                s.regs[(base + d) as usize] = r;
            }
            I::Store { bits, v, p } => {
                let a = self.get(s, base, p);
                let a = self.conc_v(s, &a)?;
                let v = self.get(s, base, v);
                self.store_bits(s, a, *bits, &v)?;
            }
            I::Gep { d, base: b, off, terms } => {
                let mut conc = true;
                let mut acc = match self.getc(s, base, b) {
                    Some(x) => x.wrapping_add(*off as u64),
                    None => {
                        conc = false;
                        0
                    }
                };
                if conc {
                    for (o, w, sc) in terms.iter() {
                        match self.getc(s, base, o) {
                            Some(x) => acc = acc.wrapping_add((sext(x, *w) as u64).wrapping_mul(*sc)),
                            None => {
                                conc = false;
                                break;
                            }
                        }
                    }
                }
                if conc {
                    s.regs[(base + d) as usize] = V::C(acc);
                    return Ok(Flow::Next);
                }
                let bv = self.get(s, base, b);
                let mut e = self.e(&bv, 64);
                let k = self.ex.konst(*off as u64, 64);
                e = self.ex.bin(Bop::Add, 64, e, k);
                for (o, w, sc) in terms.iter() {
                    let v = self.get(s, base, o);
                    let mut x = self.e(&v, *w);
                    if *w < 64 {
                        x = self.ex.sext(x, 64);
                    }
                    let k = self.ex.konst(*sc, 64);
                    x = self.ex.bin(Bop::Mul, 64, x, k);
                    e = self.ex.bin(Bop::Add, 64, x, e);
                }
                s.regs[(base + d) as usize] = self.v(e);
            }
            I::CondBr(c, a, b) => {
                let c = self.get(s, base, c);
                let t = self.decide_v(s, &c)?;
                self.goto(s, if t { *a } else { *b });
                return Ok(Flow::Jump);
            }
            I::Br(a) => {
                self.goto(s, *a);
                return Ok(Flow::Jump);
            }
            I::Switch { v, w, def, cases, ord } => {
                let x = self.get(s, base, v);
                let tgt = match x {
                    V::C(x) => *cases.get(&x).unwrap_or(def),
                    V::S(e) => {
                        // group the cases by target
                        let mut r = *def;
                        let mut done: BTreeSet<u32> = BTreeSet::new();
                        let mut hit = false;
                        for (_, t) in ord.iter() {
                            if !done.insert(*t) {
                                continue;
                            }
                            let mut c = self.ex.konst(0, 1);
                            for (cv, t2) in ord.iter() {
                                if t2 == t {
                                    let k = self.ex.konst(*cv, *w);
                                    let q = self.ex.cmp(Pred::Eq, *w, e, k);
                                    c = self.ex.or(c, q);
                                }
                            }
                            if self.decide(s, c)? {
                                r = *t;
                                hit = true;
                                break;
                            }
                        }
                        let _ = hit;
                        r
                    }
                    _ => return Err(Err::Engine("switch".into())),
                };
                self.goto(s, tgt);
                return Ok(Flow::Jump);
            }
            I::Select { d, c, a, b, ty, vn } => {
                if *vn > 0 {
                    let (n, ew) = match &**ty {
                        Ty::Vec(n, t) => (*n as u32, t.bits()),
                        _ => return Err(Err::Engine("vector select".into())),
                    };
                    let cl = lanes(&self.get(s, base, c), n, 1);
                    let al = lanes(&self.get(s, base, a), n, ew);
                    let bl = lanes(&self.get(s, base, b), n, ew);
                    let mut r = vec![];
                    for i in 0..n as usize {
                        r.push(match &cl[i] {
                            V::C(x) => {
                                if *x != 0 {
                                    al[i].clone()
                                } else {
                                    bl[i].clone()
                                }
                            }
                            V::S(e) => {
                                let x = self.e(&al[i], ew);
                                let y = self.e(&bl[i], ew);
                                let q = self.ex.ite(*e, x, y);
                                self.v(q)
                            }
                            _ => return Err(Err::Engine("select".into())),
                        });
                    }
                    let r = pack(r, n, ew);
                    s.regs[(base + d) as usize] = r;
                    return Ok(Flow::Next);
                }
                let cv = self.get(s, base, c);
                let r = match cv {
                    V::C(x) => self.get(s, base, if x != 0 { a } else { b }),
                    V::S(e) => {
                        let x = self.get(s, base, a);
                        let y = self.get(s, base, b);
                        let int = matches!(**ty, Ty::Int(w) if w <= 64);
                        let scal = matches!(x, V::C(_) | V::S(_)) && matches!(y, V::C(_) | V::S(_));
                        if int && scal {
                            let w = ty.bits();
                            let x = self.e(&x, w);
                            let y = self.e(&y, w);
                            let q = self.ex.ite(e, x, y);
                            self.v(q)
                        } else if self.decide(s, e)? {
                            x
                        } else {
                            y
                        }
                    }
                    _ => return Err(Err::Engine("select cond".into())),
                };
                s.regs[(base + d) as usize] = r;
            }
            I::Alloca { d, size, align } => {
                let fr = s.frames.last_mut().unwrap();
                let a = (fr.sp - size) / align.max(&16) * align.max(&16);
                if a < s.mem.stack_lo + 4096 {
                    return Err(Err::Violation("stack overflow".into(), 0));
                }
                fr.sp = a;
                s.regs[(base + d) as usize] = V::C(a);
            }
            I::Ret(o) => {
                let v = o.as_ref().map(|o| self.get(s, base, o));
                let fr = s.frames.pop().unwrap();
                s.regs.truncate(fr.base as usize);
                let caller = match s.frames.last_mut() {
                    Some(c) => c,
                    None => return Ok(Flow::Jump),
                };
                let cb = caller.base;
                if let Some(v) = v {
                    if fr.dst != u32::MAX {
                        s.regs[(cb + fr.dst) as usize] = v;
                    }
                }
                if fr.normal != u32::MAX {
                    self.goto(s, fr.normal);
                } else {
                    s.frames.last_mut().unwrap().pc += 1;
                }
                return Ok(Flow::Jump);
            }
            I::Call { d, f, args, normal } => return self.call(s, base, d, f, args, normal),
            I::ExtractVal { d, a, idx } => {
                let mut v = self.get(s, base, a);
                for i in idx.iter() {
                    v = match &v {
                        V::A(l) => l[*i as usize].clone(),
                        _ => return Err(Err::Engine("extractvalue".into())),
                    };
                }
                s.regs[(base + d) as usize] = v;
            }
            I::InsertVal { d, a, v, idx, ty: _ } => {
                let agg = self.get(s, base, a);
                let v = self.get(s, base, v);
                fn ins(agg: &V, idx: &[u32], v: V) -> V {
                    if idx.is_empty() {
                        return v;
                    }
                    match agg {
                        V::A(l) => {
                            let mut l = l.as_ref().clone();
                            l[idx[0] as usize] = ins(&l[idx[0] as usize], &idx[1..], v);
                            V::A(Rc::new(l))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&agg, idx, v);
                s.regs[(base + d) as usize] = r;
            }
            I::LoadT { ty, d, p } => {
                let a = self.get(s, base, p);
                let a = self.conc_v(s, &a)?;
                let r = self.load_ty(s, a, ty)?;
                s.regs[(base + d) as usize] = r;
            }
            I::StoreT { ty, v, p } => {
                let a = self.get(s, base, p);
                let a = self.conc_v(s, &a)?;
                let v = self.get(s, base, v);
                self.store_ty(s, a, ty, &v)?;
            }
            I::Mov { d, a } => {
                let v = self.get(s, base, a);
                s.regs[(base + d) as usize] = v;
            }
            I::Nop => {}
            I::BinV { op, n, ew, d, a, b } => {
                let x = lanes(&self.get(s, base, a), *n, *ew);
                let y = lanes(&self.get(s, base, b), *n, *ew);
                let mut r = vec![];
                for i in 0..*n as usize {
                    r.push(self.bin(*op, *ew, &x[i], &y[i])?);
                }
                s.regs[(base + d) as usize] = pack(r, *n, *ew);
            }
            I::IcmpV { p, n, ew, d, a, b } => {
                let x = lanes(&self.get(s, base, a), *n, *ew);
                let y = lanes(&self.get(s, base, b), *n, *ew);
                let mut r = vec![];
                for i in 0..*n as usize {
                    r.push(self.cmp(*p, *ew, &x[i], &y[i])?);
                }
                s.regs[(base + d) as usize] = pack(r, *n, 1);
            }
            I::CastV { k, n, fw, tw, d, a } => {
                let x = lanes(&self.get(s, base, a), *n, *fw);
                let mut r = vec![];
                for v in &x {
                    r.push(self.cast(*k, *fw, *tw, v)?);
                }
                s.regs[(base + d) as usize] = pack(r, *n, *tw);
            }
            I::BitV { from, to, d, a } => {
                let v = self.get(s, base, a);
                let r = self.bitcast(from, to, v)?;
                s.regs[(base + d) as usize] = r;
            }
            I::ExtractEl { d, a, i, n, ew } => {
                let i = self.get(s, base, i);
                let i = self.conc_v(s, &i)?;
                let l = lanes(&self.get(s, base, a), *n, *ew);
                s.regs[(base + d) as usize] = l[i as usize].clone();
            }
            I::InsertEl { d, a, v, i, n, ew } => {
                let i = self.get(s, base, i);
                let i = self.conc_v(s, &i)?;
                let mut l = lanes(&self.get(s, base, a), *n, *ew);
                l[i as usize] = self.get(s, base, v);
                s.regs[(base + d) as usize] = pack(l, *n, *ew);
            }
            I::Shuffle { d, a, b, n, ew, mask } => {
                let x = lanes(&self.get(s, base, a), *n, *ew);
                let y = lanes(&self.get(s, base, b), *n, *ew);
                let r: Vec<V> = mask
                    .iter()
                    .map(|i| {
                        if *i < 0 {
                            V::C(0)
                        } else if (*i as u32) < *n {
                            x[*i as usize].clone()
                        } else {
                            y[*i as usize - *n as usize].clone()
                        }
                    })
                    .collect();
                s.regs[(base + d) as usize] = pack(r, mask.len() as u32, *ew);
            }
            I::CmpXchg { d, bits, p, c, n } => {
                let a = self.get(s, base, p);
                let a = self.conc_v(s, &a)?;
                let old = self.load_bits(s, a, *bits)?;
                let c = self.get(s, base, c);
                let q = self.cmp(Pred::Eq, *bits, &old, &c)?;
                let ok = self.decide_v(s, &q)?;
                if ok {
                    let n = self.get(s, base, n);
                    self.store_bits(s, a, *bits, &n)?;
                }
                s.regs[(base + d) as usize] = V::A(Rc::new(vec![old, V::C(ok as u64)]));
            }
            I::Rmw { op, d, bits, p, v } => {
                let a = self.get(s, base, p);
                let a = self.conc_v(s, &a)?;
                let old = self.load_bits(s, a, *bits)?;
                let x = self.get(s, base, v);
                let new = match op {
                    Rmw::Xchg => x,
                    Rmw::Add => self.bin(Bop::Add, *bits, &old, &x)?,
                    Rmw::Sub => self.bin(Bop::Sub, *bits, &old, &x)?,
                    Rmw::And => self.bin(Bop::And, *bits, &old, &x)?,
                    Rmw::Or => self.bin(Bop::Or, *bits, &old, &x)?,
                    Rmw::Xor => self.bin(Bop::Xor, *bits, &old, &x)?,
                    _ => return Err(Err::Engine("atomicrmw min/max".into())),
                };
                self.store_bits(s, a, *bits, &new)?;
                if *d != u32::MAX {
                    s.regs[(base + d) as usize] = old;
                }
            }
            I::Unreachable => return Err(Err::Violation("unreachable executed".into(), 0)),
            I::Unsupported(m) => return Err(Err::Engine(format!("unsupported instruction {}", m))),
        }
        Ok(Flow::Next)
    }

    fn bitcast(&mut self, from: &Ty, to: &Ty, v: V) -> R<V> {
        if let V::C(_) | V::W(..) = v {
            if from.bits() <= 128 {
                return Ok(v);
            }
        }
        // symbolic lanes
        if let (Ty::Vec(n, t), Ty::Int(_)) = (from, to) {
            let ew = t.bits();
            let l = lanes(&v, *n as u32, ew);
            if *n as u32 * ew > 64 {
                return Err(Err::Engine("bitcast of a wide symbolic vector".into()));
            }
            let mut acc: E = 0;
            for x in l.iter().rev() {
                let e = self.e(x, ew);
                acc = if acc == 0 { e } else { self.ex.cat(acc, e) };
            }
            return Ok(self.v(acc));
        }
        if let (Ty::Vec(n, t), Ty::Vec(m, u)) = (from, to) {
            let (fw, tw) = (t.bits(), u.bits());
            let l = lanes(&v, *n as u32, fw);
            let mut out = vec![];
            if tw <= fw {
                for x in &l {
                    for j in 0..fw / tw {
                        out.push(match x {
                            V::C(c) => V::C(mask(c >> (j * tw), tw)),
                            V::S(e) => {
                                let r = self.ex.ext(*e, j * tw, tw);
                                self.v(r)
                            }
                            _ => unreachable!(),
                        });
                    }
                }
            } else {
                let k = (tw / fw) as usize;
                for ch in l.chunks(k) {
                    let mut acc: E = 0;
                    for x in ch.iter().rev() {
                        let e = self.e(x, fw);
                        acc = if acc == 0 { e } else { self.ex.cat(acc, e) };
                    }
                    out.push(self.v(acc));
                }
            }
            return Ok(pack(out, *m as u32, tw));
        }
        if let (Ty::Int(_), Ty::Vec(m, u)) = (from, to) {
            if let V::S(e) = v {
                let tw = u.bits();
                let mut out = vec![];
                for j in 0..*m as u32 {
                    let r = self.ex.ext(e, j * tw, tw);
                    out.push(self.v(r));
                }
                return Ok(pack(out, *m as u32, tw));
            }
        }
        Err(Err::Engine(format!("bitcast {:?} {:?}", from, to)))
    }

    fn call(&mut self, s: &mut State, base: u32, d: &'static Option<u32>, f: &'static Callee, args: &'static [O], normal: &'static Option<u32>) -> R<Flow> {
        let fi = match f {
            Callee::Direct(i) => *i,
            Callee::Indirect(o) => {
                let v = self.get(s, base, o);
                let a = self.conc_v(s, &v)?;
                if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 >= self.p.funcs.len() as u64 {
                    return Err(Err::Violation(format!("indirect call to {:#x}", a), 0));
                }
                ((a - FUNC_BASE) / 16) as u32
            }
            Callee::Asm => {
                // optimisation barriers (black_box): no effect
                if let Some(d) = d {
                    if let Some(o) = args.first() {
                        let v = self.get(s, base, o);
                        s.regs[(base + d) as usize] = v;
                    }
                }
                if let Some(n) = normal {
                    self.goto(s, *n);
                    return Ok(Flow::Jump);
                }
                return Ok(Flow::Next);
            }
        };
        let sp = self.special[fi as usize];
        let func = &self.p.funcs[fi as usize];
        if sp == Sp::None {
            self.called[fi as usize] = true;
            let mut vals: [V; 8] = Default::default();
            let mut more = vec![];
            for (i, o) in args.iter().enumerate() {
                let v = self.get(s, base, o);
                if i < 8 {
                    vals[i] = v;
                } else {
                    more.push(v);
                }
            }
            let nb = s.regs.len() as u32;
            s.regs.resize(nb as usize + func.nregs as usize, V::C(0));
            let n = (func.nparams as usize).min(args.len());
            for (i, v) in vals.into_iter().take(n).enumerate() {
                s.regs[nb as usize + i] = v;
            }
            for (i, v) in more.into_iter().enumerate() {
                s.regs[nb as usize + 8 + i] = v;
            }
            let spv = s.frames.last().unwrap().sp;
            if s.frames.len() > s.max_frames {
                return Err(Err::Violation("stack overflow (recursion depth)".into(), 0));
            }
            s.frames.push(Frame {
                f: fi,
                pc: func.blocks[0].start,
                cur: 0,
                base: nb,
                sp: spv,
                dst: d.unwrap_or(u32::MAX),
                normal: normal.unwrap_or(u32::MAX),
            });
            return Ok(Flow::Jump);
        }
        let av: Vec<V> = args.iter().map(|o| self.get(s, base, o)).collect();
        let w = func.ret_bits;
        let ret: Option<V> = match self.special_call(s, sp, fi, &av, w, base, d)? {
            Some(r) => r,
            None => None,
        };
        if let (Some(r), Some(d)) = (ret, d) {
            s.regs[(base + d) as usize] = r;
        }
        if let Some(n) = normal {
            self.goto(s, *n);
            return Ok(Flow::Jump);
        }
        Ok(Flow::Next)
    }

    fn scalar_w(name: &str) -> u32 {
        // llvm.umax.i64, llvm.ucmp.i8.i32: the last type suffix
        let t = name.rsplit('.').next().unwrap_or("");
        t.strip_prefix('i').and_then(|x| x.parse().ok()).unwrap_or(0)
    }

    #[allow(clippy::too_many_arguments)]
    fn special_call(&mut self, s: &mut State, sp: Sp, fi: u32, a: &[V], rw: u32, base: u32, d: &Option<u32>) -> R<Option<Option<V>>> {
        let name = &self.p.funcs[fi as usize].name;
        macro_rules! c {
            ($i:expr) => {
                self.conc_v(s, &a[$i])?
            };
        }
        let r: Option<V> = match sp {
            Sp::None => unreachable!(),
            Sp::Undef => {
                return Err(Err::Engine(format!("call of unmodelled external {}", name)));
            }
            Sp::SymU8 => {
                let (v, e) = self.ex.new_var_at(s.doms.len() as u32, 8);
                s.doms.resize(v as usize + 1, FULL);
                s.model.resize(v as usize + 1, 0);
                s.inputs.push(In::Var(v));
                Some(V::S(e))
            }
            Sp::SymU32 => {
                let (v, e) = self.ex.new_var_at(s.doms.len() as u32, 32);
                s.doms.resize(v as usize + 1, FULL);
                s.model.resize(v as usize + 1, 0);
                s.inputs.push(In::Var(v));
                Some(V::S(e))
            }
            Sp::SymChoice => {
                let n = c!(0);
                if n == 0 {
                    return Err(Err::Drop);
                }
                for k in (1..n).rev() {
                    self.st.forks += 1;
                    let mut o = s.clone();
                    o.inputs.push(In::Choice(k));
                    if let Some(d) = d {
                        o.regs[(base + d) as usize] = V::C(k);
                    }
                    o.frames.last_mut().unwrap().pc += 1;
                    self.work.push(o);
                }
                s.inputs.push(In::Choice(0));
                Some(V::C(0))
            }
            Sp::SymAssume => {
                match &a[0] {
                    V::C(0) => return Err(Err::Drop),
                    V::C(_) => {}
                    V::S(e) => {
                        let e = self.ex.restrict(*e, &s.doms);
                        if let Some(x) = self.ex.is_const(e) {
                            if x == 0 {
                                return Err(Err::Drop);
                            }
                        } else {
                            let simple = matches!(self.ex.nodes[e as usize], N::Tab(v, _, _) if s.ent >> v & 1 == 0);
                            if simple {
                                self.add(s, e, true);
                                if let N::Tab(v, _, _) = self.ex.nodes[e as usize] {
                                    let dm = s.doms[v as usize];
                                    if dom_empty(&dm) {
                                        return Err(Err::Drop);
                                    }
                                    if !dom_has(&dm, s.model[v as usize]) {
                                        s.model[v as usize] = dom_first(&dm);
                                    }
                                }
                            } else if self.ex.eval(e, &s.model) != 0 {
                                self.add(s, e, true);
                            } else {
                                let vars = self.ex.vars_of[e as usize];
                                match self.query(s, &[e], vars, false)? {
                                    None => return Err(Err::Drop),
                                    Some(m) => {
                                        self.set_model(s, &m);
                                        self.add(s, e, true);
                                    }
                                }
                            }
                        }
                    }
                    _ => return Err(Err::Engine("assume".into())),
                }
                None
            }
            Sp::SymAssert => {
                self.st.asserts += 1;
                let code = c!(1);
                match &a[0] {
                    V::C(0) => return Err(Err::Violation(format!("assertion {}", code), code)),
                    V::C(_) => self.st.asserts_const += 1,
                    V::S(e) => {
                        let e0 = *e;
                        let e = self.ex.restrict(e0, &s.doms);
                        if matches!(self.ex.nodes[e as usize], N::Const(1, _)) {
                            // decided by propagating the path's constraints; the solver is asked the
                            // unsimplified question for the first ones
                            if self.st.confirmed < self.confirm_max && self.st.confirm_s < self.confirm_time {
                                let t0 = std::time::Instant::now();
                                let neg = self.ex.not(e0);
                                let vars = self.ex.vars_of[neg as usize];
                                if self.query(s, &[neg], vars, true)?.is_some() {
                                    return Err(Err::Engine("propagation and solver disagree".into()));
                                }
                                self.st.confirmed += 1;
                                self.st.confirm_s += t0.elapsed().as_secs_f64();
                            } else {
                                self.st.asserts_prop += 1;
                            }
                            return Ok(Some(None));
                        }
                        let neg = self.ex.not(e);
                        let vars = self.ex.vars_of[neg as usize];
                        if let Some(m) = self.query(s, &[neg], vars, true)? {
                            // counterexample
                            let mut o = s.clone();
                            self.set_model(&mut o, &m);
                            self.record(&o, format!("assertion {}", code), code);
                            // the rest of the path continues where it holds
                            if self.viols.len() >= self.max_viols {
                                return Err(Err::Drop);
                            }
                            match self.query(s, &[e], vars, false)? {
                                None => return Err(Err::Drop),
                                Some(m) => {
                                    self.set_model(s, &m);
                                    let e2 = self.ex.restrict(e, &s.doms);
                                    self.add(s, e2, true);
                                }
                            }
                        }
                    }
                    _ => return Err(Err::Engine("assert".into())),
                }
                None
            }
            Sp::SymCover => {
                let id = c!(0);
                *self.st.covers.entry(id).or_insert(0) += 1;
                s.covers.push(id);
                None
            }
            Sp::SymRefusal => {
                s.refusal = c!(0) != 0;
                None
            }
            Sp::SymLut => {
                s.lut = c!(0) != 0;
                None
            }
            Sp::SymArg => {
                let i = c!(0);
                if i & !15 == 0xffff_ffe0 {
                    // a bound on the depth of the stack
                    s.max_frames = s.frames.len() + 150 + 250 * (i as usize & 15);
                    return Ok(Some(Some(V::C(0))));
                }
                if i >= 0xffff_fff0 {
                    // select the hash mode
                    s.hash_mode = i & 15;
                    return Ok(Some(Some(V::C(0))));
                }
                Some(V::C(self.args.get(i as usize).copied().unwrap_or(0)))
            }
            Sp::SymNote => {
                let p = c!(0);
                let n = c!(1);
                let mut t = vec![];
                for i in 0..n.min(400) {
                    t.push(s.mem.byte(p + i)?.0);
                }
                s.notes.push(String::from_utf8_lossy(&t).to_string());
                None
            }
            Sp::SymHashMode => Some(V::C(s.hash_mode)),
            Sp::Panic => {
                if s.refusal {
                    return Err(Err::Refused);
                }
                let mut loc = String::new();
                // #[track_caller] location: the last pointer argument
                if let Some(V::C(p)) = a.last() {
                    if let (Ok(Some(fp)), Ok(Some(fl)), Ok(Some(line))) = (s.mem.read(*p, 8), s.mem.read(*p + 8, 8), s.mem.read(*p + 16, 4)) {
                        if fl < 300 {
                            let mut t = vec![];
                            for i in 0..fl {
                                if let Ok((b, _)) = s.mem.byte(fp + i) {
                                    t.push(b);
                                }
                            }
                            loc = format!(" at {}:{}", String::from_utf8_lossy(&t), line);
                        }
                    }
                }
                return Err(Err::Violation(format!("panic{}", loc), 0));
            }
            Sp::Abort => return Err(Err::Violation("abort".into(), 0)),
            Sp::Nop => None,
            Sp::Zero => Some(V::C(0)),
            Sp::Malloc => {
                let n = c!(0);
                Some(V::C(self.alloc(s, n, 16)?))
            }
            Sp::Calloc => {
                let n = c!(0) * c!(1);
                Some(V::C(self.alloc(s, n, 16)?))
            }
            Sp::RustAlloc | Sp::RustAllocZeroed => {
                let n = c!(0);
                let al = c!(1);
                Some(V::C(self.alloc(s, n, al)?))
            }
            Sp::Free | Sp::RustDealloc => None,
            Sp::Realloc => {
                let p = c!(0);
                let n = c!(1);
                let old = if p == 0 { 0 } else { s.mem.read(p - 8, 8)?.unwrap_or(0) };
                Some(V::C(self.realloc(s, p, old, n, 16)?))
            }
            Sp::RustRealloc => {
                let p = c!(0);
                let old = c!(1);
                let al = c!(2);
                let n = c!(3);
                Some(V::C(self.realloc(s, p, old, n, al)?))
            }
            Sp::PosixMemalign => {
                let pp = c!(0);
                let al = c!(1);
                let n = c!(2);
                let x = self.alloc(s, n, al)?;
                s.mem.write(pp, 8, x)?;
                Some(V::C(0))
            }
            Sp::Memcpy => {
                let n = c!(2);
                let dst = c!(0);
                let src = c!(1);
                s.mem.copy(dst, src, n)?;
                Some(V::C(dst))
            }
            Sp::Memset => {
                let n = c!(2);
                let dst = c!(0);
                match &a[1] {
                    V::C(b) => s.mem.fill(dst, *b as u8, n)?,
                    V::S(e) => {
                        let e = self.ex.ext(*e, 0, 8);
                        for i in 0..n {
                            s.mem.write_sym(dst + i, e)?;
                        }
                    }
                    _ => return Err(Err::Engine("memset".into())),
                }
                Some(V::C(dst))
            }
            Sp::Bcmp | Sp::Memcmp => {
                let n = c!(2);
                let p = c!(0);
                let q = c!(1);
                // fast concrete prefix
                let mut i = 0;
                let mut res: Option<i32> = None;
                while i < n {
                    let x = s.mem.byte(p + i)?;
                    let y = s.mem.byte(q + i)?;
                    if x.1 == 0 && y.1 == 0 {
                        if x.0 != y.0 {
                            res = Some(if x.0 < y.0 { -1 } else { 1 });
                            break;
                        }
                    } else if x.1 != y.1 {
                        break;
                    }
                    i += 1;
                }
                if i == n {
                    res = Some(0);
                }
                if let Some(r) = res {
                    Some(V::C(mask(r as i64 as u64, 32)))
                } else {
                    // from the last byte to byte i
                    let zero = self.ex.konst(0, 32);
                    let one = self.ex.konst(1, 32);
                    let m1 = self.ex.konst(0xffff_ffff, 32);
                    let mut acc = zero;
                    for j in (i..n).rev() {
                        let x = s.mem.byte(p + j)?;
                        let y = s.mem.byte(q + j)?;
                        let xe = if x.1 != 0 { x.1 } else { self.ex.konst(x.0 as u64, 8) };
                        let ye = if y.1 != 0 { y.1 } else { self.ex.konst(y.0 as u64, 8) };
                        let eq = self.ex.cmp(Pred::Eq, 8, xe, ye);
                        let ne_val = if sp == Sp::Bcmp {
                            one
                        } else {
                            let lt = self.ex.cmp(Pred::Ult, 8, xe, ye);
                            self.ex.ite(lt, m1, one)
                        };
                        acc = self.ex.ite(eq, acc, ne_val);
                    }
                    Some(self.v(acc))
                }
            }
            Sp::Strlen => {
                let p = c!(0);
                let mut n = 0;
                while s.mem.byte(p + n)?.0 != 0 {
                    n += 1;
                }
                Some(V::C(n))
            }
            Sp::Getrandom => {
                let p = c!(0);
                let n = c!(1);
                s.mem.fill(p, 0, n)?;
                Some(V::C(n))
            }
            Sp::Ret0Arg => Some(a[0].clone()),
            Sp::Umax | Sp::Umin | Sp::Smax | Sp::Smin => {
                let w = Self::scalar_w(name);
                if let Some((n, ew)) = Self::vec_suffix(name) {
                    let x = lanes(&a[0], n, ew);
                    let y = lanes(&a[1], n, ew);
                    let mut r = vec![];
                    for i in 0..n as usize {
                        r.push(self.minmax(sp, ew, &x[i], &y[i])?);
                    }
                    Some(pack(r, n, ew))
                } else {
                    Some(self.minmax(sp, w, &a[0], &a[1])?)
                }
            }
            Sp::Usubsat => {
                let w = Self::scalar_w(name);
                let lt = self.cmp(Pred::Ult, w, &a[0], &a[1])?;
                let df = self.bin(Bop::Sub, w, &a[0], &a[1])?;
                Some(self.ite_v(w, &lt, &V::C(0), &df)?)
            }
            Sp::Uaddsat => {
                let w = Self::scalar_w(name);
                let sm = self.bin(Bop::Add, w, &a[0], &a[1])?;
                let lt = self.cmp(Pred::Ult, w, &sm, &a[0])?;
                Some(self.ite_v(w, &lt, &V::C(mask(u64::MAX, w)), &sm)?)
            }
            Sp::Uaddo => {
                let w = Self::scalar_w(name);
                let sm = self.bin(Bop::Add, w, &a[0], &a[1])?;
                let lt = self.cmp(Pred::Ult, w, &sm, &a[0])?;
                Some(V::A(Rc::new(vec![sm, lt])))
            }
            Sp::Usubo => {
                let w = Self::scalar_w(name);
                let sm = self.bin(Bop::Sub, w, &a[0], &a[1])?;
                let lt = self.cmp(Pred::Ult, w, &a[0], &a[1])?;
                Some(V::A(Rc::new(vec![sm, lt])))
            }
            Sp::Umulo => {
                let w = Self::scalar_w(name);
                let r = self.bin(Bop::Mul, w, &a[0], &a[1])?;
                let o = match (&a[0], &a[1]) {
                    (V::C(x), V::C(y)) => V::C(((*x as u128 * *y as u128) >> w != 0) as u64),
                    (V::C(0), _) | (_, V::C(0)) => V::C(0),
                    (V::C(k), x) | (x, V::C(k)) => {
                        let lim = mask(u64::MAX, w) / k;
                        self.cmp(Pred::Ugt, w, x, &V::C(lim))?
                    }
                    (x, y) if w <= 32 => {
                        let x = self.cast(Cast::ZExt, w, 64, x)?;
                        let y = self.cast(Cast::ZExt, w, 64, y)?;
                        let m = self.bin(Bop::Mul, 64, &x, &y)?;
                        self.cmp(Pred::Ugt, 64, &m, &V::C(mask(u64::MAX, w)))?
                    }
                    _ => return Err(Err::Engine("umul.with.overflow".into())),
                };
                Some(V::A(Rc::new(vec![r, o])))
            }
            Sp::Saddo | Sp::Ssubo => {
                let w = Self::scalar_w(name);
                let op = if sp == Sp::Saddo { Bop::Add } else { Bop::Sub };
                let r = self.bin(op, w, &a[0], &a[1])?;
                // overflow: for a+b: (a^r)&(b^r) < 0; for a-b: (a^b)&(a^r) < 0
                let x = self.bin(Bop::Xor, w, &a[0], &r)?;
                let y = if sp == Sp::Saddo {
                    self.bin(Bop::Xor, w, &a[1], &r)?
                } else {
                    self.bin(Bop::Xor, w, &a[0], &a[1])?
                };
                let z = self.bin(Bop::And, w, &x, &y)?;
                let o = self.cmp(Pred::Slt, w, &z, &V::C(0))?;
                Some(V::A(Rc::new(vec![r, o])))
            }
            Sp::Smulo => {
                let w = Self::scalar_w(name);
                match (&a[0], &a[1]) {
                    (V::C(x), V::C(y)) => {
                        let p = sext(*x, w) as i128 * sext(*y, w) as i128;
                        let r = mask(p as u64, w);
                        Some(V::A(Rc::new(vec![V::C(r), V::C((sext(r, w) as i128 != p) as u64)])))
                    }
                    _ => return Err(Err::Engine("smul.with.overflow".into())),
                }
            }
            Sp::Ctlz | Sp::Cttz | Sp::Ctpop | Sp::Bswap | Sp::Bitreverse => {
                let w = Self::scalar_w(name);
                let f = move |x: u64| -> u64 {
                    match sp {
                        Sp::Ctlz => {
                            if x == 0 {
                                w as u64
                            } else {
                                (x.leading_zeros() - (64 - w)) as u64
                            }
                        }
                        Sp::Cttz => {
                            if x == 0 {
                                w as u64
                            } else {
                                x.trailing_zeros() as u64
                            }
                        }
                        Sp::Ctpop => x.count_ones() as u64,
                        Sp::Bswap => x.swap_bytes() >> (64 - w),
                        _ => x.reverse_bits() >> (64 - w),
                    }
                };
                match &a[0] {
                    V::C(x) => Some(V::C(f(*x))),
                    V::S(e) => {
                        if let Some((v, t)) = self.ex.tab_of(*e) {
                            let mut r = [0u64; 256];
                            for i in 0..256 {
                                r[i] = f(t[i]);
                            }
                            let x = self.ex.mk_tab(v, r, w);
                            Some(self.v(x))
                        } else {
                            Some(self.bitfn(sp, w, *e)?)
                        }
                    }
                    _ => return Err(Err::Engine("bit intrinsic".into())),
                }
            }
            Sp::Fshl | Sp::Fshr => {
                let w = Self::scalar_w(name);
                let sh = match &a[2] {
                    V::C(x) => *x % w as u64,
                    _ => c!(2) % w as u64,
                };
                if sh == 0 {
                    Some(if sp == Sp::Fshl { a[0].clone() } else { a[1].clone() })
                } else {
                    let (l, r) = if sp == Sp::Fshl { (sh, w as u64 - sh) } else { (w as u64 - sh, sh) };
                    let x = self.bin(Bop::Shl, w, &a[0], &V::C(l))?;
                    let y = self.bin(Bop::LShr, w, &a[1], &V::C(r))?;
                    Some(self.bin(Bop::Or, w, &x, &y)?)
                }
            }
            Sp::Abs => {
                let w = Self::scalar_w(name);
                let neg = self.cmp(Pred::Slt, w, &a[0], &V::C(0))?;
                let m = self.bin(Bop::Sub, w, &V::C(0), &a[0])?;
                Some(self.ite_v(w, &neg, &m, &a[0])?)
            }
            Sp::Ucmp | Sp::Scmp => {
                let w = Self::scalar_w(name);
                let (lt, gt) = if sp == Sp::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.cmp(lt, w, &a[0], &a[1])?;
                let g = self.cmp(gt, w, &a[0], &a[1])?;
                let x = self.ite_v(rw, &g, &V::C(1), &V::C(0))?;
                Some(self.ite_v(rw, &l, &V::C(mask(u64::MAX, rw)), &x)?)
            }
        };
        Ok(Some(r))
    }
    fn vec_suffix(name: &str) -> Option<(u32, u32)> {
        let t = name.rsplit('.').next()?;
        let t = t.strip_prefix('v')?;
        let (n, e) = t.split_once('i')?;
        Some((n.parse().ok()?, e.parse().ok()?))
    }
    fn minmax(&mut self, sp: Sp, w: u32, a: &V, b: &V) -> R<V> {
        let p = match sp {
            Sp::Umax => Pred::Ugt,
            Sp::Umin => Pred::Ult,
            Sp::Smax => Pred::Sgt,
            _ => Pred::Slt,
        };
        let c = self.cmp(p, w, a, b)?;
        self.ite_v(w, &c, a, b)
    }
    fn ite_v(&mut self, w: u32, c: &V, a: &V, b: &V) -> R<V> {
        Ok(match c {
            V::C(x) => {
                if *x != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            V::S(e) => {
                let x = self.e(a, w);
                let y = self.e(b, w);
                let r = self.ex.ite(*e, x, y);
                self.v(r)
            }
            _ => return Err(Err::Engine("ite".into())),
        })
    }
    /// bit-counting functions of a general expression
    fn bitfn(&mut self, sp: Sp, w: u32, e: E) -> R<V> {
        let ex = &mut self.ex;
        let bit = |ex: &mut Exprs, i: u32| ex.ext(e, i, 1);
        let r = match sp {
            Sp::Ctpop => {
                let mut acc = ex.konst(0, w);
                for i in 0..w {
                    let b = bit(ex, i);
                    let b = ex.zext(b, w);
                    acc = ex.bin(Bop::Add, w, acc, b);
                }
                acc
            }
            Sp::Cttz => {
                let mut acc = ex.konst(w as u64, w);
                for i in (0..w).rev() {
                    let b = bit(ex, i);
                    let k = ex.konst(i as u64, w);
                    acc = ex.ite(b, k, acc);
                }
                acc
            }
            Sp::Ctlz => {
                let mut acc = ex.konst(w as u64, w);
                for i in 0..w {
                    let b = bit(ex, i);
                    let k = ex.konst((w - 1 - i) as u64, w);
                    acc = ex.ite(b, k, acc);
                }
                acc
            }
            _ => {
                // bswap / bitreverse
                let g = if sp == Sp::Bswap { 8 } else { 1 };
                let mut acc = ex.ext(e, 0, g);
                for i in 1..w / g {
                    let b = ex.ext(e, i * g, g);
                    acc = ex.cat(acc, b);
                }
                acc
            }
        };
        Ok(self.v(r))
    }
}

impl Default for V {
    fn default() -> Self {
        V::C(0)
    }
}
