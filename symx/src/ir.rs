//! Internal representation of the LLVM IR subset rustc emits.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool), // fields, packed
    Other,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    if a <= 1 {
        x
    } else {
        (x + a - 1) / a * a
    }
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(b) => *b,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(b) => match *b {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// bytes written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(b) => ((*b + 7) / 8) as u64,
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for f in fs {
                    if !*packed {
                        off = align_up(off, f.align());
                    }
                    off += f.size();
                }
                if !*packed {
                    off = align_up(off, self.align());
                }
                off
            }
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        align_up(self.store_size(), self.align())
    }
    pub fn field_off(&self, idx: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (i, f) in fs.iter().enumerate() {
                    if !*packed {
                        off = align_up(off, f.align());
                    }
                    if i == idx {
                        return off;
                    }
                    off += f.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) => idx as u64 * t.size(),
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn field_ty(&self, idx: usize) -> &Ty {
        match self {
            Ty::Struct(fs, _) => &fs[idx],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("field_ty on {:?}", self),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..))
    }
}

/// A runtime value.
#[derive(Clone, Debug)]
pub enum V {
    /// concrete, at most 64 bits, masked to its width
    C(u64),
    /// concrete, 65..128 bits
    W(u64, u64),
    /// symbolic expression
    S(u32),
    /// aggregate or vector with lanes
    A(Rc<Vec<V>>),
}

impl V {
    pub fn wide(x: u128, bits: u32) -> V {
        let x = if bits >= 128 { x } else { x & ((1u128 << bits) - 1) };
        if bits <= 64 {
            V::C(x as u64)
        } else {
            V::W(x as u64, (x >> 64) as u64)
        }
    }
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(u64),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Bit, // ptrtoint, inttoptr, bitcast (scalar, same width)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(O),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Bop, w: u32, d: u32, a: O, b: O },
    BinV { op: Bop, n: u32, ew: u32, d: u32, a: O, b: O },
    Icmp { p: Pred, w: u32, d: u32, a: O, b: O },
    IcmpV { p: Pred, n: u32, ew: u32, d: u32, a: O, b: O },
    Cast { k: Cast, fw: u32, tw: u32, d: u32, a: O },
    CastV { k: Cast, n: u32, fw: u32, tw: u32, d: u32, a: O },
    /// bitcast between types of equal bit size where at least one is a vector
    BitV { from: Box<Ty>, to: Box<Ty>, d: u32, a: O },
    Load { bits: u32, d: u32, p: O },
    LoadT { ty: Box<Ty>, d: u32, p: O },
    Store { bits: u32, v: O, p: O },
    StoreT { ty: Box<Ty>, v: O, p: O },
    Gep { d: u32, base: O, off: i64, terms: Box<[(O, u32, u64)]> }, // idx, idx width, scale
    Alloca { d: u32, size: u64, align: u64 },
    Select { d: u32, c: O, a: O, b: O, ty: Box<Ty>, vn: u32 },
    Br(u32),
    CondBr(O, u32, u32),
    Switch { v: O, w: u32, def: u32, cases: Rc<HashMap<u64, u32>>, ord: Rc<Vec<(u64, u32)>> },
    Ret(Option<O>),
    Call { d: Option<u32>, f: Callee, args: Box<[O]>, normal: Option<u32> },
    ExtractVal { d: u32, a: O, idx: Box<[u32]> },
    InsertVal { d: u32, a: O, v: O, idx: Box<[u32]>, ty: Box<Ty> },
    ExtractEl { d: u32, a: O, i: O, n: u32, ew: u32 },
    InsertEl { d: u32, a: O, v: O, i: O, n: u32, ew: u32 },
    Shuffle { d: u32, a: O, b: O, n: u32, ew: u32, mask: Box<[i32]> },
    CmpXchg { d: u32, bits: u32, p: O, c: O, n: O },
    Rmw { op: Rmw, d: u32, bits: u32, p: O, v: O },
    Mov { d: u32, a: O },
    Nop,
    Unreachable,
    Unsupported(Box<str>),
}

#[derive(Debug)]
pub struct Phi {
    pub d: u32,
    pub inc: Vec<(u32, O)>, // predecessor block, value
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub start: u32,
}

pub struct Func {
    pub name: String,
    pub pretty: Option<String>,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub code: Vec<I>,
    pub defined: bool,
    pub ret_bits: u32,
    /// byte range of the body in the source text, parsed lazily
    pub body: Option<(usize, usize)>,
    pub param_names: Vec<String>,
}

#[derive(Default)]
pub struct Program {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub consts: Vec<V>,
    pub gaddr: HashMap<String, u64>,
    pub globals: Vec<(u64, Vec<u8>)>,
    pub types: HashMap<String, Ty>,
}

pub const FUNC_BASE: u64 = 0x1000;
pub fn func_addr(i: u32) -> u64 {
    FUNC_BASE + (i as u64) * 16
}
