//! Parser for the textual LLVM IR that rustc emits (LLVM 23 syntax).
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> {
    Local(&'a str),
    Global(&'a str),
    Word(&'a str),
    Int(&'a str),
    Str(&'a str), // raw inside quotes
    CStr(&'a str),
    P(u8),
    Meta, // !... consumed
    Attr, // #N
    Eof,
}

pub struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    pub pos: usize,
    pub end: usize,
    peeked: Option<(T<'a>, usize)>,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str, pos: usize, end: usize) -> Self {
        Lex { s, b: s.as_bytes(), pos, end, peeked: None }
    }
    pub fn peek(&mut self) -> T<'a> {
        if self.peeked.is_none() {
            let st = self.pos;
            let t = self.lex();
            self.peeked = Some((t, st));
        }
        self.peeked.as_ref().unwrap().0.clone()
    }
    /// position of the next unconsumed token
    pub fn at(&self) -> usize {
        match &self.peeked {
            Some((_, st)) => *st,
            None => self.pos,
        }
    }
    pub fn next(&mut self) -> T<'a> {
        if let Some((t, _)) = self.peeked.take() {
            return t;
        }
        self.lex()
    }
    fn quoted(&mut self) -> &'a str {
        // self.pos at char after opening quote
        let st = self.pos;
        while self.b[self.pos] != b'"' {
            self.pos += 1;
        }
        let r = &self.s[st..self.pos];
        self.pos += 1;
        r
    }
    fn lex(&mut self) -> T<'a> {
        loop {
            if self.pos >= self.end {
                return T::Eof;
            }
            let c = self.b[self.pos];
            if c == b';' {
                while self.pos < self.end && self.b[self.pos] != b'\n' {
                    self.pos += 1;
                }
                continue;
            }
            if c.is_ascii_whitespace() {
                self.pos += 1;
                continue;
            }
            break;
        }
        let c = self.b[self.pos];
        self.pos += 1;
        match c {
            b'%' | b'@' => {
                let name = if self.b[self.pos] == b'"' {
                    self.pos += 1;
                    self.quoted()
                } else {
                    let st = self.pos;
                    while self.pos < self.end && is_id(self.b[self.pos]) {
                        self.pos += 1;
                    }
                    &self.s[st..self.pos]
                };
                if c == b'%' {
                    T::Local(name)
                } else {
                    T::Global(name)
                }
            }
            b'!' => {
                // !123, !name, !{...}, !DIxxx(...)
                if self.pos < self.end && (is_id(self.b[self.pos])) {
                    while self.pos < self.end && is_id(self.b[self.pos]) {
                        self.pos += 1;
                    }
                    if self.b[self.pos] == b'(' {
                        self.skip_balanced();
                    }
                } else if self.b[self.pos] == b'{' {
                    self.skip_balanced();
                } else if self.b[self.pos] == b'"' {
                    self.pos += 1;
                    self.quoted();
                }
                T::Meta
            }
            b'#' => {
                while self.pos < self.end && is_id(self.b[self.pos]) {
                    self.pos += 1;
                }
                T::Attr
            }
            b'"' => T::Str(self.quoted()),
            b'c' if self.b[self.pos] == b'"' => {
                self.pos += 1;
                T::CStr(self.quoted())
            }
            b'-' | b'0'..=b'9' => {
                let st = self.pos - 1;
                while self.pos < self.end && is_id(self.b[self.pos]) {
                    self.pos += 1;
                }
                T::Int(&self.s[st..self.pos])
            }
            c if is_id(c) => {
                let st = self.pos - 1;
                while self.pos < self.end && is_id(self.b[self.pos]) {
                    self.pos += 1;
                }
                T::Word(&self.s[st..self.pos])
            }
            c => T::P(c),
        }
    }
    /// at an opening bracket (raw position); skips to after its closing one
    fn skip_balanced(&mut self) {
        let mut depth = 0;
        loop {
            let c = self.b[self.pos];
            self.pos += 1;
            match c {
                b'(' | b'{' | b'[' => depth += 1,
                b')' | b'}' | b']' => {
                    depth -= 1;
                    if depth == 0 {
                        return;
                    }
                }
                b'"' => {
                    self.quoted();
                }
                _ => {}
            }
        }
    }
    pub fn is(&mut self, c: u8) -> bool {
        self.peek() == T::P(c)
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn exp(&mut self, c: u8) {
        let t = self.next();
        if t != T::P(c) {
            let p = self.pos.min(self.s.len());
            let st = p.saturating_sub(300);
            panic!("expected '{}' got {:?} near ...{}", c as char, t, &self.s[st..p]);
        }
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        if self.peek() == T::Word(w) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn skip_paren_group(&mut self) {
        // next token must be '('
        self.exp(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::Eof => panic!("eof"),
                _ => {}
            }
        }
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut r = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                r.push(b'\\');
                i += 2;
            } else {
                let h = u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap();
                r.push(h);
                i += 3;
            }
        } else {
            r.push(b[i]);
            i += 1;
        }
    }
    r
}

pub fn mask(x: u64, bits: u32) -> u64 {
    if bits >= 64 {
        x
    } else {
        x & ((1u64 << bits) - 1)
    }
}

impl Program {
    pub fn parse_ty(&self, lx: &mut Lex) -> Ty {
        let t = lx.next();
        let base = match t {
            T::Word("void") => Ty::Void,
            T::Word("ptr") => {
                if lx.peek() == T::Word("addrspace") {
                    lx.next();
                    lx.skip_paren_group();
                }
                Ty::Ptr
            }
            T::Word("float") => Ty::Float,
            T::Word("double") => Ty::Double,
            T::Word("metadata") | T::Word("label") | T::Word("token") | T::Word("x86_fp80")
            | T::Word("half") | T::Word("fp128") => Ty::Other,
            T::Word(w) if w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) => {
                Ty::Int(w[1..].parse().unwrap())
            }
            T::Local(n) => self.types.get(n).cloned().unwrap_or(Ty::Other),
            T::P(b'[') => {
                let n: u64 = match lx.next() {
                    T::Int(s) => s.parse().unwrap(),
                    t => panic!("arr len {:?}", t),
                };
                assert!(lx.eat_word("x"));
                let e = self.parse_ty(lx);
                lx.exp(b']');
                Ty::Arr(n, Rc::new(e))
            }
            T::P(b'<') => {
                if lx.is(b'{') {
                    lx.next();
                    let fs = self.parse_fields(lx);
                    lx.exp(b'>');
                    Ty::Struct(fs, true)
                } else {
                    let n: u64 = match lx.next() {
                        T::Int(s) => s.parse().unwrap(),
                        t => panic!("vec len {:?}", t),
                    };
                    assert!(lx.eat_word("x"));
                    let e = self.parse_ty(lx);
                    lx.exp(b'>');
                    Ty::Vec(n, Rc::new(e))
                }
            }
            T::P(b'{') => Ty::Struct(self.parse_fields(lx), false),
            t => panic!("type expected, got {:?} at {}", t, lx.pos),
        };
        base
    }
    fn parse_fields(&self, lx: &mut Lex) -> Vec<Ty> {
        let mut fs = vec![];
        if lx.eat(b'}') {
            return fs;
        }
        loop {
            fs.push(self.parse_ty(lx));
            if lx.eat(b'}') {
                return fs;
            }
            lx.exp(b',');
        }
    }

    fn gsym(&self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) {
            *a
        } else if let Some(i) = self.fidx.get(n) {
            func_addr(*i)
        } else {
            0 // external data symbol we do not model (weak externs etc.)
        }
    }

    pub fn zero(&self, ty: &Ty) -> V {
        match ty {
            Ty::Arr(n, t) => V::A(Rc::new((0..*n).map(|_| self.zero(t)).collect())),
            Ty::Struct(fs, _) => V::A(Rc::new(fs.iter().map(|f| self.zero(f)).collect())),
            Ty::Vec(..) => {
                if ty.bits() <= 128 {
                    V::wide(0, ty.bits())
                } else {
                    V::A(Rc::new((0..ty.bits() / ty.field_ty(0).bits()).map(|_| V::C(0)).collect()))
                }
            }
            _ => V::wide(0, ty.bits().max(1)),
        }
    }

    fn pack_vec(&self, ty: &Ty, els: Vec<V>) -> V {
        let ew = ty.field_ty(0).bits();
        if ty.bits() <= 128 && els.iter().all(|e| matches!(e, V::C(_))) {
            let mut x: u128 = 0;
            for (i, e) in els.iter().enumerate() {
                if let V::C(c) = e {
                    x |= (*c as u128) << (i as u32 * ew);
                }
            }
            V::wide(x, ty.bits())
        } else {
            V::A(Rc::new(els))
        }
    }

    /// constant (no locals)
    pub fn parse_const(&self, lx: &mut Lex, ty: &Ty) -> V {
        match lx.next() {
            T::Int(s) => {
                let bits = ty.bits();
                if matches!(ty, Ty::Float | Ty::Double) || s.contains('.') || s.starts_with("0x") {
                    return V::C(0);
                }
                if let Some(r) = s.strip_prefix('-') {
                    let x: u128 = r.parse().unwrap();
                    V::wide((!x).wrapping_add(1), bits)
                } else {
                    let x: u128 = s.parse().unwrap();
                    V::wide(x, bits)
                }
            }
            T::Word("true") => V::C(1),
            T::Word("false") => V::C(0),
            T::Word("null") => V::C(0),
            T::Word("undef") | T::Word("poison") | T::Word("zeroinitializer") | T::Word("none") => {
                self.zero(ty)
            }
            T::Word("splat") => {
                lx.exp(b'(');
                let et = self.parse_ty(lx);
                let v = self.parse_const(lx, &et);
                lx.exp(b')');
                let n = match ty {
                    Ty::Vec(n, _) => *n,
                    _ => panic!(),
                };
                self.pack_vec(ty, vec![v; n as usize])
            }
            T::Global(n) => V::C(self.gsym(n)),
            T::CStr(s) => V::A(Rc::new(unescape(s).into_iter().map(|b| V::C(b as u64)).collect())),
            T::P(b'{') => V::A(Rc::new(self.parse_list(lx, b'}'))),
            T::P(b'[') => V::A(Rc::new(self.parse_list(lx, b']'))),
            T::P(b'<') => {
                if lx.is(b'{') {
                    lx.next();
                    let l = self.parse_list(lx, b'}');
                    lx.exp(b'>');
                    V::A(Rc::new(l))
                } else {
                    let l = self.parse_list(lx, b'>');
                    self.pack_vec(ty, l)
                }
            }
            T::Word("getelementptr") => {
                while !lx.is(b'(') {
                    lx.next();
                }
                lx.exp(b'(');
                let sty = self.parse_ty(lx);
                lx.exp(b',');
                let bt = self.parse_ty(lx);
                let base = match self.parse_const(lx, &bt) {
                    V::C(x) => x,
                    _ => panic!(),
                };
                let mut off: i64 = 0;
                let mut cur = sty.clone();
                let mut first = true;
                while lx.eat(b',') {
                    let it = self.parse_ty(lx);
                    let iv = match self.parse_const(lx, &it) {
                        V::C(x) => sext(x, it.bits()),
                        _ => panic!(),
                    };
                    if first {
                        off += iv * sty.size() as i64;
                        first = false;
                    } else {
                        off += cur.field_off_const(iv as usize) as i64;
                        cur = cur.field_ty(iv as usize).clone();
                    }
                }
                lx.exp(b')');
                V::C(base.wrapping_add(off as u64))
            }
            T::Word("ptrtoint") | T::Word("inttoptr") | T::Word("bitcast") | T::Word("trunc") => {
                while !lx.is(b'(') {
                    lx.next();
                }
                lx.exp(b'(');
                let ft = self.parse_ty(lx);
                let v = self.parse_const(lx, &ft);
                assert!(lx.eat_word("to"));
                let tt = self.parse_ty(lx);
                lx.exp(b')');
                match v {
                    V::C(x) => V::C(mask(x, tt.bits())),
                    v => v,
                }
            }
            T::Word(w @ ("add" | "sub" | "xor" | "and" | "or")) => {
                while !lx.is(b'(') {
                    lx.next();
                }
                lx.exp(b'(');
                let t1 = self.parse_ty(lx);
                let a = self.parse_const(lx, &t1);
                lx.exp(b',');
                let t2 = self.parse_ty(lx);
                let b = self.parse_const(lx, &t2);
                lx.exp(b')');
                match (a, b) {
                    (V::C(a), V::C(b)) => V::C(mask(
                        match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "xor" => a ^ b,
                            "and" => a & b,
                            _ => a | b,
                        },
                        t1.bits(),
                    )),
                    _ => panic!(),
                }
            }
            t => {
                let p = lx.pos.min(lx.end);
                panic!("const expected, got {:?} near {}", t, p)
            }
        }
    }

    fn parse_list(&self, lx: &mut Lex, close: u8) -> Vec<V> {
        let mut r = vec![];
        if lx.eat(close) {
            return r;
        }
        loop {
            let t = self.parse_ty(lx);
            r.push(self.parse_const(lx, &t));
            if lx.eat(close) {
                return r;
            }
            lx.exp(b',');
        }
    }

    pub fn store_const(&self, ty: &Ty, v: &V, out: &mut Vec<u8>, at: usize) {
        match (ty, v) {
            (Ty::Arr(_, t), V::A(l)) => {
                let sz = t.size() as usize;
                for (i, e) in l.iter().enumerate() {
                    self.store_const(t, e, out, at + i * sz);
                }
            }
            (Ty::Struct(fs, _), V::A(l)) => {
                for (i, e) in l.iter().enumerate() {
                    self.store_const(&fs[i], e, out, at + ty.field_off(i) as usize);
                }
            }
            (_, V::C(x)) => {
                let n = ty.store_size() as usize;
                out[at..at + n.min(8)].copy_from_slice(&x.to_le_bytes()[..n.min(8)]);
            }
            (_, V::W(a, b)) => {
                let n = ty.store_size() as usize;
                let mut buf = [0u8; 16];
                buf[..8].copy_from_slice(&a.to_le_bytes());
                buf[8..].copy_from_slice(&b.to_le_bytes());
                out[at..at + n].copy_from_slice(&buf[..n]);
            }
            _ => panic!("store_const {:?}", ty),
        }
    }
}

pub fn sext(x: u64, bits: u32) -> i64 {
    if bits >= 64 {
        x as i64
    } else {
        ((x << (64 - bits)) as i64) >> (64 - bits)
    }
}

impl Ty {
    pub fn field_off_const(&self, idx: usize) -> u64 {
        self.field_off(idx)
    }
}

pub fn parse_module(text: &str) -> Program {
    let mut p = Program::default();
    // pass 1: names
    struct G {
        name: String,
        start: usize,
        end: usize,
    }
    let mut globals: Vec<G> = vec![];
    let mut pos = 0;
    let mut last_comment: Option<&str> = None;
    let bytes = text.as_bytes();
    while pos < bytes.len() {
        let eol = text[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
        let line = &text[pos..eol];
        match line.as_bytes().first() {
            Some(b';') => {
                if line.starts_with("; <") || line.starts_with("; ") {
                    if !line.starts_with("; Function Attrs") {
                        last_comment = Some(&line[2..]);
                    }
                }
            }
            Some(b'%') => {
                let mut lx = Lex::new(text, pos, eol);
                if let T::Local(n) = lx.next() {
                    lx.exp(b'=');
                    assert!(lx.eat_word("type"));
                    if lx.peek() != T::Word("opaque") {
                        let t = p.parse_ty(&mut lx);
                        p.types.insert(n.to_string(), t);
                    }
                }
            }
            Some(b'@') => {
                let mut lx = Lex::new(text, pos, eol);
                if let T::Global(n) = lx.next() {
                    globals.push(G { name: n.to_string(), start: pos, end: eol });
                }
            }
            Some(b'd') if line.starts_with("define ") || line.starts_with("declare ") => {
                let def = line.starts_with("define ");
                let mut lx = Lex::new(text, pos, eol);
                // find the function name: first Global token
                let mut ret_bits = 0;
                loop {
                    match lx.peek() {
                        T::Global(_) => break,
                        T::Eof => panic!("no name"),
                        T::Word(w)
                            if w == "void"
                                || w == "ptr"
                                || (w.starts_with('i')
                                    && w.len() > 1
                                    && w[1..].chars().all(|c| c.is_ascii_digit())) =>
                        {
                            let t = p.parse_ty(&mut lx);
                            ret_bits = t.bits();
                        }
                        T::P(b'(') => lx.skip_paren_group(),
                        _ => {
                            lx.next();
                        }
                    }
                }
                let name = match lx.next() {
                    T::Global(n) => n.to_string(),
                    _ => unreachable!(),
                };
                let mut params = vec![];
                if def {
                    lx.exp(b'(');
                    let mut d = 1;
                    while d > 0 {
                        match lx.next() {
                            T::P(b'(') => d += 1,
                            T::P(b')') => d -= 1,
                            T::Local(n) if d == 1 => params.push(n.to_string()),
                            T::Eof => panic!("eof in params of {}", name),
                            _ => {}
                        }
                    }
                }
                let mut f = Func {
                    name: name.clone(),
                    pretty: last_comment.take().map(|s| s.to_string()),
                    nparams: params.len() as u32,
                    nregs: 0,
                    blocks: vec![],
                    code: vec![],
                    defined: def,
                    ret_bits,
                    body: None,
                    param_names: params,
                };
                let mut next = eol + 1;
                if def {
                    let e = text[eol..].find("\n}").unwrap() + eol;
                    f.body = Some((eol, e + 1));
                    next = e + 3;
                }
                let i = p.funcs.len() as u32;
                p.fidx.insert(name, i);
                p.funcs.push(f);
                pos = next;
                continue;
            }
            _ => {}
        }
        pos = eol + 1;
    }
    // pass 2: layout of globals
    let mut addr: u64 = 0x100000;
    assert!(func_addr(p.funcs.len() as u32) < addr);
    struct GI {
        ty: Ty,
        init: Option<usize>,
        addr: u64,
        end: usize,
    }
    let mut gi = vec![];
    for g in &globals {
        let mut lx = Lex::new(text, g.start, g.end);
        lx.next();
        lx.exp(b'=');
        let mut external = false;
        let mut alias = false;
        loop {
            match lx.next() {
                T::Word("external") | T::Word("extern_weak") => external = true,
                T::Word("alias") => {
                    alias = true;
                    break;
                }
                T::Word("constant") | T::Word("global") => break,
                T::P(b'(') => {
                    // e.g. thread_local(initialexec)
                    let mut d = 1;
                    while d > 0 {
                        match lx.next() {
                            T::P(b'(') => d += 1,
                            T::P(b')') => d -= 1,
                            _ => {}
                        }
                    }
                }
                T::Eof => panic!("bad global {}", g.name),
                _ => {}
            }
        }
        let ty = p.parse_ty(&mut lx);
        if alias {
            lx.exp(b',');
            let _ = p.parse_ty(&mut lx);
            if let T::Global(n) = lx.next() {
                if let Some(&i) = p.fidx.get(n) {
                    p.fidx.insert(g.name.clone(), i);
                } else if let Some(&a) = p.gaddr.get(n) {
                    p.gaddr.insert(g.name.clone(), a);
                }
            }
            continue;
        }
        if external {
            // not modelled: give it 64 bytes of zeros, except weak functions -> null
            p.gaddr.insert(g.name.clone(), addr);
            gi.push(GI { ty, init: None, addr, end: g.end });
            addr += 64;
            continue;
        }
        addr = align_up(addr, ty.align().max(16));
        p.gaddr.insert(g.name.clone(), addr);
        let sz = ty.size();
        // make sure no token has been consumed beyond the type
        let init_pos = lx.at();
        gi.push(GI { ty, init: Some(init_pos), addr, end: g.end });
        addr += sz.max(1);
    }
    let mut out = vec![];
    for g in &gi {
        if let Some(ip) = g.init {
            let mut lx = Lex::new(text, ip, g.end);
            let v = p.parse_const(&mut lx, &g.ty);
            let mut buf = vec![0u8; g.ty.size() as usize];
            p.store_const(&g.ty, &v, &mut buf, 0);
            out.push((g.addr, buf));
        } else {
            out.push((g.addr, vec![0u8; 64]));
        }
    }
    p.globals = out;
    p
}

struct FP<'a, 'p> {
    p: &'p Program,
    lx: Lex<'a>,
    regs: HashMap<&'a str, u32>,
    blocks: HashMap<&'a str, u32>,
    nblocks: u32,
    consts: &'p mut Vec<V>,
}

impl<'a, 'p> FP<'a, 'p> {
    fn reg(&mut self, n: &'a str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn blk(&mut self, n: &'a str) -> u32 {
        if let Some(b) = self.blocks.get(n) {
            return *b;
        }
        let b = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n, b);
        b
    }
    fn val(&mut self, ty: &Ty) -> O {
        if let T::Local(n) = self.lx.peek() {
            self.lx.next();
            return O::R(self.reg(n));
        }
        let v = self.p.parse_const(&mut self.lx, ty);
        match v {
            V::C(x) => O::C(x),
            v => {
                self.consts.push(v);
                O::K(self.consts.len() as u32 - 1)
            }
        }
    }
    fn ty(&mut self) -> Ty {
        self.p.parse_ty(&mut self.lx)
    }
    fn tyval(&mut self) -> (Ty, O) {
        let t = self.ty();
        let v = self.val(&t);
        (t, v)
    }
    fn label(&mut self) -> u32 {
        assert!(self.lx.eat_word("label"));
        match self.lx.next() {
            T::Local(n) => self.blk(n),
            t => panic!("label {:?}", t),
        }
    }
    fn skip_words(&mut self, ws: &[&str]) {
        while let T::Word(w) = self.lx.peek() {
            if ws.contains(&w) {
                self.lx.next();
            } else {
                break;
            }
        }
    }
    /// parameter / return attributes
    fn skip_attrs(&mut self) {
        loop {
            match self.lx.peek() {
                T::Word(w) => {
                    let is_ty = w == "void" || w == "ptr" || w == "float" || w == "double" || w == "metadata"
                        || w == "label"
                        || (w.starts_with('i') && w.len() > 1 && w[1..].chars().all(|c| c.is_ascii_digit()));
                    let is_val = matches!(
                        w,
                        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr"
                            | "ptrtoint" | "inttoptr" | "splat" | "add" | "sub" | "bitcast" | "asm" | "none" | "xor" | "trunc"
                    );
                    if is_ty || is_val {
                        return;
                    }
                    self.lx.next();
                    if w == "align" || w == "alignstack" {
                        if let T::Int(_) = self.lx.peek() {
                            self.lx.next();
                            continue;
                        }
                    }
                    if w == "cc" {
                        self.lx.next();
                        continue;
                    }
                    if self.lx.is(b'(') {
                        self.lx.skip_paren_group();
                    }
                }
                T::Str(_) => {
                    self.lx.next();
                    if self.lx.eat(b'=') {
                        self.lx.next();
                    }
                }
                T::Attr => {
                    self.lx.next();
                }
                _ => return,
            }
        }
    }
    fn skip_tail(&mut self) {
        // , align N  /, !meta !N ...  up to the end of the instruction
        loop {
            match self.lx.peek() {
                T::P(b',') => {
                    self.lx.next();
                    match self.lx.peek() {
                        T::Meta => {
                            self.lx.next();
                            if self.lx.peek() == T::Meta {
                                self.lx.next();
                            }
                        }
                        T::Word("align") => {
                            self.lx.next();
                            self.lx.next();
                        }
                        t => panic!("tail {:?} at {}", t, self.lx.pos),
                    }
                }
                T::Attr => {
                    self.lx.next();
                }
                T::P(b'[') => {
                    // operand bundle
                    let mut d = 0;
                    loop {
                        match self.lx.next() {
                            T::P(b'[') => d += 1,
                            T::P(b']') => {
                                d -= 1;
                                if d == 0 {
                                    break;
                                }
                            }
                            T::Eof => panic!(),
                            _ => {}
                        }
                    }
                }
                _ => return,
            }
        }
    }
}

fn vinfo(t: &Ty) -> Option<(u32, u32)> {
    match t {
        Ty::Vec(n, e) => Some((*n as u32, e.bits())),
        _ => None,
    }
}

pub fn parse_body(p: &mut Program, text: &str, fi: u32) {
    let (s, e) = match p.funcs[fi as usize].body {
        Some(x) => x,
        None => return,
    };
    let params = std::mem::take(&mut p.funcs[fi as usize].param_names);
    let params: Vec<&'static str> = params
        .into_iter()
        .map(|s| -> &'static str { Box::leak(s.into_boxed_str()) })
        .collect();
    let mut consts = std::mem::take(&mut p.consts);
    let mut blocks: HashMap<u32, Block> = HashMap::new();
    let mut code: Vec<I> = vec![];
    let nregs;
    let nblocks;
    {
        let mut fp = FP {
            p: &*p,
            lx: Lex::new(text, s, e),
            regs: HashMap::new(),
            blocks: HashMap::new(),
            nblocks: 0,
            consts: &mut consts,
        };
        for n in &params {
            fp.reg(n);
        }
        // first block: named or unnamed
        let mut cur: u32;
        {
            // detect a label
            let save = fp.lx.pos;
            let t = fp.lx.next();
            let lab = match t {
                T::Word(w) | T::Int(w) => {
                    if fp.lx.eat(b':') {
                        Some(w)
                    } else {
                        None
                    }
                }
                T::Str(w) => {
                    if fp.lx.eat(b':') {
                        Some(w)
                    } else {
                        None
                    }
                }
                _ => None,
            };
            match lab {
                Some(w) => cur = fp.blk(w),
                None => {
                    fp.lx = Lex::new(text, save, e);
                    // unnamed entry: its number is nparams (when params are numbered)
                    let n = params.iter().filter(|x| x.chars().all(|c| c.is_ascii_digit())).count();
                    let name: &'static str = Box::leak(format!("{}", n).into_boxed_str());
                    cur = fp.blk(name);
                }
            }
            blocks.insert(cur, Block { phis: vec![], start: 0 });
        }
        assert!(cur == 0);
        loop {
            let t = fp.lx.next();
            let mut d: Option<u32> = None;
            let op: &str = match t {
                T::Eof => break,
                T::Int(w) | T::Str(w) => {
                    fp.lx.exp(b':');
                    cur = fp.blk(w);
                    blocks.insert(cur, Block { phis: vec![], start: code.len() as u32 });
                    continue;
                }
                T::Word(w) => {
                    if fp.lx.is(b':') {
                        fp.lx.next();
                        cur = fp.blk(w);
                        blocks.insert(cur, Block { phis: vec![], start: code.len() as u32 });
                        continue;
                    }
                    w
                }
                T::Local(n) => {
                    d = Some(fp.reg(n));
                    fp.lx.exp(b'=');
                    match fp.lx.next() {
                        T::Word(w) => w,
                        t => panic!("op {:?}", t),
                    }
                }
                T::P(b'}') => break,
                T::Attr => {
                    // debug record "#dbg_value(...)" -- skip
                    if fp.lx.is(b'(') {
                        fp.lx.skip_paren_group();
                    }
                    continue;
                }
                t => panic!("instr {:?} in {} at {}", t, p.funcs[fi as usize].name, fp.lx.pos),
            };
            let dd = d.unwrap_or(u32::MAX);
            match op {
                "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and"
                | "or" | "xor" => {
                    fp.skip_words(&["nuw", "nsw", "exact", "disjoint"]);
                    let bop = match op {
                        "add" => Bop::Add,
                        "sub" => Bop::Sub,
                        "mul" => Bop::Mul,
                        "udiv" => Bop::UDiv,
                        "sdiv" => Bop::SDiv,
                        "urem" => Bop::URem,
                        "srem" => Bop::SRem,
                        "shl" => Bop::Shl,
                        "lshr" => Bop::LShr,
                        "ashr" => Bop::AShr,
                        "and" => Bop::And,
                        "or" => Bop::Or,
                        _ => Bop::Xor,
                    };
                    let (t, a) = fp.tyval();
                    fp.lx.exp(b',');
                    let b = fp.val(&t);
                    fp.skip_tail();
                    match vinfo(&t) {
                        Some((n, ew)) => code.push(I::BinV { op: bop, n, ew, d: dd, a, b }),
                        None => code.push(I::Bin { op: bop, w: t.bits(), d: dd, a, b }),
                    }
                }
                "icmp" => {
                    fp.skip_words(&["samesign"]);
                    let pr = match fp.lx.next() {
                        T::Word("eq") => Pred::Eq,
                        T::Word("ne") => Pred::Ne,
                        T::Word("ugt") => Pred::Ugt,
                        T::Word("uge") => Pred::Uge,
                        T::Word("ult") => Pred::Ult,
                        T::Word("ule") => Pred::Ule,
                        T::Word("sgt") => Pred::Sgt,
                        T::Word("sge") => Pred::Sge,
                        T::Word("slt") => Pred::Slt,
                        T::Word("sle") => Pred::Sle,
                        t => panic!("icmp {:?}", t),
                    };
                    let (t, a) = fp.tyval();
                    fp.lx.exp(b',');
                    let b = fp.val(&t);
                    fp.skip_tail();
                    match vinfo(&t) {
                        Some((n, ew)) => code.push(I::IcmpV { p: pr, n, ew, d: dd, a, b }),
                        None => code.push(I::Icmp { p: pr, w: t.bits(), d: dd, a, b }),
                    }
                }
                "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                    fp.skip_words(&["nneg", "nuw", "nsw"]);
                    let (ft, a) = fp.tyval();
                    assert!(fp.lx.eat_word("to"));
                    let tt = fp.ty();
                    fp.skip_tail();
                    let k = match op {
                        "zext" => Cast::ZExt,
                        "sext" => Cast::SExt,
                        "trunc" => Cast::Trunc,
                        _ => Cast::Bit,
                    };
                    if vinfo(&ft).is_some() || vinfo(&tt).is_some() {
                        if op == "bitcast" {
                            code.push(I::BitV { from: Box::new(ft), to: Box::new(tt), d: dd, a });
                        } else {
                            let (n, fw) = vinfo(&ft).unwrap();
                            let (_, tw) = vinfo(&tt).unwrap();
                            code.push(I::CastV { k, n, fw, tw, d: dd, a });
                        }
                    } else {
                        let (fw, tw) = (ft.bits(), tt.bits());
                        let k = if k == Cast::Bit && fw > tw {
                            Cast::Trunc
                        } else if k == Cast::Bit && fw < tw {
                            Cast::ZExt
                        } else {
                            k
                        };
                        code.push(I::Cast { k, fw, tw, d: dd, a });
                    }
                }
                "load" => {
                    fp.skip_words(&["atomic", "volatile"]);
                    let t = fp.ty();
                    fp.lx.exp(b',');
                    let (_, ptr) = fp.tyval();
                    fp.skip_words(&["monotonic", "acquire", "release", "acq_rel", "seq_cst", "unordered"]);
                    fp.skip_tail();
                    match &t {
                        Ty::Int(b) if *b <= 64 && (*b % 8 == 0 || *b == 1) => {
                            code.push(I::Load { bits: *b, d: dd, p: ptr })
                        }
                        Ty::Ptr => code.push(I::Load { bits: 64, d: dd, p: ptr }),
                        _ => code.push(I::LoadT { ty: Box::new(t), d: dd, p: ptr }),
                    }
                }
                "store" => {
                    fp.skip_words(&["atomic", "volatile"]);
                    let (t, v) = fp.tyval();
                    fp.lx.exp(b',');
                    let (_, ptr) = fp.tyval();
                    fp.skip_words(&["monotonic", "acquire", "release", "acq_rel", "seq_cst", "unordered"]);
                    fp.skip_tail();
                    match &t {
                        Ty::Int(b) if *b <= 64 && (*b % 8 == 0 || *b == 1) => {
                            code.push(I::Store { bits: *b, v, p: ptr })
                        }
                        Ty::Ptr => code.push(I::Store { bits: 64, v, p: ptr }),
                        _ => code.push(I::StoreT { ty: Box::new(t), v, p: ptr }),
                    }
                }
                "getelementptr" => {
                    fp.skip_words(&["inbounds", "nuw", "nusw"]);
                    let sty = fp.ty();
                    fp.lx.exp(b',');
                    let (_, base) = fp.tyval();
                    let mut off: i64 = 0;
                    let mut terms = vec![];
                    let mut curt = sty.clone();
                    let mut first = true;
                    while fp.lx.is(b',') {
                        // could be ", !meta"
                        let save = fp.lx.pos;
                        fp.lx.next();
                        if fp.lx.peek() == T::Meta {
                            // put back: emulate by constructing a fresh lexer at save
                            fp.lx = Lex::new(text, save - 1, e);
                            break;
                        }
                        let (it, iv) = fp.tyval();
                        let scale;
                        if first {
                            scale = sty.size();
                            first = false;
                            match iv {
                                O::C(x) => off += sext(x, it.bits()) * scale as i64,
                                iv => terms.push((iv, it.bits(), scale)),
                            }
                        } else {
                            match &curt {
                                Ty::Struct(..) => {
                                    let i = match iv {
                                        O::C(x) => x as usize,
                                        _ => panic!(),
                                    };
                                    off += curt.field_off(i) as i64;
                                    curt = curt.field_ty(i).clone();
                                }
                                Ty::Arr(_, et) | Ty::Vec(_, et) => {
                                    let et = (**et).clone();
                                    scale = et.size();
                                    match iv {
                                        O::C(x) => off += sext(x, it.bits()) * scale as i64,
                                        iv => terms.push((iv, it.bits(), scale)),
                                    }
                                    curt = et;
                                }
                                t => panic!("gep into {:?}", t),
                            }
                        }
                    }
                    fp.skip_tail();
                    code.push(I::Gep { d: dd, base, off, terms: terms.into_boxed_slice() });
                }
                "alloca" => {
                    fp.skip_words(&["inalloca"]);
                    let t = fp.ty();
                    let mut n = 1;
                    let mut al = t.align();
                    while fp.lx.is(b',') {
                        fp.lx.next();
                        match fp.lx.peek() {
                            T::Word("align") => {
                                fp.lx.next();
                                if let T::Int(s) = fp.lx.next() {
                                    al = s.parse().unwrap();
                                }
                            }
                            T::Meta => {
                                fp.lx.next();
                                if fp.lx.peek() == T::Meta {
                                    fp.lx.next();
                                }
                            }
                            _ => {
                                let (_, v) = fp.tyval();
                                if let O::C(x) = v {
                                    n = x;
                                } else {
                                    panic!("dynamic alloca");
                                }
                            }
                        }
                    }
                    code.push(I::Alloca { d: dd, size: t.size() * n, align: al });
                }
                "select" => {
                    let (ct, c) = fp.tyval();
                    fp.lx.exp(b',');
                    let (t, a) = fp.tyval();
                    fp.lx.exp(b',');
                    let (_, b) = fp.tyval();
                    fp.skip_tail();
                    let vn = vinfo(&ct).map(|x| x.0).unwrap_or(0);
                    code.push(I::Select { d: dd, c, a, b, ty: Box::new(t), vn });
                }
                "phi" => {
                    let t = fp.ty();
                    let mut inc = vec![];
                    loop {
                        fp.lx.exp(b'[');
                        let v = fp.val(&t);
                        fp.lx.exp(b',');
                        let b = match fp.lx.next() {
                            T::Local(n) => fp.blk(n),
                            t => panic!("{:?}", t),
                        };
                        fp.lx.exp(b']');
                        inc.push((b, v));
                        if fp.lx.is(b',') {
                            let save = fp.lx.pos;
                            fp.lx.next();
                            if !fp.lx.is(b'[') {
                                fp.lx = Lex::new(text, save - 1, e);
                                break;
                            }
                        } else {
                            break;
                        }
                    }
                    fp.skip_tail();
                    let blk = blocks.get_mut(&cur).unwrap();
                    blk.phis.push(Phi { d: dd, inc });
                    blk.start = code.len() as u32;
                }
                "br" => {
                    if fp.lx.peek() == T::Word("label") {
                        let l = fp.label();
                        fp.skip_tail();
                        code.push(I::Br(l));
                    } else {
                        let (_, c) = fp.tyval();
                        fp.lx.exp(b',');
                        let a = fp.label();
                        fp.lx.exp(b',');
                        let b = fp.label();
                        fp.skip_tail();
                        code.push(I::CondBr(c, a, b));
                    }
                }
                "switch" => {
                    let (t, v) = fp.tyval();
                    fp.lx.exp(b',');
                    let def = fp.label();
                    fp.lx.exp(b'[');
                    let mut cases = HashMap::new();
                    let mut ord = vec![];
                    while !fp.lx.eat(b']') {
                        let (_, cv) = fp.tyval();
                        fp.lx.exp(b',');
                        let l = fp.label();
                        if let O::C(x) = cv {
                            cases.insert(x, l);
                            ord.push((x, l));
                        } else {
                            panic!()
                        }
                    }
                    fp.skip_tail();
                    code.push(I::Switch { v, w: t.bits(), def, cases: Rc::new(cases), ord: Rc::new(ord) });
                }
                "ret" => {
                    let t = fp.ty();
                    if t == Ty::Void {
                        code.push(I::Ret(None));
                    } else {
                        let v = fp.val(&t);
                        code.push(I::Ret(Some(v)));
                    }
                    fp.skip_tail();
                }
                "tail" | "musttail" | "notail" | "call" | "invoke" => {
                    if op != "call" && op != "invoke" {
                        assert!(fp.lx.eat_word("call"));
                    }
                    fp.skip_words(&["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "fastcc", "coldcc", "tailcc", "ccc"]);
                    fp.skip_attrs();
                    let rt = fp.ty();
                    if fp.lx.is(b'(') {
                        fp.lx.skip_paren_group();
                    }
                    let _ = rt;
                    let callee = match fp.lx.peek() {
                        T::Global(n) => {
                            fp.lx.next();
                            match fp.p.fidx.get(n) {
                                Some(i) => Callee::Direct(*i),
                                None => panic!("unknown function {}", n),
                            }
                        }
                        T::Local(n) => {
                            fp.lx.next();
                            let r = fp.reg(n);
                            Callee::Indirect(O::R(r))
                        }
                        T::Word("asm") => {
                            while !fp.lx.is(b'(') {
                                fp.lx.next();
                            }
                            Callee::Asm
                        }
                        _ => {
                            let v = fp.val(&Ty::Ptr);
                            Callee::Indirect(v)
                        }
                    };
                    fp.lx.exp(b'(');
                    let mut args = vec![];
                    if !fp.lx.eat(b')') {
                        loop {
                            let t = fp.ty();
                            if t == Ty::Other {
                                // metadata operand
                                let mut dep = 0;
                                loop {
                                    match fp.lx.peek() {
                                        T::P(b'(') => dep += 1,
                                        T::P(b')') if dep == 0 => break,
                                        T::P(b')') => dep -= 1,
                                        T::P(b',') if dep == 0 => break,
                                        T::Eof => panic!(),
                                        _ => {}
                                    }
                                    fp.lx.next();
                                }
                                args.push(O::C(0));
                            } else {
                                fp.skip_attrs();
                                let v = fp.val(&t);
                                args.push(v);
                            }
                            if fp.lx.eat(b')') {
                                break;
                            }
                            fp.lx.exp(b',');
                        }
                    }
                    // function attributes
                    loop {
                        match fp.lx.peek() {
                            T::Attr => {
                                fp.lx.next();
                            }
                            T::Word(w)
                                if matches!(
                                    w,
                                    "nounwind" | "noreturn" | "readnone" | "readonly" | "cold" | "willreturn" | "noinline"
                                        | "alwaysinline"
                                ) =>
                            {
                                fp.lx.next();
                            }
                            T::Word("memory") => {
                                fp.lx.next();
                                fp.lx.skip_paren_group();
                            }
                            T::P(b'[') => {
                                fp.skip_tail();
                            }
                            _ => break,
                        }
                    }
                    let mut normal = None;
                    if op == "invoke" {
                        assert!(fp.lx.eat_word("to"), "invoke at {}", fp.lx.pos);
                        let l = fp.label();
                        assert!(fp.lx.eat_word("unwind"));
                        let _ = fp.label();
                        normal = Some(l);
                    }
                    fp.skip_tail();
                    code.push(I::Call { d, f: callee, args: args.into_boxed_slice(), normal });
                }
                "extractvalue" => {
                    let (_, a) = fp.tyval();
                    let mut idx = vec![];
                    while fp.lx.is(b',') {
                        let save = fp.lx.pos;
                        fp.lx.next();
                        match fp.lx.peek() {
                            T::Int(s) => {
                                fp.lx.next();
                                idx.push(s.parse().unwrap());
                            }
                            _ => {
                                fp.lx = Lex::new(text, save - 1, e);
                                break;
                            }
                        }
                    }
                    fp.skip_tail();
                    code.push(I::ExtractVal { d: dd, a, idx: idx.into_boxed_slice() });
                }
                "insertvalue" => {
                    let (t, a) = fp.tyval();
                    fp.lx.exp(b',');
                    let (_, v) = fp.tyval();
                    let mut idx = vec![];
                    while fp.lx.is(b',') {
                        let save = fp.lx.pos;
                        fp.lx.next();
                        match fp.lx.peek() {
                            T::Int(s) => {
                                fp.lx.next();
                                idx.push(s.parse().unwrap());
                            }
                            _ => {
                                fp.lx = Lex::new(text, save - 1, e);
                                break;
                            }
                        }
                    }
                    fp.skip_tail();
                    code.push(I::InsertVal { d: dd, a, v, idx: idx.into_boxed_slice(), ty: Box::new(t) });
                }
                "extractelement" => {
                    let (t, a) = fp.tyval();
                    fp.lx.exp(b',');
                    let (_, i) = fp.tyval();
                    fp.skip_tail();
                    let (n, ew) = vinfo(&t).unwrap();
                    code.push(I::ExtractEl { d: dd, a, i, n, ew });
                }
                "insertelement" => {
                    let (t, a) = fp.tyval();
                    fp.lx.exp(b',');
                    let (_, v) = fp.tyval();
                    fp.lx.exp(b',');
                    let (_, i) = fp.tyval();
                    fp.skip_tail();
                    let (n, ew) = vinfo(&t).unwrap();
                    code.push(I::InsertEl { d: dd, a, v, i, n, ew });
                }
                "shufflevector" => {
                    let (t, a) = fp.tyval();
                    fp.lx.exp(b',');
                    let (_, b) = fp.tyval();
                    fp.lx.exp(b',');
                    let (mt, m) = fp.tyval();
                    fp.skip_tail();
                    let (n, ew) = vinfo(&t).unwrap();
                    let (mn, _) = vinfo(&mt).unwrap();
                    let mask: Vec<i32> = match m {
                        O::C(x) => (0..mn).map(|i| ((x as u128) >> (32 * i)) as i32).collect(),
                        O::K(k) => match &fp.consts[k as usize] {
                            V::W(lo, hi) => {
                                let x = (*lo as u128) | ((*hi as u128) << 64);
                                (0..mn).map(|i| (x >> (32 * i)) as i32).collect()
                            }
                            V::A(l) => l
                                .iter()
                                .map(|v| match v {
                                    V::C(x) => *x as i32,
                                    _ => panic!(),
                                })
                                .collect(),
                            _ => panic!(),
                        },
                        _ => panic!(),
                    };
                    code.push(I::Shuffle { d: dd, a, b, n, ew, mask: mask.into_boxed_slice() });
                }
                "cmpxchg" => {
                    fp.skip_words(&["weak", "volatile"]);
                    let (_, ptr) = fp.tyval();
                    fp.lx.exp(b',');
                    let (t, c) = fp.tyval();
                    fp.lx.exp(b',');
                    let (_, n) = fp.tyval();
                    fp.skip_words(&["monotonic", "acquire", "release", "acq_rel", "seq_cst"]);
                    fp.skip_tail();
                    code.push(I::CmpXchg { d: dd, bits: t.bits(), p: ptr, c, n });
                }
                "atomicrmw" => {
                    fp.skip_words(&["volatile"]);
                    let rop = match fp.lx.next() {
                        T::Word("xchg") => Rmw::Xchg,
                        T::Word("add") => Rmw::Add,
                        T::Word("sub") => Rmw::Sub,
                        T::Word("and") => Rmw::And,
                        T::Word("or") => Rmw::Or,
                        T::Word("xor") => Rmw::Xor,
                        T::Word("max") => Rmw::Max,
                        T::Word("min") => Rmw::Min,
                        T::Word("umax") => Rmw::UMax,
                        T::Word("umin") => Rmw::UMin,
                        t => panic!("rmw {:?}", t),
                    };
                    let (_, ptr) = fp.tyval();
                    fp.lx.exp(b',');
                    let (t, v) = fp.tyval();
                    fp.skip_words(&["monotonic", "acquire", "release", "acq_rel", "seq_cst"]);
                    fp.skip_tail();
                    code.push(I::Rmw { op: rop, d: dd, bits: t.bits(), p: ptr, v });
                }
                "fence" => {
                    fp.skip_words(&["syncscope", "monotonic", "acquire", "release", "acq_rel", "seq_cst"]);
                    fp.skip_tail();
                    code.push(I::Nop);
                }
                "freeze" => {
                    let (_, a) = fp.tyval();
                    fp.skip_tail();
                    code.push(I::Mov { d: dd, a });
                }
                "landingpad" => {
                    let _ = fp.ty();
                    loop {
                        match fp.lx.peek() {
                            T::Word("cleanup") => {
                                fp.lx.next();
                            }
                            T::Word("catch") | T::Word("filter") => {
                                fp.lx.next();
                                let t = fp.ty();
                                let _ = fp.val(&t);
                            }
                            _ => break,
                        }
                    }
                    fp.skip_tail();
                    code.push(I::Unsupported("landingpad".into()));
                }
                "resume" => {
                    let _ = fp.tyval();
                    fp.skip_tail();
                    code.push(I::Unsupported("resume".into()));
                }
                "unreachable" => {
                    fp.skip_tail();
                    code.push(I::Unreachable);
                }
                "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fadd" | "fsub" | "fmul" | "fdiv" | "fcmp" | "fneg" | "fpext"
                | "fptrunc" | "frem" => {
                    // floating point: skip to the end of the line
                    let rest = &text[fp.lx.pos..e];
                    let n = rest.find('\n').unwrap();
                    let np = fp.lx.pos + n;
                    fp.lx = Lex::new(text, np, e);
                    code.push(I::Unsupported(op.into()));
                }
                o => panic!("unknown op {} in {}", o, p.funcs[fi as usize].name),
            }
        }
        nregs = fp.regs.len() as u32;
        nblocks = fp.nblocks;
    }
    let mut bl = vec![];
    for i in 0..nblocks {
        bl.push(blocks.remove(&i).unwrap_or_else(|| panic!("missing block {} in {}", i, p.funcs[fi as usize].name)));
    }
    p.consts = consts;
    let f = &mut p.funcs[fi as usize];
    f.blocks = bl;
    f.code = code;
    f.nregs = nregs;
}
