//! Parser for the textual LLVM IR that rustc emits (fat LTO, one module).
//! Functions are parsed lazily, the first time they are called.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    F64,
    F32,
    Ptr,
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u32, TyId),
    Label,
    Meta,
    Other,
}

#[derive(Clone, Debug)]
pub enum C {
    I(u64),
    W(u128),
    F(f64),
    F32(f32),
    Undef,
    Zero,
    Agg(Vec<(TyId, C)>),
    Str(Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    K(Rc<crate::exec::V>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IPred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, Zext, Sext, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, PtrToInt, IntToPtr, BitCast, AddrSpace }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin }

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { dst: u32, size: u64, align: u64 },
    Load { dst: u32, ty: TyId, p: Op },
    Store { ty: TyId, v: Op, p: Op },
    Gep { dst: u32, base: Op, off: i64, dynm: Vec<(Op, u32, i64)> },
    Bin { dst: u32, op: BinOp, ty: TyId, a: Op, b: Op },
    FBin { dst: u32, op: FOp, ty: TyId, a: Op, b: Op },
    FNeg { dst: u32, ty: TyId, a: Op },
    ICmp { dst: u32, p: IPred, ty: TyId, a: Op, b: Op },
    FCmp { dst: u32, p: FPred, ty: TyId, a: Op, b: Op },
    Cast { dst: u32, op: CastOp, from: TyId, to: TyId, a: Op },
    Select { dst: u32, cty: TyId, ty: TyId, c: Op, a: Op, b: Op },
    Br { to: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { ty: TyId, v: Op, def: u32, cases: Vec<(u64, u32)> },
    Ret { v: Option<Op> },
    Unreachable,
    Call { dst: Option<u32>, callee: Op, name: Option<u32>, args: Vec<(TyId, Op)>, ret: TyId, normal: Option<u32> },
    Extract { dst: u32, a: Op, ty: TyId, idx: Vec<u32> },
    Insert { dst: u32, a: Op, ty: TyId, v: Op, idx: Vec<u32> },
    ExtractEl { dst: u32, ty: TyId, a: Op, i: Op },
    InsertEl { dst: u32, ty: TyId, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, ty: TyId, a: Op, b: Op, mask: Vec<i32> },
    Rmw { dst: u32, op: RmwOp, ty: TyId, p: Op, v: Op },
    CmpXchg { dst: u32, ty: TyId, p: Op, c: Op, n: Op },
    Fence,
    Freeze { dst: u32, a: Op },
    Bad(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub ins: Vec<Ins>,
    pub dbg: Vec<u32>,
}

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<(u32, TyId)>,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub is_def: bool,
    pub text: (usize, usize), // header+body byte range
    pub body: Option<Rc<Func>>,
}

pub struct Module {
    pub src: String,
    pub tys: Vec<Ty>,
    tyix: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub globals: HashMap<String, u64>,
    pub ginit: Vec<(u64, TyId, C)>,
    pub gend: u64,
    pub aliases: HashMap<String, String>,
    // debug info
    pub diloc: HashMap<u32, u32>,           // loc -> scope
    pub discope: HashMap<u32, (u32, u8)>,   // lexical block -> parent scope
    pub disub: HashMap<u32, (String, u32)>, // subprogram -> (linkage/name, file)
    pub difile: HashMap<u32, String>,
}

pub const FN_BASE: u64 = 0x7000_0000_0000;
pub const G_BASE: u64 = 0x10000;

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    pub fn new(s: &'a [u8]) -> P<'a> { P { s, i: 0 } }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1; }
    }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat(c) { panic!("parse: expected '{}' at: {}", c as char, self.rest(80)); } }
    fn rest(&self, n: usize) -> String { String::from_utf8_lossy(&self.s[self.i..(self.i + n).min(self.s.len())]).to_string() }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str { let i0 = { self.ws(); self.i }; let w = self.word(); self.i = i0; w }
    fn eat_word(&mut self, w: &str) -> bool { let i0 = self.i; if self.word() == w { true } else { self.i = i0; false } }
    fn name(&mut self) -> String {
        // after sigil
        if self.s[self.i] == b'"' {
            self.i += 1;
            let b = self.cstr_until_quote();
            return String::from_utf8_lossy(&b).to_string();
        }
        self.word().to_string()
    }
    fn cstr_until_quote(&mut self) -> Vec<u8> {
        let mut out = vec![];
        while self.s[self.i] != b'"' {
            let c = self.s[self.i];
            if c == b'\\' {
                if self.s[self.i + 1] == b'\\' { out.push(b'\\'); self.i += 2; continue; }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
            } else { out.push(c); self.i += 1; }
        }
        self.i += 1;
        out
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn number_i(&mut self) -> i128 {
        self.ws();
        let neg = self.eat(b'-');
        let mut v: i128 = 0;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { v = v * 10 + (self.s[self.i] - b'0') as i128; self.i += 1; }
        if neg { -v } else { v }
    }
}

fn parse_float_tok(t: &str) -> f64 {
    if let Some(h) = t.strip_prefix("0x") {
        if h.starts_with('K') || h.starts_with('L') || h.starts_with('H') || h.starts_with('R') { panic!("odd float {}", t); }
        return f64::from_bits(u64::from_str_radix(h, 16).unwrap());
    }
    if let Some(h) = t.strip_prefix("f0x") { return f64::from_bits(u64::from_str_radix(h, 16).unwrap()); }
    match t { "+inf" | "inf" => return f64::INFINITY, "-inf" => return f64::NEG_INFINITY, "+nan" | "nan" | "+qnan" | "qnan" => return f64::NAN, "-nan" | "-qnan" =>return -f64::NAN, _ => {} }
    t.parse::<f64>().unwrap_or_else(|_| panic!("float token {:?}", t))
}

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tyix.get(&t) { return i; }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.tyix.insert(t, i);
        i
    }
    pub fn size_align(&self, t: TyId) -> (u64, u64) {
        match &self.tys[t as usize] {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = b.next_power_of_two().max(1);
                let a = a.min(16);
                ((b + a - 1) / a * a, a)
            }
            Ty::F64 | Ty::Ptr => (8, 8),
            Ty::F32 => (4, 4),
            Ty::Arr(n, e) => { let (s, a) = self.size_align(*e); (s * n, a) }
            Ty::Vec(n, e) => {
                let bits = match &self.tys[*e as usize] { Ty::Int(b) => *b as u64, Ty::F32 => 32, _ => 64 };
                let s = ((bits * *n as u64) + 7) / 8;
                let s2 = s.next_power_of_two();
                (s2, s2)
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0; let mut ma = 1;
                for f in fs { let (s, a) = self.size_align(*f); if !*packed { o = (o + a - 1) / a * a; ma = ma.max(a); } o += s; }
                (if *packed { o } else { (o + ma - 1) / ma * ma }, ma)
            }
            _ => (0, 1),
        }
    }
    pub fn field_off(&self, t: TyId, k: u64) -> (u64, TyId) {
        match &self.tys[t as usize] {
            Ty::Arr(_, e) => (self.size_align(*e).0 * k, *e),
            Ty::Vec(_, e) => (self.size_align(*e).0 * k, *e),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (i, f) in fs.iter().enumerate() {
                    let (s, a) = self.size_align(*f);
                    if !*packed { o = (o + a - 1) / a * a; }
                    if i as u64 == k { return (o, *f); }
                    o += s;
                }
                panic!("field_off")
            }
            t => panic!("field_off on {:?}", t),
        }
    }

    fn p_ty(&mut self, p: &mut P) -> TyId {
        let c = p.peek();
        let t = match c {
            b'[' => {
                p.i += 1;
                let n = p.number_i() as u64; let x = p.word(); assert!(x == "x");
                let e = self.p_ty(p); p.expect(b']'); self.ty(Ty::Arr(n, e))
            }
            b'{' => { p.i += 1; let v = self.p_tys(p, b'}'); self.ty(Ty::Struct(v, false)) }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' { p.i += 1; let v = self.p_tys(p, b'}'); p.expect(b'>'); self.ty(Ty::Struct(v, true)) }
                else { let n = p.number_i() as u32; let x = p.word(); assert!(x == "x"); let e = self.p_ty(p); p.expect(b'>'); self.ty(Ty::Vec(n, e)) }
            }
            b'%' => { p.i += 1; let n = p.name(); *self.named.get(&n).unwrap_or_else(|| panic!("named type {}", n)) }
            _ => {
                let w = p.word();
                match w {
                    "void" => self.ty(Ty::Void),
                    "double" => self.ty(Ty::F64),
                    "float" => self.ty(Ty::F32),
                    "ptr" => { if p.eat_word("addrspace") { p.skip_parens(); } self.ty(Ty::Ptr) }
                    "label" => self.ty(Ty::Label),
                    "metadata" => self.ty(Ty::Meta),
                    "token" | "x86_fp80" | "half" | "fp128" | "bfloat" => self.ty(Ty::Other),
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => { let n = w[1..].parse().unwrap(); self.ty(Ty::Int(n)) }
                    _ => panic!("type? {:?} {}", w, p.rest(60)),
                }
            }
        };
        t
    }
    fn p_tys(&mut self, p: &mut P, end: u8) -> Vec<TyId> {
        let mut v = vec![];
        if p.eat(end) { return v; }
        loop { v.push(self.p_ty(p)); if p.eat(end) { return v; } p.expect(b','); }
    }
    fn skip_attrs(&mut self, p: &mut P) {
        // parameter / return attributes
        loop {
            let w = p.peek_word();
            match w {
                "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "nofree" | "zeroext" | "signext" | "inreg" | "returned" | "immarg" | "noext" | "dead_on_unwind" | "writable" | "nest" | "allocptr" | "allocalign" | "swiftself" | "swifterror" | "dead_on_return" | "nosync" | "nounwind" => { p.word(); if w == "dead_on_return" && p.peek() == b'(' { p.skip_parens(); } }
                "align" => { p.word(); if p.peek() == b'(' { p.skip_parens(); } else { p.number_i(); } }
                "dereferenceable" | "dereferenceable_or_null" | "range" | "captures" | "initializes" | "nofpclass" | "sret" | "byval" | "elementtype" | "byref" | "preallocated" | "alignstack" | "nocapture_or" => { p.word(); p.skip_parens(); }
                _ => return,
            }
        }
    }
    fn global_addr(&self, n: &str) -> u64 {
        if let Some(a) = self.globals.get(n) { return *a; }
        if let Some(f) = self.fidx.get(n) { return FN_BASE + (*f as u64) * 16; }
        if let Some(t) = self.aliases.get(n) { let t = t.clone(); return self.global_addr(&t); }
        panic!("unknown global {}", n)
    }
    fn p_const(&mut self, p: &mut P, t: TyId) -> C {
        let c = p.peek();
        match c {
            b'@' => { p.i += 1; let n = p.name(); C::I(self.global_addr(&n)) }
            b'c' if p.s[p.i + 1] == b'"' => { p.i += 2; C::Str(p.cstr_until_quote()) }
            b'[' => { p.i += 1; C::Agg(self.p_celems(p, b']')) }
            b'{' => { p.i += 1; C::Agg(self.p_celems(p, b'}')) }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' { p.i += 1; let v = self.p_celems(p, b'}'); p.expect(b'>'); C::Agg(v) }
                else { C::Agg(self.p_celems(p, b'>')) }
            }
            _ => {
                let isf = matches!(self.tys[t as usize], Ty::F64 | Ty::F32);
                if isf && (c.is_ascii_digit() || c == b'-' || c == b'+' || c == b'f' || c == b'n' || c == b'i') {
                    p.ws();
                    let st = p.i;
                    while p.i < p.s.len() && (is_id(p.s[p.i]) || p.s[p.i] == b'+') { p.i += 1; }
                    let tok = std::str::from_utf8(&p.s[st..p.i]).unwrap();
                    let f = parse_float_tok(tok);
                    return if self.tys[t as usize] == Ty::F32 { C::F32(f as f32) } else { C::F(f) };
                }
                if c.is_ascii_digit() || c == b'-' {
                    let v = p.number_i();
                    let n = match self.tys[t as usize] { Ty::Int(n) => n, _ => 64 };
                    return if n > 64 { C::W(mask128(v as u128, n)) } else { C::I(mask(v as u64, n)) };
                }
                let w = p.word();
                match w {
                    "true" => C::I(1),
                    "false" | "null" => C::I(0),
                    "undef" | "poison" => C::Undef,
                    "zeroinitializer" | "none" => C::Zero,
                    "splat" => {
                        p.expect(b'('); let et = self.p_ty(p); let v = self.p_const(p, et); p.expect(b')');
                        let n = match self.tys[t as usize] { Ty::Vec(n, _) => n, _ => panic!("splat") };
                        C::Agg((0..n).map(|_| (et, v.clone())).collect())
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" | "ptrtoaddr" => {
                        p.expect(b'('); let et = self.p_ty(p); let v = self.p_const(p, et); let to = p.word(); assert!(to == "to"); let tt = self.p_ty(p); p.expect(b')');
                        let n = match self.tys[tt as usize] { Ty::Int(n) => n, _ => 64 };
                        match v { C::I(x) => C::I(mask(x, n)), v => v }
                    }
                    "sub" | "add" | "xor" => {
                        while p.eat_word("nuw") || p.eat_word("nsw") {}
                        p.expect(b'('); let et = self.p_ty(p); let a = self.p_const(p, et); p.expect(b','); let et2 = self.p_ty(p); let b = self.p_const(p, et2); p.expect(b')');
                        let n = match self.tys[et as usize] { Ty::Int(n) => n, _ => 64 };
                        match (a, b) { (C::I(a), C::I(b)) => C::I(mask(match w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b }, n)), _ => panic!("constexpr") }
                    }
                    "getelementptr" => {
                        loop { let w = p.peek_word(); if w == "inbounds" || w == "nuw" || w == "nusw" || w == "nsw" { p.word(); } else if w == "inrange" { p.word(); p.skip_parens(); } else { break; } }
                        p.expect(b'('); let st = self.p_ty(p); p.expect(b','); let pt = self.p_ty(p);
                        let base = match self.p_const(p, pt) { C::I(x) => x, _ => panic!() };
                        let mut off = 0i64; let mut cur = st; let mut first = true;
                        while p.eat(b',') {
                            let it = self.p_ty(p);
                            let n = match self.tys[it as usize] { Ty::Int(n) => n, _ => 64 };
                            let k = match self.p_const(p, it) { C::I(x) => sext(x, n), C::Zero => 0, _ => panic!() };
                            if first { off += self.size_align(cur).0 as i64 * k; first = false; } else { let (o, nt) = self.field_off_dyn(cur, k); off += o; cur = nt; }
                        }
                        p.expect(b')');
                        C::I(base.wrapping_add(off as u64))
                    }
                    "no_cfi" | "dso_local_equivalent" => self.p_const(p, t),
                    _ => panic!("const? {:?} at {} (ty {:?})", w, p.rest(80), self.tys[t as usize]),
                }
            }
        }
    }
    fn field_off_dyn(&self, t: TyId, k: i64) -> (i64, TyId) {
        match &self.tys[t as usize] {
            Ty::Arr(_, e) | Ty::Vec(_, e) => (self.size_align(*e).0 as i64 * k, *e),
            _ => { let (o, f) = self.field_off(t, k as u64); (o as i64, f) }
        }
    }
    fn p_celems(&mut self, p: &mut P, end: u8) -> Vec<(TyId, C)> {
        let mut v = vec![];
        if p.eat(end) { return v; }
        loop { let t = self.p_ty(p); let c = self.p_const(p, t); v.push((t, c)); if p.eat(end) { return v; } p.expect(b','); }
    }

    pub fn parse(src: String) -> Module {
        let mut m = Module { src: String::new(), tys: vec![], tyix: HashMap::new(), named: HashMap::new(), funcs: vec![], fidx: HashMap::new(), globals: HashMap::new(), ginit: vec![], gend: G_BASE, aliases: HashMap::new(), diloc: HashMap::new(), discope: HashMap::new(), disub: HashMap::new(), difile: HashMap::new() };
        let b = src.as_bytes();
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut tlines: Vec<(usize, usize)> = vec![];
        let mut i = 0;
        let n = b.len();
        while i < n {
            let e = b[i..].iter().position(|c| *c == b'\n').map(|k| i + k).unwrap_or(n);
            let line = &b[i..e];
            if line.is_empty() { i = e + 1; continue; }
            match line[0] {
                b'@' => glines.push((i, e)),
                b'%' => tlines.push((i, e)),
                b'd' if line.starts_with(b"define ") => {
                    // find end: line == "}"
                    let mut j = e + 1;
                    loop {
                        let e2 = b[j..].iter().position(|c| *c == b'\n').map(|k| j + k).unwrap_or(n);
                        if &b[j..e2] == b"}" { j = e2; break; }
                        j = e2 + 1;
                    }
                    let name = fn_name(line);
                    m.fidx.insert(name.clone(), m.funcs.len() as u32);
                    m.funcs.push(FuncDecl { name, is_def: true, text: (i, j), body: None });
                    i = j + 1;
                    continue;
                }
                b'd' if line.starts_with(b"declare ") => {
                    let name = fn_name(line);
                    m.fidx.insert(name.clone(), m.funcs.len() as u32);
                    m.funcs.push(FuncDecl { name, is_def: false, text: (i, e), body: None });
                }
                b'!' => m.p_meta(line),
                _ => {}
            }
            i = e + 1;
        }
        for (s, e) in tlines {
            // %name = type { ... }
            let mut p = P::new(&b[s..e]);
            p.expect(b'%');
            let nm = p.name();
            p.expect(b'=');
            p.word();
            if p.eat_word("opaque") { let t = m.ty(Ty::Other); m.named.insert(nm, t); continue; }
            let t = m.p_ty(&mut p);
            m.named.insert(nm, t);
        }
        // pass 1: addresses
        let mut inits: Vec<(u64, TyId, usize, usize)> = vec![];
        let mut addr = G_BASE;
        for (s, e) in &glines {
            let mut p = P::new(&b[*s..*e]);
            p.expect(b'@');
            let nm = p.name();
            p.expect(b'=');
            let mut external = false;
            let mut alias = false;
            loop {
                let w = p.word();
                match w {
                    "constant" | "global" => break,
                    "alias" => { alias = true; break; }
                    "external" | "extern_weak" => external = true,
                    "thread_local" => { if p.peek() == b'(' { p.skip_parens(); } }
                    "" => panic!("global? {}", p.rest(100)),
                    "addrspace" => p.skip_parens(),
                    _ => {}
                }
            }
            let t = m.p_ty(&mut p);
            if alias {
                p.expect(b','); m.p_ty(&mut p); p.expect(b'@'); let tgt = p.name();
                m.aliases.insert(nm, tgt);
                continue;
            }
            let (sz, al) = m.size_align(t);
            let al = al.max(16);
            addr = (addr + al - 1) / al * al;
            m.globals.insert(nm, addr);
            if !external { inits.push((addr, t, s + p.i, *e)); }
            addr += sz.max(8);
        }
        m.gend = addr;
        for (a, t, s, e) in inits {
            let mut p = P::new(&b[s..e]);
            let c = m.p_const(&mut p, t);
            m.ginit.push((a, t, c));
        }
        m.src = src;
        m
    }

    fn p_meta(&mut self, line: &[u8]) {
        let s = match std::str::from_utf8(line) { Ok(s) => s, Err(_) => return };
        let (id, rest) = match s[1..].split_once(" = ") { Some(x) => x, None => return };
        let id: u32 = match id.parse() { Ok(i) => i, Err(_) => return };
        let rest = rest.strip_prefix("distinct ").unwrap_or(rest);
        let num = |key: &str| -> Option<u32> {
            let k = rest.find(key)?;
            let t = &rest[k + key.len()..];
            let e = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len());
            t[..e].parse().ok()
        };
        let st = |key: &str| -> Option<String> {
            let k = rest.find(key)?;
            let t = &rest[k + key.len()..];
            Some(t[..t.find('"')?].to_string())
        };
        if rest.starts_with("!DILocation(") {
            if let Some(sc) = num("scope: !") { self.diloc.insert(id, sc); }
        } else if rest.starts_with("!DILexicalBlock") {
            if let Some(sc) = num("scope: !") { self.discope.insert(id, (sc, 0)); }
        } else if rest.starts_with("!DISubprogram(") {
            let nm = st("linkageName: \"").or_else(|| st("name: \"")).unwrap_or_default();
            self.disub.insert(id, (nm, num("file: !").unwrap_or(0)));
        } else if rest.starts_with("!DIFile(") {
            let f = st("filename: \"").unwrap_or_default();
            let d = st("directory: \"").unwrap_or_default();
            self.difile.insert(id, if f.starts_with('/') { f } else { format!("{}/{}", d, f) });
        }
    }
    pub fn subprogram_of_loc(&self, loc: u32) -> Option<u32> {
        let mut s = *self.diloc.get(&loc)?;
        for _ in 0..64 {
            if self.disub.contains_key(&s) { return Some(s); }
            s = self.discope.get(&s)?.0;
        }
        None
    }

    pub fn func(&mut self, idx: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[idx as usize].body { return f.clone(); }
        let (s, e) = self.funcs[idx as usize].text;
        let text: Vec<u8> = self.src.as_bytes()[s..e].to_vec();
        let name = self.funcs[idx as usize].name.clone();
        let f = Rc::new(self.parse_func(&text, name));
        self.funcs[idx as usize].body = Some(f.clone());
        f
    }

    fn parse_func(&mut self, text: &[u8], name: String) -> Func {
        let hl = text.iter().position(|c| *c == b'\n').unwrap();
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![];
        let mut unnamed = 0;
        // header: find '@name(' then params
        {
            let line = &text[..hl];
            let mut p = P::new(line);
            p.i = line.iter().position(|c| *c == b'@').unwrap() + 1;
            let _ = p.name();
            p.expect(b'(');
            let mut k = 0;
            if !p.eat(b')') {
                loop {
                    if p.peek() == b'.' { p.word(); }
                    else {
                        let t = self.p_ty(&mut p);
                        self.skip_attrs(&mut p);
                        let nm = if p.peek() == b'%' { p.i += 1; p.name() } else { let s = k.to_string(); s };
                        let r = regs.len() as u32;
                        if nm.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                        regs.insert(nm, r);
                        params.push((r, t));
                        k += 1;
                    }
                    if p.eat(b')') { break; }
                    p.expect(b',');
                }
            }
        }
        // split into blocks; merge continuation lines
        let body = &text[hl + 1..];
        let mut blocks: Vec<(String, Vec<Vec<u8>>)> = vec![];
        let mut lines = body.split(|c| *c == b'\n').peekable();
        let mut nparams = params.len();
        let _ = &mut nparams;
        while let Some(l) = lines.next() {
            if l.is_empty() { continue; }
            if l[0] == b';' { continue; }
            let tl = trim(l);
            if tl.is_empty() || tl[0] == b';' || tl.starts_with(b"#dbg") { continue; }
            if l[0] != b' ' {
                let mut p = P::new(l);
                let nm = if l[0] == b'"' { p.name() } else { p.word().to_string() };
                blocks.push((nm, vec![]));
                continue;
            }
            if blocks.is_empty() { blocks.push((unnamed.to_string(), vec![])); }
            let mut ins = tl.to_vec();
            // multi-line: switch, landingpad clauses, invoke
            if contains(&ins, b"switch ") && ins.ends_with(b"[") {
                while let Some(l2) = lines.next() { let t2 = trim(l2); ins.push(b' '); ins.extend_from_slice(t2); if t2.starts_with(b"]") { break; } }
            } else if contains(&ins, b"= landingpad") {
                while let Some(l2) = lines.peek() { let t2 = trim(l2); if t2.starts_with(b"cleanup") || t2.starts_with(b"catch") || t2.starts_with(b"filter") { lines.next(); } else { break; } }
            } else if (ins.starts_with(b"invoke") || contains(&ins, b"= invoke") ) && !contains(&ins, b" unwind label") {
                while let Some(l2) = lines.next() { let t2 = trim(l2); ins.push(b' '); ins.extend_from_slice(t2); if contains(t2, b"unwind label") { break; } }
            }
            blocks.last_mut().unwrap().1.push(ins);
        }
        let bidx: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
        // register numbering
        for (_, ls) in &blocks {
            for l in ls {
                if l[0] == b'%' {
                    let mut p = P::new(l); p.i = 1; let nm = p.name();
                    let r = regs.len() as u32; regs.entry(nm).or_insert(r);
                }
            }
        }
        let mut out = vec![];
        for (_, ls) in &blocks {
            let mut blk = Block { phis: vec![], ins: vec![], dbg: vec![] };
            for l in ls {
                let dbg = dbg_of(l);
                let mut p = P::new(l);
                let mut dst = None;
                if p.peek() == b'%' { p.i += 1; let nm = p.name(); dst = Some(regs[&nm]); p.expect(b'='); }
                if p.peek_word() == "phi" {
                    p.word();
                    while p.eat_word("fast") || p.eat_word("nnan") || p.eat_word("ninf") || p.eat_word("nsz") || p.eat_word("contract") || p.eat_word("reassoc") {}
                    let t = self.p_ty(&mut p);
                    let mut inc = vec![];
                    loop {
                        p.expect(b'[');
                        let v = self.p_op(&mut p, t, &regs);
                        p.expect(b',');
                        p.expect(b'%');
                        let bn = p.name();
                        p.expect(b']');
                        inc.push((*bidx.get(&bn).unwrap_or_else(|| panic!("block {:?} of {} among {:?}", bn, name, bidx.keys().take(20).collect::<Vec<_>>())), v));
                        if p.peek() == b',' && { let sv = p.i; p.i += 1; let r = p.peek() == b'['; p.i = sv; r } { p.i += 1; continue; }
                        break;
                    }
                    blk.phis.push((dst.unwrap(), inc));
                    continue;
                }
                let ins = self.p_ins(&mut p, dst, &regs, &bidx);
                blk.ins.push(ins);
                blk.dbg.push(dbg);
            }
            out.push(blk);
        }
        Func { name, nregs: regs.len() as u32, params, blocks: out }
    }

    fn p_op(&mut self, p: &mut P, t: TyId, regs: &HashMap<String, u32>) -> Op {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Op::Reg(*regs.get(&n).unwrap_or_else(|| panic!("reg {}", n)));
        }
        let c = self.p_const(p, t);
        Op::K(Rc::new(self.c2v(t, &c)))
    }
    pub fn c2v(&self, t: TyId, c: &C) -> crate::exec::V {
        use crate::exec::V;
        match c {
            C::I(x) => V::I(*x),
            C::W(x) => V::W(*x),
            C::F(x) => V::F(*x),
            C::F32(x) => V::F32(*x),
            C::Undef | C::Zero => self.zero(t),
            C::Agg(v) => V::Agg(Rc::new(v.iter().map(|(t, c)| self.c2v(*t, c)).collect())),
            C::Str(b) => V::Agg(Rc::new(b.iter().map(|x| V::I(*x as u64)).collect())),
        }
    }
    pub fn zero(&self, t: TyId) -> crate::exec::V {
        use crate::exec::V;
        match &self.tys[t as usize] {
            Ty::Int(n) if *n > 64 => V::W(0),
            Ty::Int(_) | Ty::Ptr => V::I(0),
            Ty::F64 => V::F(0.0),
            Ty::F32 => V::F32(0.0),
            Ty::Arr(n, e) => V::Agg(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
            Ty::Vec(n, e) => V::Agg(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
            Ty::Struct(fs, _) => V::Agg(Rc::new(fs.iter().map(|f| self.zero(*f)).collect())),
            _ => V::I(0),
        }
    }
    fn p_tyop(&mut self, p: &mut P, regs: &HashMap<String, u32>) -> (TyId, Op) {
        let t = self.p_ty(p);
        let o = self.p_op(p, t, regs);
        (t, o)
    }
    fn p_label(&mut self, p: &mut P, bidx: &HashMap<String, u32>) -> u32 {
        let w = p.word(); assert!(w == "label", "label {}", w);
        p.expect(b'%'); let n = p.name(); bidx[&n]
    }

    fn p_ins(&mut self, p: &mut P, dst: Option<u32>, regs: &HashMap<String, u32>, bidx: &HashMap<String, u32>) -> Ins {
        let d = dst.unwrap_or(u32::MAX);
        let mut w = p.word();
        let full = |p: &P| String::from_utf8_lossy(p.s).chars().take(200).collect::<String>();
        if w == "tail" || w == "musttail" || w == "notail" { w = p.word(); }
        let fm = |p: &mut P| { while ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"].contains(&p.peek_word()) { p.word(); } };
        match w {
            "alloca" => {
                p.eat_word("inalloca");
                let t = self.p_ty(p);
                let (sz, al) = self.size_align(t);
                let mut align = al;
                let mut count = 1u64;
                while p.eat(b',') {
                    if p.eat_word("align") { align = p.number_i() as u64; }
                    else if p.peek() == b'!' { break; }
                    else { let t = self.p_ty(p); match self.p_const(p, t) { C::I(n) => count = n, _ => return Ins::Bad(full(p)) } }
                }
                Ins::Alloca { dst: d, size: sz * count, align }
            }
            "load" => {
                p.eat_word("atomic"); p.eat_word("volatile");
                let t = self.p_ty(p); p.expect(b','); let (_, o) = self.p_tyop(p, regs);
                Ins::Load { dst: d, ty: t, p: o }
            }
            "store" => {
                p.eat_word("atomic"); p.eat_word("volatile");
                let (t, v) = self.p_tyop(p, regs); p.expect(b','); let (_, o) = self.p_tyop(p, regs);
                Ins::Store { ty: t, v, p: o }
            }
            "getelementptr" => {
                loop { let w = p.peek_word(); if w == "inbounds" || w == "nuw" || w == "nusw" { p.word(); } else { break; } }
                let st = self.p_ty(p); p.expect(b',');
                let (_, base) = self.p_tyop(p, regs);
                let mut off = 0i64; let mut dynm = vec![]; let mut cur = st; let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' { break; }
                    let (it, o) = self.p_tyop(p, regs);
                    let bits = match self.tys[it as usize] { Ty::Int(n) => n, _ => return Ins::Bad(full(p)) };
                    if first {
                        first = false;
                        let sc = self.size_align(cur).0 as i64;
                        match &o { Op::K(v) => off += sc * sext(v.as_u(), bits), _ => dynm.push((o, bits, sc)) }
                    } else {
                        match &o {
                            Op::K(v) => { let (oo, nt) = self.field_off_dyn(cur, sext(v.as_u(), bits)); off += oo; cur = nt; }
                            _ => { let (oo, nt) = self.field_off_dyn(cur, 1); dynm.push((o, bits, oo)); cur = nt; }
                        }
                    }
                }
                Ins::Gep { dst: d, base, off, dynm }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while ["nuw", "nsw", "exact", "disjoint"].contains(&p.peek_word()) { p.word(); }
                let (t, a) = self.p_tyop(p, regs); p.expect(b','); let b = self.p_op(p, t, regs);
                let op = match w { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, _ => BinOp::Xor };
                Ins::Bin { dst: d, op, ty: t, a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                fm(p);
                let (t, a) = self.p_tyop(p, regs); p.expect(b','); let b = self.p_op(p, t, regs);
                let op = match w { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
                Ins::FBin { dst: d, op, ty: t, a, b }
            }
            "fneg" => { fm(p); let (t, a) = self.p_tyop(p, regs); Ins::FNeg { dst: d, ty: t, a } }
            "icmp" => {
                p.eat_word("samesign");
                let pr = p.word().to_string();
                let (t, a) = self.p_tyop(p, regs); p.expect(b','); let b = self.p_op(p, t, regs);
                let pr = match pr.as_str() { "eq" => IPred::Eq, "ne" => IPred::Ne, "ugt" => IPred::Ugt, "uge" => IPred::Uge, "ult" => IPred::Ult, "ule" => IPred::Ule, "sgt" => IPred::Sgt, "sge" => IPred::Sge, "slt" => IPred::Slt, "sle" => IPred::Sle, x => panic!("icmp {}", x) };
                Ins::ICmp { dst: d, p: pr, ty: t, a, b }
            }
            "fcmp" => {
                fm(p);
                let pr = p.word().to_string();
                let (t, a) = self.p_tyop(p, regs); p.expect(b','); let b = self.p_op(p, t, regs);
                let pr = match pr.as_str() { "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, _ => FPred::True };
                Ins::FCmp { dst: d, p: pr, ty: t, a, b }
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => {
                while ["nuw", "nsw", "nneg"].contains(&p.peek_word()) { p.word(); }
                fm(p);
                let (t, a) = self.p_tyop(p, regs); let to = p.word(); assert!(to == "to"); let tt = self.p_ty(p);
                let op = match w { "trunc" => CastOp::Trunc, "zext" => CastOp::Zext, "sext" => CastOp::Sext, "fptrunc" => CastOp::FpTrunc, "fpext" => CastOp::FpExt, "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi, "uitofp" => CastOp::UiToFp, "sitofp" => CastOp::SiToFp, "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt, "inttoptr" => CastOp::IntToPtr, "bitcast" => CastOp::BitCast, _ => CastOp::AddrSpace };
                Ins::Cast { dst: d, op, from: t, to: tt, a }
            }
            "select" => {
                fm(p);
                let (ct, c) = self.p_tyop(p, regs); p.expect(b','); let (t, a) = self.p_tyop(p, regs); p.expect(b','); let (_, b) = self.p_tyop(p, regs);
                Ins::Select { dst: d, cty: ct, ty: t, c, a, b }
            }
            "br" => {
                if p.peek_word() == "label" { let t = self.p_label(p, bidx); return Ins::Br { to: t }; }
                let (_, c) = self.p_tyop(p, regs); p.expect(b','); let t = self.p_label(p, bidx); p.expect(b','); let f = self.p_label(p, bidx);
                Ins::CondBr { c, t, f }
            }
            "switch" => {
                let (t, v) = self.p_tyop(p, regs); p.expect(b','); let def = self.p_label(p, bidx); p.expect(b'[');
                let mut cases = vec![];
                while !p.eat(b']') {
                    let ct = self.p_ty(p);
                    let k = match self.p_const(p, ct) { C::I(x) => x, C::W(x) => x as u64, _ => panic!() };
                    p.expect(b','); let l = self.p_label(p, bidx); cases.push((k, l));
                }
                Ins::Switch { ty: t, v, def, cases }
            }
            "ret" => {
                let t = self.p_ty(p);
                if self.tys[t as usize] == Ty::Void { Ins::Ret { v: None } } else { Ins::Ret { v: Some(self.p_op(p, t, regs)) } }
            }
            "unreachable" => Ins::Unreachable,
            "call" | "invoke" => self.p_call(p, dst, regs, bidx, w == "invoke"),
            "extractvalue" => {
                let (t, a) = self.p_tyop(p, regs); let mut idx = vec![];
                while p.eat(b',') { if p.peek() == b'!' { break; } idx.push(p.number_i() as u32); }
                Ins::Extract { dst: d, a, ty: t, idx }
            }
            "insertvalue" => {
                let (t, a) = self.p_tyop(p, regs); p.expect(b','); let (_, v) = self.p_tyop(p, regs); let mut idx = vec![];
                while p.eat(b',') { if p.peek() == b'!' { break; } idx.push(p.number_i() as u32); }
                Ins::Insert { dst: d, a, ty: t, v, idx }
            }
            "extractelement" => { let (t, a) = self.p_tyop(p, regs); p.expect(b','); let (_, i) = self.p_tyop(p, regs); Ins::ExtractEl { dst: d, ty: t, a, i } }
            "insertelement" => { let (t, a) = self.p_tyop(p, regs); p.expect(b','); let (_, v) = self.p_tyop(p, regs); p.expect(b','); let (_, i) = self.p_tyop(p, regs); Ins::InsertEl { dst: d, ty: t, a, v, i } }
            "shufflevector" => {
                let (t, a) = self.p_tyop(p, regs); p.expect(b','); let (_, b) = self.p_tyop(p, regs); p.expect(b',');
                let mt = self.p_ty(p); let c = self.p_const(p, mt);
                let n = match self.tys[mt as usize] { Ty::Vec(n, _) => n, _ => 0 };
                let mask = match c { C::Zero => vec![0; n as usize], C::Undef => vec![-1; n as usize], C::Agg(v) => v.iter().map(|(_, c)| match c { C::I(x) => *x as i32, _ => -1 }).collect(), _ => return Ins::Bad(full(p)) };
                Ins::Shuffle { dst: d, ty: t, a, b, mask }
            }
            "atomicrmw" => {
                p.eat_word("volatile");
                let o = p.word();
                let op = match o { "xchg" => RmwOp::Xchg, "add" => RmwOp::Add, "sub" => RmwOp::Sub, "and" => RmwOp::And, "nand" => RmwOp::Nand, "or" => RmwOp::Or, "xor" => RmwOp::Xor, "max" => RmwOp::Max, "min" => RmwOp::Min, "umax" => RmwOp::UMax, "umin" => RmwOp::UMin, _ => return Ins::Bad(full(p)) };
                let (_, a) = self.p_tyop(p, regs); p.expect(b','); let (t, v) = self.p_tyop(p, regs);
                Ins::Rmw { dst: d, op, ty: t, p: a, v }
            }
            "cmpxchg" => {
                p.eat_word("weak"); p.eat_word("volatile");
                let (_, a) = self.p_tyop(p, regs); p.expect(b','); let (t, c) = self.p_tyop(p, regs); p.expect(b','); let (_, n) = self.p_tyop(p, regs);
                Ins::CmpXchg { dst: d, ty: t, p: a, c, n }
            }
            "fence" => Ins::Fence,
            "freeze" => { let (_, a) = self.p_tyop(p, regs); Ins::Freeze { dst: d, a } }
            _ => Ins::Bad(full(p)),
        }
    }

    fn p_call(&mut self, p: &mut P, dst: Option<u32>, regs: &HashMap<String, u32>, bidx: &HashMap<String, u32>, invoke: bool) -> Ins {
        loop {
            let w = p.peek_word();
            match w {
                "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fastcc" | "ccc" | "coldcc" | "preserve_mostcc" | "preserve_allcc" | "tailcc" => { p.word(); }
                "cc" => { p.word(); p.number_i(); }
                _ => break,
            }
        }
        self.skip_attrs(p);
        let ret = self.p_ty(p);
        if p.peek() == b'(' { p.skip_parens(); } // function type
        if p.peek_word() == "asm" {
            return Ins::Bad(format!("asm {}", p.rest(100)));
        }
        let callee;
        let mut name = None;
        if p.peek() == b'@' {
            p.i += 1;
            let n = p.name();
            let n = self.aliases.get(&n).cloned().unwrap_or(n);
            let f = *self.fidx.get(&n).unwrap_or_else(|| panic!("callee {}", n));
            name = Some(f);
            callee = Op::K(Rc::new(crate::exec::V::I(FN_BASE + f as u64 * 16)));
        } else {
            let t = self.ty(Ty::Ptr);
            callee = self.p_op(p, t, regs);
        }
        p.expect(b'(');
        let mut args = vec![];
        if !p.eat(b')') {
            loop {
                if p.peek_word() == "metadata" {
                    // skip metadata arg
                    let mut depth = 0;
                    while !(depth == 0 && (p.peek() == b',' || p.peek() == b')')) { match p.s[p.i] { b'(' | b'{' => depth += 1, b')' | b'}' => depth -= 1, _ => {} } p.i += 1; }
                } else {
                    let t = self.p_ty(p);
                    self.skip_attrs(p);
                    let o = self.p_op(p, t, regs);
                    args.push((t, o));
                }
                if p.eat(b')') { break; }
                p.expect(b',');
            }
        }
        let mut normal = None;
        if invoke {
            let s = String::from_utf8_lossy(&p.s[p.i..]).to_string();
            let k = s.find(" to label %").or_else(|| s.find("to label %")).unwrap();
            p.i += k;
            p.ws();
            p.word();
            normal = Some(self.p_label(p, bidx));
        }
        Ins::Call { dst, callee, name, args, ret, normal }
    }
}

fn dbg_of(l: &[u8]) -> u32 {
    let key = b"!dbg !";
    if let Some(k) = l.windows(key.len()).rposition(|w| w == key) {
        let mut v = 0u32;
        for c in &l[k + key.len()..] { if c.is_ascii_digit() { v = v * 10 + (*c - b'0') as u32; } else { break; } }
        return v;
    }
    0
}
fn fn_name(line: &[u8]) -> String {
    let mut p = P::new(line);
    p.i = line.iter().position(|c| *c == b'@').unwrap() + 1;
    p.name()
}
fn trim(l: &[u8]) -> &[u8] {
    let mut s = 0;
    while s < l.len() && l[s] == b' ' { s += 1; }
    &l[s..]
}
fn contains(h: &[u8], n: &[u8]) -> bool { h.windows(n.len()).any(|w| w == n) }
pub fn mask(v: u64, n: u32) -> u64 { if n >= 64 { v } else { v & ((1u64 << n) - 1) } }
pub fn mask128(v: u128, n: u32) -> u128 { if n >= 128 { v } else { v & ((1u128 << n) - 1) } }
pub fn sext(v: u64, n: u32) -> i64 { if n >= 64 { v as i64 } else { let s = 64 - n; ((v << s) as i64) >> s } }
