//! Textual LLVM IR: module index, lazy function lowering to a compact register code.

use crate::expr::{mask, Val};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Float,
    Double,
    Ptr,
    Arr(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
    Fn,
}

#[derive(Clone, Copy, Debug)]
pub struct Leaf {
    pub off: u64,
    pub w: u32,
}

pub fn round_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Float | Ty::Ptr => 4,
            Ty::Double => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vector(n, t) => (n * t.size()).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => round_up((*w as u64 + 7) / 8, self.align()),
            Ty::Float | Ty::Ptr => 4,
            Ty::Double => 8,
            Ty::Arr(n, t) | Ty::Vector(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = round_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    round_up(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vector(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        o = round_up(o, t.align());
                    }
                    if j as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field_off on scalar"),
        }
    }
    pub fn leaves(&self) -> Vec<Leaf> {
        let mut v = vec![];
        self.flat(0, &mut v);
        v
    }
    fn flat(&self, off: u64, out: &mut Vec<Leaf>) {
        match self {
            Ty::Int(w) => out.push(Leaf { off, w: *w }),
            Ty::Float | Ty::Ptr => out.push(Leaf { off, w: 32 }),
            Ty::Double => out.push(Leaf { off, w: 64 }),
            Ty::Arr(n, _) | Ty::Vector(n, _) => {
                for i in 0..*n {
                    let (o, t) = self.field_off(i);
                    t.flat(off + o, out);
                }
            }
            Ty::Struct(f, _) => {
                for i in 0..f.len() {
                    let (o, t) = self.field_off(i as u64);
                    t.flat(off + o, out);
                }
            }
            _ => {}
        }
    }
    pub fn nleaves(&self) -> u32 {
        match self {
            Ty::Int(_) | Ty::Float | Ty::Ptr | Ty::Double => 1,
            Ty::Arr(n, t) | Ty::Vector(n, t) => *n as u32 * t.nleaves(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nleaves()).sum(),
            _ => 0,
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Float | Ty::Ptr => 32,
            Ty::Double => 64,
            _ => 0,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit, // bitcast, ptrtoint, inttoptr (zero extend or truncate)
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpTrunc,
    FpExt,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FK {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwK {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Ind(u32),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinK, w: u32, d: u32, a: u32, b: u32 },
    Icmp { p: Pred, w: u32, d: u32, a: u32, b: u32 },
    FBin { op: FK, w: u32, d: u32, a: u32, b: u32 },
    Fcmp { p: u8, w: u32, d: u32, a: u32, b: u32 },
    FNeg { w: u32, d: u32, a: u32 },
    Cast { k: CastK, fw: u32, tw: u32, d: u32, a: u32 },
    Load { d: u32, p: u32, w: u32 },
    LoadOff { d: u32, p: u32, off: u32, w: u32 },
    Store { p: u32, v: u32, w: u32 },
    StoreOff { p: u32, off: u32, v: u32, w: u32 },
    Gep { d: u32, base: u32, off: i64, idx: Box<[(u32, u32, i64)]> },
    Sel { w: u32, d: u32, c: u32, a: u32, b: u32, isptr: bool },
    Br { e: u32 },
    CBr { c: u32, t: u32, f: u32 },
    Switch { v: u32, w: u32, cases: Box<[(u128, u32)]>, def: u32 },
    Call { f: Callee, args: Box<[u32]>, d: u32, nd: u32 },
    Ret { vals: Box<[u32]> },
    Alloca { d: u32, size: u32, align: u32 },
    Copy { d: u32, a: u32 },
    Intr { k: &'static str, name: Box<str>, w: u32, d: u32, args: Box<[u32]> },
    Rmw { k: RmwK, d: u32, p: u32, v: u32, w: u32 },
    CmpXchg { d: u32, p: u32, c: u32, n: u32, w: u32 },
    Unreachable,
    Unsupported(Box<str>),
}

#[derive(Debug, Clone)]
pub struct Edge {
    pub pc: u32,
    pub copies: Box<[(u32, u32)]>,
}

pub struct Func {
    pub gid: u32,
    pub name: &'static str,
    pub nregs: u32,
    pub nparams: u32,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub consts: Vec<Val>,
}

pub const CONST: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug)]
pub enum Sym {
    Def(usize, bool),    // offset, local
    Decl,
    Global(usize, bool), // offset of line, local
    ExtGlobal,
    Alias(usize),
}

pub struct Module {
    pub text: &'static [u8],
    pub syms: HashMap<&'static [u8], Sym>,
    pub type_offs: HashMap<&'static [u8], usize>,
    pub types: RefCell<HashMap<&'static [u8], Ty>>,
}

fn is_name_ch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn scan_name(t: &'static [u8], mut p: usize) -> (&'static [u8], usize) {
    if t[p] == b'"' {
        let s = p + 1;
        p = s;
        while t[p] != b'"' {
            p += 1;
        }
        (&t[s..p], p + 1)
    } else {
        let s = p;
        while p < t.len() && is_name_ch(t[p]) {
            p += 1;
        }
        (&t[s..p], p)
    }
}

fn find(hay: &[u8], from: usize, pat: &[u8]) -> Option<usize> {
    hay[from..].windows(pat.len()).position(|w| w == pat).map(|i| from + i)
}

extern "C" {
    fn memchr(s: *const u8, c: i32, n: usize) -> *const u8;
}
fn next_nl(t: &[u8], from: usize) -> usize {
    unsafe {
        let p = memchr(t.as_ptr().add(from), b'\n' as i32, t.len() - from);
        if p.is_null() {
            t.len()
        } else {
            p as usize - t.as_ptr() as usize
        }
    }
}

impl Module {
    pub fn index(text: &'static [u8]) -> Module {
        let mut m = Module { text, syms: HashMap::new(), type_offs: HashMap::new(), types: RefCell::new(HashMap::new()) };
        let mut p = 0;
        while p < text.len() {
            let e = next_nl(text, p);
            let line = &text[p..e];
            if line.starts_with(b"define ") {
                let at = line.iter().position(|&c| c == b'@').unwrap();
                let (n, _) = scan_name(text, p + at + 1);
                let local = line.starts_with(b"define internal") || line.starts_with(b"define private");
                m.syms.insert(n, Sym::Def(p, local));
                // skip the body: it ends with a line "}"
                let mut q = e + 1;
                loop {
                    let f = next_nl(text, q);
                    if text[q] == b'}' {
                        p = f + 1;
                        break;
                    }
                    q = f + 1;
                }
                continue;
            } else if line.starts_with(b"declare ") {
                let at = line.iter().position(|&c| c == b'@').unwrap();
                let (n, _) = scan_name(text, p + at + 1);
                m.syms.insert(n, Sym::Decl);
            } else if line.starts_with(b"@") {
                let (n, q) = scan_name(text, p + 1);
                let rest = &text[q..e];
                let rs = std::str::from_utf8(&rest[..rest.len().min(200)]).unwrap_or("");
                let local = rs.contains(" private ") || rs.contains(" internal ");
                let head = rs.split('{').next().unwrap_or("");
                if head.contains(" alias ") {
                    m.syms.insert(n, Sym::Alias(p));
                } else if head.contains(" external ") || head.contains(" extern_weak ") {
                    m.syms.insert(n, Sym::ExtGlobal);
                } else {
                    m.syms.insert(n, Sym::Global(p, local));
                }
            } else if line.starts_with(b"%") {
                let (n, q) = scan_name(text, p + 1);
                // "= type "
                if let Some(i) = find(&text[..e], q, b"type ") {
                    m.type_offs.insert(n, i + 5);
                }
            }
            p = e + 1;
        }
        m
    }
}

/// What lowering needs from the program.
pub trait Env {
    fn fn_id(&mut self, module: usize, name: &'static [u8]) -> u32;
    fn sym_addr(&mut self, module: usize, name: &'static [u8]) -> u32;
}

pub struct Lx {
    pub t: &'static [u8],
    pub p: usize,
    pub mi: usize,
    pub mods: Rc<Vec<Module>>,
}

impl Lx {
    pub fn ws(&mut self) {
        while self.p < self.t.len() && matches!(self.t[self.p], b' ' | b'\t' | b'\n' | b'\r') {
            self.p += 1;
        }
    }
    fn sp(&mut self) {
        while self.p < self.t.len() && matches!(self.t[self.p], b' ' | b'\t') {
            self.p += 1;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        self.t[self.p]
    }
    pub fn eat(&mut self, c: u8) -> bool {
        let s = self.p;
        self.ws();
        if self.t[self.p] == c {
            self.p += 1;
            true
        } else {
            self.p = s;
            false
        }
    }
    pub fn want(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    pub fn fail(&self, m: &str) -> ! {
        let s = self.p.saturating_sub(120);
        let e = (self.p + 120).min(self.t.len());
        panic!("IR parse: {} near ...{}<<HERE>>{}", m, String::from_utf8_lossy(&self.t[s..self.p]), String::from_utf8_lossy(&self.t[self.p..e]));
    }
    pub fn word(&mut self) -> &'static str {
        self.ws();
        let s = self.p;
        while self.p < self.t.len() && (is_name_ch(self.t[self.p])) {
            self.p += 1;
        }
        std::str::from_utf8(&self.t[s..self.p]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'static str {
        let s = self.p;
        let w = self.word();
        self.p = s;
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        let s = self.p;
        if self.word() == w {
            true
        } else {
            self.p = s;
            false
        }
    }
    pub fn eol(&mut self) {
        self.p = next_nl(self.t, self.p);
    }
    fn skip_parens(&mut self) {
        self.want(b'(');
        let mut d = 1;
        while d > 0 {
            match self.t[self.p] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.p += 1;
                    while self.t[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn is_type_start(&mut self) -> bool {
        let c = self.peek();
        if matches!(c, b'{' | b'<' | b'[' | b'%') {
            return true;
        }
        let w = self.peek_word();
        if matches!(w, "ptr" | "void" | "float" | "double" | "label" | "metadata" | "token" | "half") {
            return true;
        }
        w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit())
    }
    /// skip attribute / flag words until a type begins
    fn skip_to_type(&mut self) {
        while !self.is_type_start() {
            let s = self.p;
            if self.peek() == b'"' {
                self.p += 1;
                while self.t[self.p] != b'"' {
                    self.p += 1;
                }
                self.p += 1;
                if self.t[self.p] == b'=' {
                    self.p += 1;
                    scan_name(self.t, self.p);
                }
                continue;
            }
            let w = self.word();
            if w == "align" || w == "addrspace" {
                if self.peek() != b'(' {
                    self.word();
                }
            }
            if self.t[self.p] == b'(' {
                self.skip_parens();
            }
            if self.p == s {
                self.fail("skip_to_type");
            }
        }
    }
    /// skip parameter attributes up to the value
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if !(c.is_ascii_alphabetic() || c == b'"') {
                return;
            }
            if c == b'"' {
                self.p += 1;
                while self.t[self.p] != b'"' {
                    self.p += 1;
                }
                self.p += 1;
                continue;
            }
            let w = self.peek_word();
            if matches!(
                w,
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr"
                    | "ptrtoint" | "inttoptr" | "bitcast" | "add" | "sub" | "xor" | "trunc" | "splat" | "c" | "f0x" | "nan" | "inf"
                    | "ptrtoaddr" | "addrspacecast" | "and" | "or" | "shl" | "lshr" | "mul"
            ) || w.starts_with("f0x") || w.starts_with("0x")
            {
                return;
            }
            self.word();
            if w == "align" && self.peek() != b'(' {
                self.word();
            }
            if self.t[self.p] == b'(' {
                self.skip_parens();
            }
        }
    }
    pub fn int(&mut self) -> i128 {
        self.ws();
        let neg = self.eat(b'-');
        let s = self.p;
        while self.t[self.p].is_ascii_digit() {
            self.p += 1;
        }
        if s == self.p {
            self.fail("int");
        }
        let st = std::str::from_utf8(&self.t[s..self.p]).unwrap();
        let v = st.parse::<u128>().unwrap() as i128;
        if neg {
            v.wrapping_neg()
        } else {
            v
        }
    }

    pub fn ty(&mut self) -> Ty {
        self.ws();
        let c = self.t[self.p];
        let t = match c {
            b'{' => {
                self.p += 1;
                let mut f = vec![];
                if !self.eat(b'}') {
                    loop {
                        f.push(self.ty());
                        if self.eat(b'}') {
                            break;
                        }
                        self.want(b',');
                    }
                }
                Ty::Struct(Rc::new(f), false)
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    self.p += 1;
                    let mut f = vec![];
                    if !self.eat(b'}') {
                        loop {
                            f.push(self.ty());
                            if self.eat(b'}') {
                                break;
                            }
                            self.want(b',');
                        }
                    }
                    self.want(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.int() as u64;
                    if self.word() != "x" {
                        self.fail("vector type");
                    }
                    let t = self.ty();
                    self.want(b'>');
                    Ty::Vector(n, Rc::new(t))
                }
            }
            b'[' => {
                self.p += 1;
                let n = self.int() as u64;
                if self.word() != "x" {
                    self.fail("array type");
                }
                let t = self.ty();
                self.want(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'%' => {
                let (n, q) = scan_name(self.t, self.p + 1);
                self.p = q;
                let known = self.mods[self.mi].types.borrow().get(n).cloned();
                if let Some(t) = known {
                    t
                } else {
                    let off = *self.mods[self.mi].type_offs.get(n).unwrap_or_else(|| panic!("type {}", String::from_utf8_lossy(n)));
                    let save = self.p;
                    self.p = off;
                    let t = if self.peek_word() == "opaque" { Ty::Struct(Rc::new(vec![]), false) } else { self.ty() };
                    self.p = save;
                    self.mods[self.mi].types.borrow_mut().insert(n, t.clone());
                    t
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.t[self.p] == b' ' && self.t[self.p + 1..].starts_with(b"addrspace(") {
                            self.word();
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "label" => Ty::Label,
                    "metadata" | "token" => Ty::Meta,
                    _ if w.starts_with('i') => match w[1..].parse() {
                        Ok(n) => Ty::Int(n),
                        _ => self.fail("type"),
                    },
                    _ => self.fail("type"),
                }
            }
        };
        // function type (varargs)
        let s = self.p;
        self.sp();
        if self.t[self.p] == b'(' && !matches!(t, Ty::Meta) {
            // only function types in call position look like this; caller handles
            self.p = s;
        } else {
            self.p = s;
        }
        t
    }

    fn float_bits(&mut self, ty: &Ty) -> u128 {
        self.ws();
        let s = self.p;
        while matches!(self.t[self.p], b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'.' | b'-' | b'+') {
            self.p += 1;
        }
        let st = std::str::from_utf8(&self.t[s..self.p]).unwrap();
        let isf = matches!(ty, Ty::Float);
        if let Some(h) = st.strip_prefix("f0x") {
            return u128::from_str_radix(h, 16).unwrap();
        }
        let d = if let Some(h) = st.strip_prefix("0x") {
            f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("float {}", st)))
        } else if st.ends_with("inf") {
            if st.starts_with('-') { f64::NEG_INFINITY } else { f64::INFINITY }
        } else if st.contains("nan") || st.contains("qnan") {
            f64::NAN
        } else {
            st.parse::<f64>().unwrap_or_else(|_| panic!("float {}", st))
        };
        if isf {
            (d as f32).to_bits() as u128
        } else {
            d.to_bits() as u128
        }
    }

    /// constant of type ty, as leaves
    pub fn constant<E: Env>(&mut self, ty: &Ty, env: &mut E) -> Vec<u128> {
        self.ws();
        let c = self.t[self.p];
        if c == b'@' {
            let (n, q) = scan_name(self.t, self.p + 1);
            self.p = q;
            return vec![env.sym_addr(self.mi, n) as u128];
        }
        match ty {
            Ty::Float | Ty::Double => {
                let w = self.peek_word();
                if matches!(w, "undef" | "poison" | "zeroinitializer") {
                    self.word();
                    return vec![0];
                }
                return vec![self.float_bits(ty)];
            }
            Ty::Struct(f, packed) if c == b'{' || c == b'<' => {
                if *packed {
                    self.want(b'<');
                }
                self.want(b'{');
                let mut out = vec![];
                for (i, t) in f.iter().enumerate() {
                    if i > 0 {
                        self.want(b',');
                    }
                    self.ty();
                    out.extend(self.constant(t, env));
                }
                self.want(b'}');
                if *packed {
                    self.want(b'>');
                }
                return out;
            }
            Ty::Arr(n, t) if c == b'[' => {
                self.want(b'[');
                let mut out = vec![];
                for i in 0..*n {
                    if i > 0 {
                        self.want(b',');
                    }
                    self.ty();
                    out.extend(self.constant(t, env));
                }
                self.want(b']');
                return out;
            }
            Ty::Vector(n, t) if c == b'<' => {
                self.want(b'<');
                let mut out = vec![];
                for i in 0..*n {
                    if i > 0 {
                        self.want(b',');
                    }
                    self.ty();
                    out.extend(self.constant(t, env));
                }
                self.want(b'>');
                return out;
            }
            Ty::Arr(n, _) if c == b'c' && self.t[self.p + 1] == b'"' => {
                self.p += 2;
                let mut out = Vec::with_capacity(*n as usize);
                loop {
                    let ch = self.t[self.p];
                    self.p += 1;
                    match ch {
                        b'"' => break,
                        b'\\' => {
                            if self.t[self.p] == b'\\' {
                                out.push(b'\\' as u128);
                                self.p += 1;
                            } else {
                                let h = std::str::from_utf8(&self.t[self.p..self.p + 2]).unwrap();
                                out.push(u8::from_str_radix(h, 16).unwrap() as u128);
                                self.p += 2;
                            }
                        }
                        _ => out.push(ch as u128),
                    }
                }
                return out;
            }
            _ => {}
        }
        if c == b'-' || c.is_ascii_digit() {
            let v = self.int() as u128;
            return vec![v & mask(ty.width())];
        }
        let w = self.word();
        match w {
            "true" => vec![1],
            "false" => vec![0],
            "null" | "none" => vec![0],
            "undef" | "poison" | "zeroinitializer" => vec![0; ty.nleaves() as usize],
            "getelementptr" => {
                while self.peek() != b'(' {
                    let s = self.p;
                    let w = self.word();
                    if w == "inrange" {
                        self.skip_parens();
                    }
                    if self.p == s {
                        self.fail("gep flags");
                    }
                }
                self.want(b'(');
                let t = self.ty();
                self.want(b',');
                let pt = self.ty();
                let base = self.constant(&pt, env)[0];
                let mut off: i128 = 0;
                let mut cur = t;
                let mut first = true;
                while self.eat(b',') {
                    let it = self.ty();
                    let i = self.constant(&it, env)[0];
                    let i = crate::expr::sext(i, it.width());
                    if first {
                        off += i * cur.size() as i128;
                        first = false;
                    } else {
                        let (o, nt) = match &cur {
                            Ty::Arr(_, e) => (i * e.size() as i128, (**e).clone()),
                            _ => {
                                let (o, nt) = cur.field_off(i as u64);
                                (o as i128, nt)
                            }
                        };
                        off += o;
                        cur = nt;
                    }
                }
                self.want(b')');
                vec![(base as i128).wrapping_add(off) as u128 & 0xffff_ffff]
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => {
                self.want(b'(');
                let t = self.ty();
                let v = self.constant(&t, env);
                if self.word() != "to" {
                    self.fail("cast const");
                }
                let t2 = self.ty();
                self.want(b')');
                vec![v[0] & mask(t2.width())]
            }
            "add" | "sub" | "xor" | "and" | "or" | "mul" => {
                while self.peek() != b'(' {
                    self.word();
                }
                self.want(b'(');
                let t = self.ty();
                let a = self.constant(&t, env)[0];
                self.want(b',');
                let t2 = self.ty();
                let b = self.constant(&t2, env)[0];
                self.want(b')');
                let m = mask(t.width());
                vec![
                    match w {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        _ => a.wrapping_mul(b),
                    } & m,
                ]
            }
            "splat" => {
                self.want(b'(');
                let t = self.ty();
                let v = self.constant(&t, env)[0];
                self.want(b')');
                vec![v; ty.nleaves() as usize]
            }
            _ => self.fail(&format!("constant '{}'", w)),
        }
    }
}

struct Lower<'a, E: Env> {
    lx: Lx,
    env: &'a mut E,
    regs: HashMap<&'static [u8], u32>,
    nregs: u32,
    consts: Vec<Val>,
    cmap: HashMap<u128, u32>,
    code: Vec<I>,
    edges: Vec<(u32, &'static [u8])>, // (block index of source, target label)
    blocks: HashMap<&'static [u8], u32>, // label -> block index
    block_pc: Vec<u32>,
    phis: Vec<Vec<(u32, u32, Vec<(&'static [u8], Vec<u32>)>)>>,
    cur: u32,
}

impl<'a, E: Env> Lower<'a, E> {
    fn alloc(&mut self, n: u32) -> u32 {
        let r = self.nregs;
        self.nregs += n;
        r
    }
    fn reg(&mut self, name: &'static [u8], n: u32) -> u32 {
        if let Some(&r) = self.regs.get(name) {
            return r;
        }
        let r = self.alloc(n);
        self.regs.insert(name, r);
        r
    }
    fn cst(&mut self, v: u128) -> u32 {
        if let Some(&i) = self.cmap.get(&v) {
            return i | CONST;
        }
        let i = self.consts.len() as u32;
        self.consts.push(Val::c(v));
        self.cmap.insert(v, i);
        i | CONST
    }
    fn value(&mut self, ty: &Ty) -> Vec<u32> {
        self.lx.ws();
        if self.lx.t[self.lx.p] == b'%' {
            let (n, q) = scan_name(self.lx.t, self.lx.p + 1);
            self.lx.p = q;
            let k = ty.nleaves();
            let r = self.reg(n, k);
            return (r..r + k).collect();
        }
        let c = {
            let Lower { lx, env, .. } = self;
            lx.constant(ty, &mut **env)
        };
        c.into_iter().map(|v| self.cst(v)).collect()
    }
    fn tv(&mut self) -> (Ty, Vec<u32>) {
        let t = self.lx.ty();
        let v = self.value(&t);
        (t, v)
    }
    fn tv1(&mut self) -> (Ty, u32) {
        let (t, v) = self.tv();
        (t, v[0])
    }
    fn label(&mut self) -> &'static [u8] {
        if self.lx.word() != "label" {
            self.lx.fail("label");
        }
        self.lx.want(b'%');
        let (n, q) = scan_name(self.lx.t, self.lx.p);
        self.lx.p = q;
        n
    }
    fn edge(&mut self, l: &'static [u8]) -> u32 {
        self.edges.push((self.cur, l));
        self.edges.len() as u32 - 1
    }

    fn inst(&mut self, dst: Option<&'static [u8]>) {
        let line = self.lx.p;
        let op = self.lx.word();
        macro_rules! d {
            ($n:expr) => {
                match dst {
                    Some(n) => self.reg(n, $n),
                    None => self.alloc($n),
                }
            };
        }
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.lx.skip_to_type();
                let (t, a) = self.tv();
                self.lx.want(b',');
                let b = self.value(&t);
                let k = match op {
                    "add" => BinK::Add,
                    "sub" => BinK::Sub,
                    "mul" => BinK::Mul,
                    "udiv" => BinK::UDiv,
                    "sdiv" => BinK::SDiv,
                    "urem" => BinK::URem,
                    "srem" => BinK::SRem,
                    "and" => BinK::And,
                    "or" => BinK::Or,
                    "xor" => BinK::Xor,
                    "shl" => BinK::Shl,
                    "lshr" => BinK::LShr,
                    _ => BinK::AShr,
                };
                let ls = t.leaves();
                let dd = d!(ls.len() as u32);
                for (i, l) in ls.iter().enumerate() {
                    self.code.push(I::Bin { op: k, w: l.w, d: dd + i as u32, a: a[i], b: b[i] });
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.lx.skip_to_type();
                let (t, a) = self.tv1();
                self.lx.want(b',');
                let b = self.value(&t)[0];
                let k = match op {
                    "fadd" => FK::Add,
                    "fsub" => FK::Sub,
                    "fmul" => FK::Mul,
                    "fdiv" => FK::Div,
                    _ => FK::Rem,
                };
                let dd = d!(1);
                self.code.push(I::FBin { op: k, w: t.width(), d: dd, a, b });
            }
            "fneg" => {
                self.lx.skip_to_type();
                let (t, a) = self.tv1();
                let dd = d!(1);
                self.code.push(I::FNeg { w: t.width(), d: dd, a });
            }
            "icmp" => {
                let mut p = self.lx.word();
                if p == "samesign" {
                    p = self.lx.word();
                }
                let (t, a) = self.tv();
                self.lx.want(b',');
                let b = self.value(&t);
                let p = match p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => self.lx.fail("pred"),
                };
                let ls = t.leaves();
                let dd = d!(ls.len() as u32);
                for (i, l) in ls.iter().enumerate() {
                    self.code.push(I::Icmp { p, w: l.w, d: dd + i as u32, a: a[i], b: b[i] });
                }
            }
            "fcmp" => {
                let mut p = self.lx.word();
                while matches!(p, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                    p = self.lx.word();
                }
                let (t, a) = self.tv1();
                self.lx.want(b',');
                let b = self.value(&t)[0];
                // bit0: eq, bit1: gt, bit2: lt, bit3: unordered
                let p = match p {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    _ => 15,
                };
                let dd = d!(1);
                self.code.push(I::Fcmp { p, w: t.width(), d: dd, a, b });
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "uitofp" | "sitofp" | "fptoui" | "fptosi"
            | "fptrunc" | "fpext" | "addrspacecast" => {
                self.lx.skip_to_type();
                let (t, a) = self.tv();
                if self.lx.word() != "to" {
                    self.lx.fail("cast to");
                }
                let t2 = self.lx.ty();
                let k = match op {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "uitofp" => CastK::UiToFp,
                    "sitofp" => CastK::SiToFp,
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "fptrunc" => CastK::FpTrunc,
                    "fpext" => CastK::FpExt,
                    _ => CastK::Bit,
                };
                let (l1, l2) = (t.leaves(), t2.leaves());
                if l1.len() == l2.len() {
                    let dd = d!(l1.len() as u32);
                    for i in 0..l1.len() {
                        self.code.push(I::Cast { k, fw: l1[i].w, tw: l2[i].w, d: dd + i as u32, a: a[i] });
                    }
                } else {
                    d!(l2.len() as u32);
                    self.code.push(I::Unsupported("vector bitcast".into()));
                }
            }
            "load" => {
                loop {
                    let w = self.lx.peek_word();
                    if w == "atomic" || w == "volatile" {
                        self.lx.word();
                    } else {
                        break;
                    }
                }
                let t = self.lx.ty();
                self.lx.want(b',');
                let (_, p) = self.tv1();
                let ls = t.leaves();
                let dd = d!(ls.len() as u32);
                for (i, l) in ls.iter().enumerate() {
                    if l.off == 0 {
                        self.code.push(I::Load { d: dd + i as u32, p, w: l.w });
                    } else {
                        self.code.push(I::LoadOff { d: dd + i as u32, p, off: l.off as u32, w: l.w });
                    }
                }
            }
            "store" => {
                loop {
                    let w = self.lx.peek_word();
                    if w == "atomic" || w == "volatile" {
                        self.lx.word();
                    } else {
                        break;
                    }
                }
                let (t, v) = self.tv();
                self.lx.want(b',');
                let (_, p) = self.tv1();
                for (i, l) in t.leaves().iter().enumerate() {
                    if l.off == 0 {
                        self.code.push(I::Store { p, v: v[i], w: l.w });
                    } else {
                        self.code.push(I::StoreOff { p, off: l.off as u32, v: v[i], w: l.w });
                    }
                }
            }
            "getelementptr" => {
                self.lx.skip_to_type();
                let t = self.lx.ty();
                self.lx.want(b',');
                let (_, base) = self.tv1();
                let mut off: i64 = 0;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                loop {
                    let s = self.lx.p;
                    if !self.lx.eat(b',') {
                        break;
                    }
                    if self.lx.peek() == b'!' {
                        self.lx.p = s;
                        break;
                    }
                    let (it, i) = self.tv1();
                    let iw = it.width();
                    if first {
                        first = false;
                        let sc = cur.size() as i64;
                        if i & CONST != 0 {
                            off += crate::expr::sext(self.consts[(i & !CONST) as usize].v, iw) as i64 * sc;
                        } else {
                            idx.push((i, iw, sc));
                        }
                    } else {
                        match cur.clone() {
                            Ty::Arr(_, e) | Ty::Vector(_, e) => {
                                let sc = e.size() as i64;
                                if i & CONST != 0 {
                                    off += crate::expr::sext(self.consts[(i & !CONST) as usize].v, iw) as i64 * sc;
                                } else {
                                    idx.push((i, iw, sc));
                                }
                                cur = (*e).clone();
                            }
                            Ty::Struct(..) => {
                                let k = self.consts[(i & !CONST) as usize].v as u64;
                                let (o, nt) = cur.field_off(k);
                                off += o as i64;
                                cur = nt;
                            }
                            _ => self.lx.fail("gep"),
                        }
                    }
                }
                let dd = d!(1);
                self.code.push(I::Gep { d: dd, base, off, idx: idx.into() });
            }
            "alloca" => {
                if self.lx.peek_word() == "inalloca" {
                    self.lx.word();
                }
                let t = self.lx.ty();
                let mut n = 1u64;
                let mut align = t.align();
                while self.lx.t[self.lx.p] == b',' {
                    self.lx.p += 1;
                    if self.lx.peek() == b'!' {
                        break;
                    }
                    if self.lx.peek_word() == "align" {
                        self.lx.word();
                        align = self.lx.int() as u64;
                    } else if self.lx.peek_word() == "addrspace" {
                        self.lx.word();
                        self.lx.skip_parens();
                    } else {
                        let (_, v) = self.tv1();
                        if v & CONST == 0 {
                            self.lx.fail("dynamic alloca");
                        }
                        n = self.consts[(v & !CONST) as usize].v as u64;
                    }
                }
                let dd = d!(1);
                self.code.push(I::Alloca { d: dd, size: (t.size() * n) as u32, align: align as u32 });
            }
            "select" => {
                self.lx.skip_to_type();
                let (_, c) = self.tv1();
                self.lx.want(b',');
                let (t, a) = self.tv();
                self.lx.want(b',');
                let (_, b) = self.tv();
                let isptr = matches!(t, Ty::Ptr);
                let ls = t.leaves();
                let dd = d!(ls.len() as u32);
                for (i, l) in ls.iter().enumerate() {
                    self.code.push(I::Sel { w: l.w, d: dd + i as u32, c, a: a[i], b: b[i], isptr });
                }
            }
            "phi" => {
                self.lx.skip_to_type();
                let t = self.lx.ty();
                let n = t.nleaves();
                let dd = d!(n);
                let mut inc = vec![];
                loop {
                    self.lx.want(b'[');
                    let v = self.value(&t);
                    self.lx.want(b',');
                    self.lx.want(b'%');
                    let (l, q) = scan_name(self.lx.t, self.lx.p);
                    self.lx.p = q;
                    self.lx.want(b']');
                    inc.push((l, v));
                    self.lx.sp();
                    if self.lx.t[self.lx.p] == b',' {
                        let s = self.lx.p;
                        self.lx.p += 1;
                        if self.lx.peek() != b'[' {
                            self.lx.p = s;
                            break;
                        }
                        continue;
                    }
                    break;
                }
                self.phis[self.cur as usize].push((dd, n, inc));
            }
            "br" => {
                if self.lx.peek_word() == "label" {
                    let l = self.label();
                    let e = self.edge(l);
                    self.code.push(I::Br { e });
                } else {
                    let (_, c) = self.tv1();
                    self.lx.want(b',');
                    let a = self.label();
                    self.lx.want(b',');
                    let b = self.label();
                    let t = self.edge(a);
                    let f = self.edge(b);
                    self.code.push(I::CBr { c, t, f });
                }
            }
            "switch" => {
                let (t, v) = self.tv1();
                self.lx.want(b',');
                let dl = self.label();
                let def = self.edge(dl);
                self.lx.want(b'[');
                let mut cases = vec![];
                while !self.lx.eat(b']') {
                    let (_, c) = self.tv1();
                    let k = self.consts[(c & !CONST) as usize].v;
                    self.lx.want(b',');
                    let l = self.label();
                    let e = self.edge(l);
                    cases.push((k, e));
                }
                self.code.push(I::Switch { v, w: t.width(), cases: cases.into(), def });
            }
            "ret" => {
                if self.lx.peek_word() == "void" {
                    self.lx.word();
                    self.code.push(I::Ret { vals: Box::new([]) });
                } else {
                    let (_, v) = self.tv();
                    self.code.push(I::Ret { vals: v.into() });
                }
            }
            "unreachable" => self.code.push(I::Unreachable),
            "fence" => {}
            "freeze" => {
                let (t, a) = self.tv();
                let n = t.nleaves();
                let dd = d!(n);
                for i in 0..n {
                    self.code.push(I::Copy { d: dd + i, a: a[i as usize] });
                }
            }
            "extractvalue" => {
                let (t, a) = self.tv();
                let mut cur = t;
                let mut base = 0u32;
                while self.lx.t[self.lx.p] == b',' {
                    let s = self.lx.p;
                    self.lx.p += 1;
                    if !self.lx.peek().is_ascii_digit() {
                        self.lx.p = s;
                        break;
                    }
                    let i = self.lx.int() as u64;
                    let (b, nt) = leaf_base(&cur, i);
                    base += b;
                    cur = nt;
                }
                let n = cur.nleaves();
                let dd = d!(n);
                for i in 0..n {
                    self.code.push(I::Copy { d: dd + i, a: a[(base + i) as usize] });
                }
            }
            "insertvalue" => {
                let (t, a) = self.tv();
                self.lx.want(b',');
                let (_, v) = self.tv();
                let total = t.nleaves();
                let mut cur = t;
                let mut base = 0u32;
                while self.lx.t[self.lx.p] == b',' {
                    let s = self.lx.p;
                    self.lx.p += 1;
                    if !self.lx.peek().is_ascii_digit() {
                        self.lx.p = s;
                        break;
                    }
                    let i = self.lx.int() as u64;
                    let (b, nt) = leaf_base(&cur, i);
                    base += b;
                    cur = nt;
                }
                let dd = d!(total);
                let n = v.len() as u32;
                for i in 0..total {
                    let src = if i >= base && i < base + n { v[(i - base) as usize] } else { a[i as usize] };
                    self.code.push(I::Copy { d: dd + i, a: src });
                }
            }
            "atomicrmw" => {
                if self.lx.peek_word() == "volatile" {
                    self.lx.word();
                }
                let k = match self.lx.word() {
                    "xchg" => RmwK::Xchg,
                    "add" => RmwK::Add,
                    "sub" => RmwK::Sub,
                    "and" => RmwK::And,
                    "or" => RmwK::Or,
                    "xor" => RmwK::Xor,
                    "nand" => RmwK::Nand,
                    "max" => RmwK::Max,
                    "min" => RmwK::Min,
                    "umax" => RmwK::UMax,
                    "umin" => RmwK::UMin,
                    _ => self.lx.fail("rmw"),
                };
                let (_, p) = self.tv1();
                self.lx.want(b',');
                let (t, v) = self.tv1();
                let dd = d!(1);
                self.code.push(I::Rmw { k, d: dd, p, v, w: t.width() });
            }
            "cmpxchg" => {
                while matches!(self.lx.peek_word(), "weak" | "volatile") {
                    self.lx.word();
                }
                let (_, p) = self.tv1();
                self.lx.want(b',');
                let (t, c) = self.tv1();
                self.lx.want(b',');
                let (_, n) = self.tv1();
                let dd = d!(2);
                self.code.push(I::CmpXchg { d: dd, p, c, n, w: t.width() });
            }
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" {
                    self.lx.word();
                }
                self.lx.skip_to_type();
                let rt = self.lx.ty();
                self.lx.sp();
                if self.lx.t[self.lx.p] == b'(' {
                    self.lx.skip_parens();
                }
                self.lx.ws();
                enum C {
                    N(&'static [u8]),
                    R(u32),
                }
                let c = match self.lx.t[self.lx.p] {
                    b'@' => {
                        let (n, q) = scan_name(self.lx.t, self.lx.p + 1);
                        self.lx.p = q;
                        C::N(n)
                    }
                    b'a' => {
                        // inline asm
                        self.lx.eol();
                        d!(rt.nleaves());
                        if rt.nleaves() > 0 {
                            self.code.push(I::Unsupported("inline asm".into()));
                        }
                        return;
                    }
                    _ => C::R(self.value(&Ty::Ptr)[0]),
                };
                let intr = match &c {
                    C::N(n) if n.starts_with(b"llvm.") => Some(std::str::from_utf8(n).unwrap()),
                    _ => None,
                };
                let nd = rt.nleaves();
                if let Some(n) = intr {
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.invariant")
                        || n.starts_with("llvm.donothing")
                        || n.starts_with("llvm.prefetch")
                        || n.starts_with("llvm.pseudoprobe")
                    {
                        d!(nd);
                        self.lx.eol();
                        return;
                    }
                }
                self.lx.want(b'(');
                let mut args = vec![];
                let mut aw = vec![];
                if !self.lx.eat(b')') {
                    loop {
                        let t = self.lx.ty();
                        if matches!(t, Ty::Meta) {
                            // metadata operand: skip to , or )
                            while !matches!(self.lx.t[self.lx.p], b',' | b')') {
                                self.lx.p += 1;
                            }
                        } else {
                            self.lx.skip_attrs();
                            let v = self.value(&t);
                            for l in t.leaves() {
                                aw.push(l.w);
                            }
                            args.extend(v);
                        }
                        if self.lx.eat(b')') {
                            break;
                        }
                        self.lx.want(b',');
                    }
                }
                let dd = d!(nd);
                if let Some(n) = intr {
                    let base = n.strip_prefix("llvm.").unwrap();
                    let k = intr_kind(base);
                    let w = aw.first().copied().unwrap_or(0);
                    if k.is_empty() {
                        self.code.push(I::Unsupported(format!("intrinsic {}", n).into()));
                    } else {
                        self.code.push(I::Intr { k, name: n.into(), w, d: dd, args: args.into() });
                    }
                } else {
                    let f = match c {
                        C::N(n) => Callee::Direct(self.env.fn_id(self.lx.mi, n)),
                        C::R(r) => Callee::Ind(r),
                    };
                    self.code.push(I::Call { f, args: args.into(), d: dd, nd });
                }
            }
            _ => {
                let e = next_nl(self.lx.t, line);
                let s = String::from_utf8_lossy(&self.lx.t[line..e]).to_string();
                self.code.push(I::Unsupported(s.into()));
            }
        }
        self.lx.eol();
    }
}

fn leaf_base(t: &Ty, i: u64) -> (u32, Ty) {
    match t {
        Ty::Struct(f, _) => {
            let b = f[..i as usize].iter().map(|t| t.nleaves()).sum();
            (b, f[i as usize].clone())
        }
        Ty::Arr(_, e) | Ty::Vector(_, e) => (i as u32 * e.nleaves(), (**e).clone()),
        _ => panic!("leaf_base"),
    }
}

fn intr_kind(n: &str) -> &'static str {
    const KS: &[&str] = &[
        "memcpy.inline", "memcpy", "memmove", "memset.inline", "memset", "cttz", "ctlz", "ctpop", "fshl", "fshr", "bswap", "bitreverse", "trap",
        "sadd.with.overflow", "uadd.with.overflow", "ssub.with.overflow", "usub.with.overflow", "smul.with.overflow",
        "umul.with.overflow", "umin", "umax", "smin", "smax", "usub.sat", "uadd.sat", "ssub.sat", "sadd.sat", "ushl.sat", "sshl.sat", "threadlocal.address",
        "ucmp", "scmp", "abs", "fabs", "expect.with.probability", "expect", "floor", "ceil", "trunc", "round", "roundeven", "rint", "nearbyint", "sqrt",
        "copysign", "minnum", "maxnum", "minimumnum", "maximumnum", "fma", "fmuladd", "powi", "pow", "fptoui.sat", "fptosi.sat", "is.constant", "objectsize", "ptrmask",
        "stacksave", "stackrestore", "wasm.memory.size", "wasm.memory.grow", "is.fpclass", "launder.invariant.group", "exp", "log", "log2", "log10", "sin", "cos", "exp2", "load.relative",
    ];
    let mut best = "";
    for k in KS {
        if n == *k || (n.starts_with(k) && n.as_bytes().get(k.len()) == Some(&b'.')) {
            if k.len() > best.len() {
                best = k;
            }
        }
    }
    best
}

pub fn lower<E: Env>(mods: &Rc<Vec<Module>>, mi: usize, off: usize, gid: u32, env: &mut E) -> Func {
    let t = mods[mi].text;
    let mut lo = Lower {
        lx: Lx { t, p: off, mi, mods: Rc::clone(mods) },
        env,
        regs: HashMap::new(),
        nregs: 0,
        consts: vec![],
        cmap: HashMap::new(),
        code: vec![],
        edges: vec![],
        blocks: HashMap::new(),
        block_pc: vec![],
        phis: vec![],
        cur: 0,
    };
    // header
    let eol = next_nl(t, off);
    let at = off + t[off..eol].iter().position(|&c| c == b'@').unwrap();
    let (name, q) = scan_name(t, at + 1);
    lo.lx.p = q;
    lo.lx.want(b'(');
    let mut unnamed = 0u32;
    if !lo.lx.eat(b')') {
        loop {
            if lo.lx.peek() == b'.' {
                lo.lx.p += 3; // varargs
            } else {
                let ty = lo.lx.ty();
                // attributes until %name or , or )
                loop {
                    let c = lo.lx.peek();
                    if matches!(c, b'%' | b',' | b')') {
                        break;
                    }
                    if c == b'"' {
                        lo.lx.p += 1;
                        while t[lo.lx.p] != b'"' {
                            lo.lx.p += 1;
                        }
                        lo.lx.p += 1;
                        continue;
                    }
                    let w = lo.lx.word();
                    if w.is_empty() {
                        lo.lx.fail("param attr");
                    }
                    if w == "align" && lo.lx.peek() != b'(' {
                        lo.lx.word();
                    }
                    if t[lo.lx.p] == b'(' {
                        lo.lx.skip_parens();
                    }
                }
                let n = ty.nleaves();
                if lo.lx.eat(b'%') {
                    let (pn, q) = scan_name(t, lo.lx.p);
                    lo.lx.p = q;
                    if pn[0].is_ascii_digit() {
                        unnamed += 1;
                    }
                    lo.reg(pn, n);
                } else {
                    let s: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                    lo.reg(s.as_bytes(), n);
                    unnamed += 1;
                }
            }
            if lo.lx.eat(b')') {
                break;
            }
            lo.lx.want(b',');
        }
    }
    let nparams = lo.nregs;
    lo.lx.eol();
    // body
    let mut started = false;
    loop {
        lo.lx.ws();
        let p = lo.lx.p;
        if t[p] == b'}' {
            break;
        }
        if t[p] == b';' {
            lo.lx.eol();
            continue;
        }
        // label?
        let is_label = {
            let e = next_nl(t, p);
            let (n, q) = scan_name(t, p);
            let c = if !n.is_empty() && q < e && t[q] == b':' && (t[p - 1] == b'\n') { Some((n, q)) } else { None };
            c
        };
        if let Some((n, _)) = is_label {
            let bi = lo.block_pc.len() as u32;
            lo.blocks.insert(n, bi);
            lo.block_pc.push(lo.code.len() as u32);
            lo.phis.push(vec![]);
            lo.cur = bi;
            started = true;
            lo.lx.eol();
            continue;
        }
        if !started {
            let s: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
            lo.blocks.insert(s.as_bytes(), 0);
            lo.block_pc.push(0);
            lo.phis.push(vec![]);
            lo.cur = 0;
            started = true;
        }
        let mut dst = None;
        if t[p] == b'%' {
            let (n, q) = scan_name(t, p + 1);
            lo.lx.p = q;
            lo.lx.want(b'=');
            lo.lx.ws();
            dst = Some(n);
        }
        lo.inst(dst);
    }
    // edges
    let names: HashMap<u32, &'static [u8]> = lo.blocks.iter().map(|(k, v)| (*v, *k)).collect();
    let mut edges = vec![];
    for (src, target) in &lo.edges {
        let bi = lo.blocks[target];
        let sname = names[src];
        let mut copies = vec![];
        for (d, n, inc) in &lo.phis[bi as usize] {
            let v = &inc.iter().find(|(l, _)| *l == sname).unwrap_or_else(|| panic!("phi incoming in {}", String::from_utf8_lossy(name))).1;
            for i in 0..*n {
                copies.push((d + i, v[i as usize]));
            }
        }
        edges.push(Edge { pc: lo.block_pc[bi as usize], copies: copies.into() });
    }
    Func {
        gid,
        name: std::str::from_utf8(name).unwrap(),
        nregs: lo.nregs,
        nparams,
        code: lo.code,
        edges,
        consts: lo.consts,
    }
}

/// Parse a global's initialiser: returns (type, position of the initialiser).
pub fn global_header(mods: &Rc<Vec<Module>>, mi: usize, off: usize) -> (Ty, usize) {
    let t = mods[mi].text;
    let (_, q) = scan_name(t, off + 1);
    let mut lx = Lx { t, p: q, mi, mods: Rc::clone(mods) };
    lx.want(b'=');
    // skip linkage words until "global" or "constant"
    loop {
        let w = lx.word();
        if w == "global" || w == "constant" {
            break;
        }
        if w.is_empty() {
            lx.fail("global");
        }
        if t[lx.p] == b'(' {
            lx.skip_parens();
        }
    }
    let ty = lx.ty();
    let p = lx.p;
    (ty, p)
}
