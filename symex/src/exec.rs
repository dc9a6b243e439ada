//! The symbolic executor.  One OS process per path: at a branch on a symbolic condition whose two
//! sides are both feasible the process forks (copy-on-write memory is the state copy).

use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use crate::sys;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, Ordering::Relaxed};
use std::time::Instant;

pub const MEM: u64 = 0x4000_0000; // 1 GiB of guest memory
pub const FN_BASE: u32 = 0x8000_0000;
const STACK_LO: u32 = 0x0001_0000;
const STACK_HI: u32 = 0x0200_0000;
const GLOB_LO: u32 = 0x0200_0000;
const GLOB_HI: u32 = 0x0800_0000;
const HEAP_LO: u32 = 0x0800_0000;
const COV: usize = 1 << 20;

#[repr(C)]
pub struct Shared {
    pub tokens: AtomicI32,
    pub stop: AtomicU32,
    pub paths: AtomicU64,
    pub cut_assume: AtomicU64,
    pub violations: AtomicU64,
    pub incomplete: AtomicU64,
    pub forks: AtomicU64,
    pub queries: AtomicU64,
    pub q_sat: AtomicU64,
    pub q_unsat: AtomicU64,
    pub q_unknown: AtomicU64,
    pub z3_ns: AtomicU64,
    pub dom_dec: AtomicU64,
    pub obl: AtomicU64,
    pub obl_path: AtomicU64,
    pub obl_solver: AtomicU64,
    pub instrs: AtomicU64,
    pub branches: AtomicU64,
    pub logged: AtomicU64,
    pub vlogged: AtomicU64,
    pub cut_time: AtomicU64,
    pub maxdepth: AtomicU64,
    pub marks: [Mark; 256],
    pub cov: [u8; COV],
}
#[repr(C)]
pub struct Mark {
    pub name: [u8; 64],
    pub n: AtomicU64,
}

pub fn cov_slot(mi: usize, off: usize) -> usize {
    let h = (off as u64 ^ ((mi as u64) << 40)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    (h >> 44) as usize
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum B {
    None,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    LibcRealloc,
    PosixMemalign,
    Memcmp,
    Memcpy,
    Memmove,
    Memset,
    Strlen,
    Panic,
    Abort,
    SymBytes,
    SymAssume,
    SymCheck,
    SymMark,
    SymOut,
    SymConc,
    SymSize,
    Clock,
    Random,
    Zero,
    PthreadKeyCreate,
    Write,
    Writev,
    Math1(u8),
    Math2(u8),
    Nop,
    SipWrite,
    Decimal(u8),
    Unresolved,
}

pub struct Slot {
    pub mi: usize,
    pub off: usize,
    pub name: &'static str,
    pub f: Option<Rc<Func>>,
    b: B,
}

pub struct Env2 {
    pub slots: Vec<Slot>,
    ids: HashMap<(usize, usize), u32>,
    ext_ids: HashMap<&'static [u8], u32>,
    gaddr: HashMap<(usize, usize), u32>,
    ext_gaddr: HashMap<&'static [u8], u32>,
    exports: HashMap<&'static [u8], (usize, Sym)>,
    mods: Rc<Vec<Module>>,
    gtop: u32,
    pending: Vec<(usize, usize, u32)>,
}

fn builtin(name: &str, has_body: bool) -> B {
    if name.contains("___rustc") || name.starts_with("__r") {
        if name.ends_with("___rust_alloc") {
            return B::Alloc;
        }
        if name.ends_with("___rust_alloc_zeroed") {
            return B::AllocZeroed;
        }
        if name.ends_with("___rust_dealloc") {
            return B::Dealloc;
        }
        if name.ends_with("___rust_realloc") {
            return B::Realloc;
        }
        if name.contains("no_alloc_shim") {
            return B::Nop;
        }
        if name.contains("rust_begin_unwind") || name.contains("rust_start_panic") {
            return B::Abort;
        }
    }
    if name.contains("4core9panicking9panic_fmt") || name.contains("4core9panicking19panic_nounwind_fmt") {
        return B::Panic;
    }
    if name.contains("4core4hash3sip") && name.contains("6Hasher") && name.contains("5write") && !name.contains("short") {
        return B::SipWrite;
    }
    if name.contains("3fmt3num3imp") && name.ends_with("10__fmt_inner") {
        // <uN as DisplayInt>::_fmt_inner
        for (c, w) in [("3impt10_", 16), ("3impm10_", 32), ("3impj10_", 32), ("3impy10_", 64)] {
            if name.contains(c) {
                return B::Decimal(w);
            }
        }
    }
    match name {
        "malloc" => return B::Malloc,
        "calloc" => return B::Calloc,
        "free" => return B::Free,
        "realloc" => return B::LibcRealloc,
        "posix_memalign" => return B::PosixMemalign,
        "memcmp" | "bcmp" => return B::Memcmp,
        "memcpy" => return B::Memcpy,
        "memmove" => return B::Memmove,
        "memset" => return B::Memset,
        "strlen" => return B::Strlen,
        "abort" | "_exit" | "exit" => return B::Abort,
        "__sym_bytes" => return B::SymBytes,
        "__sym_assume" => return B::SymAssume,
        "__sym_check" => return B::SymCheck,
        "__sym_mark" => return B::SymMark,
        "__sym_out" => return B::SymOut,
        "__sym_concrete" => return B::SymConc,
        "__sym_size" => return B::SymSize,
        "clock_gettime" => return B::Clock,
        "getenv" | "getcwd" | "sched_yield" | "pthread_setspecific" | "pthread_key_delete" | "pthread_getspecific" => return B::Zero,
        "pthread_key_create" => return B::PthreadKeyCreate,
        "write" => return B::Write,
        "writev" => return B::Writev,
        "exp" => return B::Math1(0),
        "log" => return B::Math1(1),
        "sin" => return B::Math1(2),
        "cos" => return B::Math1(3),
        "pow" => return B::Math2(0),
        "fmod" => return B::Math2(1),
        "log10" => return B::Math1(4),
        "log2" => return B::Math1(5),
        "cbrt" => return B::Math1(6),
        _ => {}
    }
    if name.contains("random_get") {
        return B::Random;
    }
    if has_body {
        B::None
    } else {
        B::Unresolved
    }
}

impl Env2 {
    pub fn new(mods: Rc<Vec<Module>>) -> Env2 {
        let mut exports = HashMap::new();
        for (i, m) in mods.iter().enumerate() {
            for (n, s) in &m.syms {
                match s {
                    Sym::Def(_, false) | Sym::Global(_, false) | Sym::Alias(_) => {
                        exports.entry(*n).or_insert((i, *s));
                    }
                    _ => {}
                }
            }
        }
        Env2 {
            slots: vec![],
            ids: HashMap::new(),
            ext_ids: HashMap::new(),
            gaddr: HashMap::new(),
            ext_gaddr: HashMap::new(),
            exports,
            mods,
            gtop: GLOB_LO,
            pending: vec![],
        }
    }
    fn def_id(&mut self, mi: usize, off: usize, name: &'static [u8]) -> u32 {
        if let Some(&i) = self.ids.get(&(mi, off)) {
            return i;
        }
        let i = self.slots.len() as u32;
        let name = std::str::from_utf8(name).unwrap();
        self.slots.push(Slot { mi, off, name, f: None, b: builtin(name, true) });
        self.ids.insert((mi, off), i);
        i
    }
    fn alias_target(&self, mi: usize, off: usize) -> &'static [u8] {
        // @a = ... alias <ty>, ptr @target
        let t = self.mods[mi].text;
        let e = off + t[off..].iter().position(|&c| c == b'\n').unwrap();
        let at = off + t[off..e].iter().rposition(|&c| c == b'@').unwrap();
        scan_name(t, at + 1).0
    }
    fn global(&mut self, mi: usize, off: usize) -> u32 {
        if let Some(&a) = self.gaddr.get(&(mi, off)) {
            return a;
        }
        let (ty, _) = global_header(&self.mods, mi, off);
        let al = ty.align().max(16);
        let a = round_up(self.gtop as u64, al) as u32;
        self.gtop = a + ty.size().max(1) as u32;
        assert!(self.gtop < GLOB_HI, "globals exhausted");
        self.gaddr.insert((mi, off), a);
        self.pending.push((mi, off, a));
        a
    }
    fn ext_fn(&mut self, name: &'static [u8]) -> u32 {
        if let Some(&i) = self.ext_ids.get(name) {
            return i;
        }
        let i = self.slots.len() as u32;
        let n = std::str::from_utf8(name).unwrap();
        self.slots.push(Slot { mi: usize::MAX, off: 0, name: n, f: None, b: builtin(n, false) });
        self.ext_ids.insert(name, i);
        i
    }
}

impl Env for Env2 {
    fn fn_id(&mut self, mi: usize, name: &'static [u8]) -> u32 {
        let s = self.mods[mi].syms.get(name).copied();
        match s {
            Some(Sym::Def(off, _)) => self.def_id(mi, off, name),
            Some(Sym::Alias(off)) => {
                let t = self.alias_target(mi, off);
                self.fn_id(mi, t)
            }
            _ => match self.exports.get(name).copied() {
                Some((m2, Sym::Def(off, _))) => self.def_id(m2, off, name),
                Some((m2, Sym::Alias(off))) => {
                    let t = self.alias_target(m2, off);
                    self.fn_id(m2, t)
                }
                _ => self.ext_fn(name),
            },
        }
    }
    fn sym_addr(&mut self, mi: usize, name: &'static [u8]) -> u32 {
        let s = self.mods[mi].syms.get(name).copied();
        match s {
            Some(Sym::Global(off, _)) => self.global(mi, off),
            Some(Sym::Def(..)) | Some(Sym::Decl) => FN_BASE + 16 * self.fn_id(mi, name),
            Some(Sym::Alias(off)) => {
                let t = self.alias_target(mi, off);
                self.sym_addr(mi, t)
            }
            _ => match self.exports.get(name).copied() {
                Some((m2, Sym::Global(off, _))) => self.global(m2, off),
                Some((m2, Sym::Def(..))) => FN_BASE + 16 * self.fn_id(m2, name),
                _ => {
                    // unresolved external data: give it 64 zero bytes
                    if let Some(&a) = self.ext_gaddr.get(name) {
                        return a;
                    }
                    let a = round_up(self.gtop as u64, 16) as u32;
                    self.gtop = a + 64;
                    self.ext_gaddr.insert(name, a);
                    a
                }
            },
        }
    }
}

struct Frame {
    f: *const Func,
    pc: u32,
    base: u32,
    d: u32,
    nd: u32,
    sp: u32,
}

pub struct Opts {
    pub jobs: i32,
    pub deadline: Instant,
    pub out: String,
    pub max_enum: usize,
    pub log_paths: u64,
    pub stop_after: u64,
    pub verbose: bool,
    pub max_instrs: u64,
    /// debugging: concrete values for the symbolic bytes, in order of creation
    pub pin: Vec<u8>,
    /// debugging: record the branches taken and write them at the end of each path
    pub blog: bool,
    pub params: Vec<(String, u64)>,
}

const SCOUT_MAX: usize = 1 << 16;

pub struct Machine {
    mods: Rc<Vec<Module>>,
    pub env: Env2,
    mem: *mut u8,
    shadow: *mut u32,
    nsym: *mut u16,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    sp: u32,
    heap: u32,
    free: HashMap<u32, Vec<u32>>,
    msize: HashMap<u32, u32>,
    ex: Exprs,
    solver: Solver,
    pc: Vec<(Eid, VarSet)>,
    model: Vec<u128>,
    inputs: Vec<(String, Vec<Eid>)>,
    out: Vec<Val>,
    marks: Vec<String>,
    pub sh: *mut Shared,
    opts: Opts,
    depth: u64,
    clock: u64,
    rnd: u8,
    instrs: u64,
    root: i32,
    npin: usize,
    /// Some(random state) in a scout: see `scouts`.
    scout: Option<u64>,
    scouted: bool,
    scout_list: *mut u64,
    scout_known: Vec<bool>,
    blog: Vec<(usize, u32, u32)>,
}

enum Stop {
    Done,
}

type R<T> = Result<T, Stop>;

impl Machine {
    pub fn new(mods: Rc<Vec<Module>>, opts: Opts, sh: *mut Shared) -> Machine {
        let env = Env2::new(Rc::clone(&mods));
        Machine {
            mods,
            env,
            mem: sys::map_private(MEM as usize + 64),
            shadow: sys::map_private((MEM as usize + 64) * 4) as *mut u32,
            nsym: sys::map_private((MEM as usize >> 8) * 2 + 64) as *mut u16,
            regs: vec![Val::c(0); 1 << 16],
            frames: vec![],
            sp: STACK_HI,
            heap: HEAP_LO,
            free: HashMap::new(),
            msize: HashMap::new(),
            ex: Exprs::new(),
            solver: Solver::new(40_000_000),
            pc: vec![],
            model: vec![],
            inputs: vec![],
            out: vec![],
            marks: vec![],
            sh,
            opts,
            depth: 0,
            clock: 1_000_000_000,
            rnd: 1,
            instrs: 0,
            root: unsafe { sys::getpid() },
            npin: 0,
            scout: None,
            scouted: false,
            scout_list: std::ptr::null_mut(),
            scout_known: vec![],
            blog: vec![],
        }
    }

    #[inline(always)]
    fn s(&self) -> &'static Shared {
        unsafe { &*self.sh }
    }

    // ---------------------------------------------------------------- path ends

    fn model_bytes(&self, es: &[Eid], model: &[u128]) -> Vec<u8> {
        let mut memo = HashMap::new();
        let mut out = vec![];
        for &e in es {
            out.push(self.ex.eval(e, model, &mut memo) as u8);
        }
        out
    }

    fn inputs_json(&self, model: &[u128]) -> String {
        let mut s = String::from("[");
        for (i, (n, es)) in self.inputs.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s += &format!("[{:?},\"{}\"]", n, hex(&self.model_bytes(es, model)));
        }
        s.push(']');
        s
    }

    fn append(&self, file: &str, line: &str) {
        use std::io::Write;
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(format!("{}/{}", self.opts.out, file)) {
            let _ = f.write_all(format!("{}\n", line).as_bytes());
        }
    }

    fn stack_names(&self) -> Vec<String> {
        self.frames.iter().rev().take(40).map(|f| unsafe { (*f.f).name.to_string() }).collect()
    }

    fn violation(&mut self, kind: &str, tag: &str, model: &[u128]) {
        self.write_blog();
        self.s().violations.fetch_add(1, Relaxed);
        let n = self.s().vlogged.fetch_add(1, Relaxed);
        if n < 400 {
            let st: Vec<String> = self.stack_names().iter().map(|s| format!("{:?}", s)).collect();
            let l = format!(
                "{{\"kind\":{:?},\"tag\":{:?},\"inputs\":{},\"marks\":{:?},\"stack\":[{}]}}",
                kind,
                tag,
                self.inputs_json(model),
                self.marks,
                st.join(",")
            );
            self.append("violations.jsonl", &l);
        }
        if n + 1 >= self.opts.stop_after {
            self.s().stop.store(1, Relaxed);
        }
    }

    fn incomplete(&mut self, why: &str) -> Stop {
        self.s().incomplete.fetch_add(1, Relaxed);
        let st: Vec<String> = self.stack_names().iter().take(12).map(|s| format!("{:?}", s)).collect();
        let l = format!("{{\"why\":{:?},\"inputs\":{},\"stack\":[{}]}}", why, self.inputs_json(&self.model), st.join(","));
        self.append("incomplete.jsonl", &l);
        Stop::Done
    }

    fn write_blog(&mut self) {
        use std::io::Write;
        if !self.opts.blog {
            return;
        }
        let p = format!("{}/blog.{}", self.opts.out, unsafe { sys::getpid() });
        let mut o = std::io::BufWriter::new(std::fs::File::create(p).unwrap());
        let _ = writeln!(o, "{}", self.inputs_json(&self.model));
        for (f, pc, k) in &self.blog {
            let n: &str = unsafe { &(*(*f as *const Func)).name };
            let _ = writeln!(o, "{} {} {}", n, pc, k);
        }
    }

    fn finish_path(&mut self) {
        if !self.opts.pin.is_empty() {
            self.write_blog();
        }
        let id = self.s().paths.fetch_add(1, Relaxed);
        // reservoir-free sampling: the first `log_paths`, then every 64th
        if id < self.opts.log_paths || (id % 64 == 0 && id < 64 * self.opts.log_paths) {
            self.s().logged.fetch_add(1, Relaxed);
            let mut memo = HashMap::new();
            let outb: Vec<u8> =
                self.out.iter().map(|v| if v.e == 0 { v.v as u8 } else { self.ex.eval(v.e, &self.model, &mut memo) as u8 }).collect();
            let l = format!(
                "{{\"inputs\":{},\"out\":\"{}\",\"marks\":{:?}}}",
                self.inputs_json(&self.model),
                hex(&outb),
                self.marks
            );
            self.append("paths.jsonl", &l);
        }
    }

    // ---------------------------------------------------------------- constraints and forking

    fn add_constraint(&mut self, c: Eid) {
        let k = self.ex.key(c);
        if k.op == Op::Const {
            return;
        }
        if k.op == Op::And && k.w == 1 {
            self.add_constraint(k.a);
            self.add_constraint(k.b);
            return;
        }
        let vars = self.ex.nodes[c as usize].vars;
        self.pc.push((c, vars));
        self.ex.fixed.insert(c, 1);
        let n = self.ex.mk_not(c);
        if self.ex.cval(n).is_none() {
            self.ex.fixed.insert(n, 0);
        }
        if k.op == Op::Eq {
            if let Some(v) = self.ex.cval(k.b) {
                self.ex.fixed.insert(k.a, v);
            }
        }
        if vs_count(&vars) == 1 {
            let v = vs_iter(&vars)[0];
            let w = self.ex.vars[v as usize].w;
            if w <= 8 {
                let mut asg = self.model.clone();
                if asg.len() <= v as usize {
                    asg.resize(v as usize + 1, 0);
                }
                let mut dom = self.ex.vars[v as usize].dom;
                let (mut lo, mut hi, mut any, mut n) = (u128::MAX, 0u128, 0u128, 0);
                for x in 0..(1u32 << w) {
                    if dom[x as usize / 64] >> (x % 64) & 1 == 0 {
                        continue;
                    }
                    asg[v as usize] = x as u128;
                    let mut memo = HashMap::new();
                    if self.ex.eval(c, &asg, &mut memo) == 0 {
                        dom[x as usize / 64] &= !(1 << (x % 64));
                    } else {
                        lo = lo.min(x as u128);
                        hi = hi.max(x as u128);
                        any |= x as u128;
                        n += 1;
                    }
                }
                self.ex.vars[v as usize].dom = dom;
                let e = self.ex.vars[v as usize].eid;
                if n == 1 {
                    self.ex.fixed.insert(e, lo);
                }
                if n >= 1 {
                    let nd = &mut self.ex.nodes[e as usize];
                    nd.lo = lo;
                    nd.hi = hi;
                    nd.kz = mask(w) & !any;
                }
            }
        } else {
            for v in vs_iter(&vars) {
                self.ex.vars[v as usize].unary_only = false;
            }
        }
        self.ex.gen += 1;
    }

    fn slice(&self, vars: &VarSet) -> (Vec<Eid>, VarSet) {
        let mut cur = *vars;
        let mut used = vec![false; self.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, (e, v)) in self.pc.iter().enumerate() {
                if !used[i] && vs_inter(v, &cur) {
                    used[i] = true;
                    out.push(*e);
                    let n = vs_or(&cur, v);
                    if n != cur {
                        cur = n;
                        ch = true;
                    }
                }
            }
            if !ch {
                return (out, cur);
            }
        }
    }

    /// Is `c` satisfiable together with the path condition?  On sat returns a full model.
    fn query(&mut self, c: Eid) -> (Sat, Vec<u128>) {
        let vars = self.ex.nodes[c as usize].vars;
        let (mut cs, vs) = self.slice(&vars);
        cs.push(c);
        let vl = vs_iter(&vs);
        let mut m = self.model.clone();
        let t = Instant::now();
        let r = self.solver.check(&self.ex, &cs, &vl, &mut m);
        let sh = self.s();
        sh.z3_ns.fetch_add(t.elapsed().as_nanos() as u64, Relaxed);
        sh.queries.fetch_add(1, Relaxed);
        match r {
            Sat::Sat => &sh.q_sat,
            Sat::Unsat => &sh.q_unsat,
            Sat::Unknown => &sh.q_unknown,
        }
        .fetch_add(1, Relaxed);
        (r, m)
    }

    /// Feasibility of both outcomes: returns models for (true, false); None = infeasible.
    fn both(&mut self, c: Eid) -> (Option<Vec<u128>>, Option<Vec<u128>>, bool) {
        let vars = self.ex.nodes[c as usize].vars;
        let mut unknown = false;
        if vs_count(&vars) == 1 {
            let v = vs_iter(&vars)[0] as usize;
            let vi = &self.ex.vars[v];
            if vi.w <= 8 {
                let dom = vi.dom;
                let exact = vi.unary_only;
                let w = vi.w;
                let mut asg = self.model.clone();
                if asg.len() <= v {
                    asg.resize(v + 1, 0);
                }
                let cur = asg[v];
                let (mut t, mut f) = (None, None);
                for x in 0..(1u32 << w) {
                    if dom[x as usize / 64] >> (x % 64) & 1 == 0 {
                        continue;
                    }
                    asg[v] = x as u128;
                    let mut memo = HashMap::new();
                    let r = self.ex.eval(c, &asg, &mut memo);
                    let slot = if r == 1 { &mut t } else { &mut f };
                    // prefer the current model's value
                    if slot.is_none() || x as u128 == cur {
                        *slot = Some(x as u128);
                    }
                }
                let mk = |x: u128| {
                    let mut m = asg.clone();
                    m[v] = x;
                    m
                };
                if exact || t.is_none() || f.is_none() {
                    self.s().dom_dec.fetch_add(1, Relaxed);
                    if !exact {
                        // the surviving side is feasible because the path is; keep the model
                        let m = self.model.clone();
                        return if t.is_some() { (Some(m), None, false) } else { (None, Some(m), false) };
                    }
                    return (t.map(mk), f.map(mk), false);
                }
            }
        }
        let mut memo = HashMap::new();
        let now = self.ex.eval(c, &self.model, &mut memo);
        let m = self.model.clone();
        let other = if now == 1 { self.ex.mk_not(c) } else { c };
        let (r, m2) = self.query(other);
        let o = match r {
            Sat::Sat => Some(m2),
            Sat::Unsat => None,
            Sat::Unknown => {
                unknown = true;
                None
            }
        };
        if now == 1 {
            (Some(m), o, unknown)
        } else {
            (o, Some(m), unknown)
        }
    }

    /// Functions are translated when first called.  Those first called after the first fork would be
    /// translated again in every path, so before it a few scouts each follow one path, with random
    /// choices, private counters and no output, and what they needed is translated here once.
    /// Nothing a scout finds is used otherwise: all paths are still explored.
    fn scouts(&mut self) {
        self.scouted = true;
        if self.opts.jobs < 2 {
            return;
        }
        let list = sys::map_shared(8 + SCOUT_MAX * 32) as *mut u64;
        let count = unsafe { &*(list as *const AtomicU64) };
        let known: Vec<bool> = self.env.slots.iter().map(|s| s.f.is_some()).collect();
        let n = 3 * self.opts.jobs as u64;
        let mut pids = vec![];
        for i in 0..n {
            let pid = unsafe { sys::fork() };
            if pid < 0 {
                break;
            }
            if pid > 0 {
                pids.push(pid);
                continue;
            }
            let own = sys::map_private(std::mem::size_of::<Shared>()) as *mut Shared;
            self.sh = own;
            self.scout = Some(0x9E37_79B9_7F4A_7C15u64.wrapping_mul(i + 1));
            self.opts.out = String::from("/nonexistent");
            self.opts.deadline = Instant::now() + std::time::Duration::from_secs(4);
            self.opts.max_instrs = self.instrs + 30_000_000;
            self.scout_list = list;
            self.scout_known = known;
            return;
        }
        for p in pids {
            let mut st = 0;
            unsafe { sys::waitpid(p, &mut st, 0) };
        }
        let k = (count.load(Relaxed) as usize).min(SCOUT_MAX);
        let mut fs = vec![];
        for i in 0..k {
            unsafe {
                let p = list.add(1 + 4 * i);
                fs.push((*p as usize, *p.add(1) as usize, *p.add(2), *p.add(3)));
            }
        }
        fs.sort();
        fs.dedup_by_key(|f| (f.0, f.1));
        for (mi, off, np, nl) in fs {
            let name: &'static [u8] = unsafe { std::slice::from_raw_parts(np as *const u8, nl as usize) };
            let gid = self.env.def_id(mi, off, name);
            self.func(gid);
        }
    }

    /// Fork; returns true in the child.
    fn fork(&mut self) -> bool {
        let sh = self.s();
        sh.forks.fetch_add(1, Relaxed);
        // a free worker token lets both sides run concurrently
        let mut t = sh.tokens.load(Relaxed);
        let mut got = false;
        while t > 0 {
            match sh.tokens.compare_exchange(t, t - 1, Relaxed, Relaxed) {
                Ok(_) => {
                    got = true;
                    break;
                }
                Err(x) => t = x,
            }
        }
        self.flush_instrs();
        let pid = unsafe { sys::fork() };
        if pid < 0 {
            panic!("fork failed");
        }
        if pid == 0 {
            self.depth += 1;
            sh.maxdepth.fetch_max(self.depth, Relaxed);
            if got {
                // we own a token of our own
                OWN.store(1, Relaxed);
            } else {
                OWN.store(0, Relaxed);
            }
            true
        } else {
            if !got {
                let mut st = 0;
                unsafe { sys::waitpid(pid, &mut st, 0) };
                if st != 0 {
                    self.s().incomplete.fetch_add(1, Relaxed);
                    self.append("incomplete.jsonl", &format!("{{\"why\":\"worker died with status {}\"}}", st));
                }
            }
            false
        }
    }

    fn flush_instrs(&mut self) {
        self.s().instrs.fetch_add(self.instrs, Relaxed);
        self.instrs = 0;
    }

    /// Decide a symbolic branch condition.
    fn decide(&mut self, c: Eid) -> R<bool> {
        let c = self.ex.simplify(c);
        if let Some(v) = self.ex.cval(c) {
            return Ok(v == 1);
        }
        self.s().branches.fetch_add(1, Relaxed);
        let (t, f, unk) = self.both(c);
        if unk {
            let s = self.incomplete("solver returned unknown at a branch");
            if t.is_none() && f.is_none() {
                return Err(s);
            }
        }
        match (t, f) {
            (Some(m), None) => {
                self.model = m;
                // implied: remember it
                if unk {
                    self.add_constraint(c);
                } else {
                    self.ex.fixed.insert(c, 1);
                }
                Ok(true)
            }
            (None, Some(m)) => {
                self.model = m;
                if unk {
                    let nc = self.ex.mk_not(c);
                    self.add_constraint(nc);
                } else {
                    self.ex.fixed.insert(c, 0);
                }
                Ok(false)
            }
            (Some(mt), Some(mf)) => {
                self.poll()?;
                let nc = self.ex.mk_not(c);
                if !self.scouted && self.scout.is_none() {
                    self.scouts();
                }
                let yes = match &mut self.scout {
                    Some(r) => {
                        *r ^= *r << 13;
                        *r ^= *r >> 7;
                        *r ^= *r << 17;
                        *r >> 40 & 1 == 1
                    }
                    None => self.fork(),
                };
                if yes {
                    self.model = mt;
                    self.add_constraint(c);
                    Ok(true)
                } else {
                    self.poll()?;
                    self.model = mf;
                    self.add_constraint(nc);
                    Ok(false)
                }
            }
            (None, None) => {
                Err(self.incomplete("internal: path condition has no model"))
            }
        }
    }

    fn poll(&mut self) -> R<()> {
        if self.s().stop.load(Relaxed) != 0 {
            return Err(Stop::Done);
        }
        if Instant::now() > self.opts.deadline {
            if self.s().cut_time.fetch_add(1, Relaxed) == 0 {
                self.incomplete("time budget exhausted");
            }
            self.s().stop.store(2, Relaxed);
            return Err(Stop::Done);
        }
        Ok(())
    }

    /// Possible values of an expression, when cheaply enumerable without forking.
    fn values(&mut self, e: Eid, limit: usize) -> Option<Vec<u128>> {
        let e = self.ex.simplify(e);
        if let Some(v) = self.ex.cval(e) {
            return Some(vec![v]);
        }
        let vars = self.ex.nodes[e as usize].vars;
        if vs_count(&vars) == 1 {
            let v = vs_iter(&vars)[0] as usize;
            let (w, dom) = (self.ex.vars[v].w, self.ex.vars[v].dom);
            if w <= 8 {
                let mut asg = self.model.clone();
                if asg.len() <= v {
                    asg.resize(v + 1, 0);
                }
                let mut out = vec![];
                for x in 0..(1u32 << w) {
                    if dom[x as usize / 64] >> (x % 64) & 1 == 1 {
                        asg[v] = x as u128;
                        let mut memo = HashMap::new();
                        out.push(self.ex.eval(e, &asg, &mut memo));
                    }
                }
                out.sort();
                out.dedup();
                return if out.len() <= limit.max(256) { Some(out) } else { None };
            }
        }
        // ite tree with constant leaves
        let mut out = vec![];
        let mut st = vec![e];
        let mut ok = true;
        let mut seen = std::collections::HashSet::new();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let k = self.ex.key(x);
            match k.op {
                Op::Const => out.push(k.k),
                Op::Ite => {
                    st.push(k.b);
                    st.push(k.c);
                }
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        if ok && out.len() <= limit {
            out.sort();
            out.dedup();
            return Some(out);
        }
        None
    }

    /// Enumerate with the solver (complete or None).
    fn enum_solver(&mut self, e: Eid, limit: usize) -> Option<Vec<u128>> {
        let w = self.ex.w(e);
        let mut out: Vec<u128> = vec![];
        let mut memo = HashMap::new();
        out.push(self.ex.eval(e, &self.model, &mut memo));
        let mut excl = self.ex.konst(1, 1);
        loop {
            let k = self.ex.konst(w, *out.last().unwrap());
            let eq = self.ex.mk_bin(Op::Eq, e, k);
            let ne = self.ex.mk_not(eq);
            excl = self.ex.mk_bin(Op::And, excl, ne);
            if self.ex.cval(excl) == Some(0) {
                return Some(out);
            }
            let (r, m) = self.query(excl);
            match r {
                Sat::Unsat => return Some(out),
                Sat::Unknown => return None,
                Sat::Sat => {
                    if out.len() >= limit {
                        return None;
                    }
                    let mut memo = HashMap::new();
                    out.push(self.ex.eval(e, &m, &mut memo));
                }
            }
        }
    }

    /// Fork until `v` has one concrete value on this path.
    fn concretize(&mut self, v: Val, w: u32) -> R<u128> {
        if v.e == 0 {
            return Ok(v.v);
        }
        let mut n = 0;
        loop {
            let e = self.ex.simplify(v.e);
            if let Some(k) = self.ex.cval(e) {
                return Ok(k);
            }
            let mut memo = HashMap::new();
            let cur = self.ex.eval(e, &self.model, &mut memo);
            let k = self.ex.konst(w, cur);
            let eq = self.ex.mk_bin(Op::Eq, e, k);
            if self.decide(eq)? {
                self.ex.fixed.insert(e, cur);
                self.ex.gen += 1;
                return Ok(cur);
            }
            n += 1;
            if n > self.opts.max_enum {
                return Err(self.incomplete("too many values while concretising"));
            }
        }
    }

    // ---------------------------------------------------------------- memory

    #[inline(always)]
    fn any_sym(&self, a: u32, n: u32) -> bool {
        unsafe {
            let b0 = a >> 8;
            let b1 = (a + n - 1) >> 8;
            *self.nsym.add(b0 as usize) != 0 || (b1 != b0 && *self.nsym.add(b1 as usize) != 0)
        }
    }
    fn any_sym_range(&self, a: u32, n: u32) -> bool {
        if n == 0 {
            return false;
        }
        let (b0, b1) = (a >> 8, (a + n - 1) >> 8);
        (b0..=b1).any(|b| unsafe { *self.nsym.add(b as usize) != 0 })
    }
    #[inline]
    fn set_byte(&mut self, a: u32, v: Val) {
        unsafe {
            let s = self.shadow.add(a as usize);
            let c = self.nsym.add((a >> 8) as usize);
            if v.e != 0 {
                if *s == 0 {
                    *c += 1;
                }
                *s = v.e;
            } else {
                if *c != 0 && *s != 0 {
                    *s = 0;
                    *c -= 1;
                }
                *self.mem.add(a as usize) = v.v as u8;
            }
        }
    }
    #[inline]
    fn get_byte(&self, a: u32) -> Val {
        unsafe {
            if *self.nsym.add((a >> 8) as usize) != 0 {
                let e = *self.shadow.add(a as usize);
                if e != 0 {
                    return self.ex.val(e);
                }
            }
            Val::c(*self.mem.add(a as usize) as u128)
        }
    }
    fn check_addr(&mut self, a: u32, n: u32) -> R<()> {
        if (a as u64) < 0x1000 || a as u64 + n as u64 > MEM {
            let m = self.model.clone();
            self.violation("memory", &format!("invalid memory access at {:#x}+{}", a, n), &m);
            return Err(Stop::Done);
        }
        Ok(())
    }
    #[inline(always)]
    fn load(&mut self, a: u32, w: u32) -> R<Val> {
        let n = (w + 7) / 8;
        if a < 0x1000 || a as u64 + n as u64 > MEM {
            self.check_addr(a, n)?;
        }
        if !self.any_sym(a, n) {
            unsafe {
                let p = self.mem.add(a as usize);
                let v = match n {
                    1 => *p as u128,
                    2 => (p as *const u16).read_unaligned() as u128,
                    4 => (p as *const u32).read_unaligned() as u128,
                    8 => (p as *const u64).read_unaligned() as u128,
                    16 => (p as *const u128).read_unaligned(),
                    _ => {
                        let mut v = 0u128;
                        for i in 0..n {
                            v |= (*p.add(i as usize) as u128) << (8 * i);
                        }
                        v
                    }
                };
                return Ok(Val::c(v & mask(w)));
            }
        }
        Ok(self.load_sym(a, w))
    }
    fn load_sym(&mut self, a: u32, w: u32) -> Val {
        let n = (w + 7) / 8;
        let bs: Vec<Val> = (0..n).map(|i| self.get_byte(a + i)).collect();
        if bs.iter().all(|b| b.e == 0) {
            let mut v = 0u128;
            for (i, b) in bs.iter().enumerate() {
                v |= b.v << (8 * i);
            }
            return Val::c(v & mask(w));
        }
        let mut e = self.ex.id(8, bs[n as usize - 1]);
        for i in (0..n as usize - 1).rev() {
            let l = self.ex.id(8, bs[i]);
            e = self.ex.mk_concat(e, l);
        }
        let e = self.ex.mk_extract(e, 0, w);
        self.ex.val(e)
    }
    #[inline(always)]
    fn store(&mut self, a: u32, v: Val, w: u32) -> R<()> {
        let n = (w + 7) / 8;
        if a < 0x1000 || a as u64 + n as u64 > MEM {
            self.check_addr(a, n)?;
        }
        if v.e == 0 {
            if self.any_sym(a, n) {
                for i in 0..n {
                    self.set_byte(a + i, Val::c(v.v >> (8 * i) & 0xff));
                }
            } else {
                unsafe {
                    let p = self.mem.add(a as usize);
                    match n {
                        1 => *p = v.v as u8,
                        2 => (p as *mut u16).write_unaligned(v.v as u16),
                        4 => (p as *mut u32).write_unaligned(v.v as u32),
                        8 => (p as *mut u64).write_unaligned(v.v as u64),
                        16 => (p as *mut u128).write_unaligned(v.v),
                        _ => {
                            for i in 0..n {
                                *p.add(i as usize) = (v.v >> (8 * i)) as u8;
                            }
                        }
                    }
                }
            }
        } else {
            let mut e = v.e;
            if w % 8 != 0 {
                e = self.ex.mk_zext(e, n * 8);
            }
            for i in 0..n {
                let b = self.ex.mk_extract(e, i * 8, 8);
                let bv = self.ex.val(b);
                self.set_byte(a + i, bv);
            }
        }
        Ok(())
    }
    fn load_at(&mut self, p: Val, w: u32) -> R<Val> {
        if p.e == 0 {
            return self.load(p.v as u32, w);
        }
        let vals = match self.values(p.e, 300) {
            Some(v) => Some(v),
            None => {
                let e = self.ex.simplify(p.e);
                // sorted: the ranges below rely on it
                self.enum_solver(e, 64).map(|mut v| {
                    v.sort();
                    v
                })
            }
        };
        if let Some(vs) = vals {
            // keep only addresses that are in bounds for a data access; an out-of-bounds candidate
            // of an over-approximated set is dropped only if the solver says it is infeasible
            let pe = self.ex.simplify(p.e);
            let mut items = vec![];
            for a in vs {
                let n = (w + 7) / 8;
                if (a as u64) < 0x1000 || a as u64 + n as u64 > MEM {
                    let k = self.ex.konst(32, a);
                    let c = self.ex.mk_bin(Op::Eq, pe, k);
                    if self.ex.cval(c) == Some(0) {
                        continue;
                    }
                    let (r, m) = self.query(c);
                    if r == Sat::Unsat {
                        continue;
                    }
                    self.violation("memory", &format!("invalid memory access at {:#x}", a), &m);
                    return Err(Stop::Done);
                }
                let v = self.load(a as u32, w)?;
                items.push((a, v));
            }
            // merge runs of equal values into range tests (addresses are sorted)
            let mut groups: Vec<(u128, u128, Val)> = vec![];
            for (a, v) in items {
                if let Some(g) = groups.last_mut() {
                    if g.2 == v {
                        g.1 = a;
                        continue;
                    }
                }
                groups.push((a, a, v));
            }
            if let Some((_, _, last)) = groups.pop() {
                let mut e = self.ex.id(w, last);
                for (_, hi, v) in groups.into_iter().rev() {
                    let k = self.ex.konst(32, hi);
                    let c = self.ex.mk_bin(Op::Ule, pe, k);
                    let x = self.ex.id(w, v);
                    e = self.ex.mk_ite(c, x, e);
                }
                return Ok(self.ex.val(e));
            }
        }
        let a = self.concretize(p, 32)?;
        self.load(a as u32, w)
    }
    fn addr(&mut self, p: Val) -> R<u32> {
        if p.e == 0 {
            Ok(p.v as u32)
        } else {
            Ok(self.concretize(p, 32)? as u32)
        }
    }

    fn memmove(&mut self, d: u32, s: u32, n: u32) -> R<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        self.check_addr(d, n)?;
        self.check_addr(s, n)?;
        if !self.any_sym_range(s, n) && !self.any_sym_range(d, n) {
            unsafe { std::ptr::copy(self.mem.add(s as usize), self.mem.add(d as usize), n as usize) };
        } else {
            let bs: Vec<Val> = (0..n).map(|i| self.get_byte(s + i)).collect();
            for (i, b) in bs.into_iter().enumerate() {
                self.set_byte(d + i as u32, b);
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- allocator

    fn class(n: u32) -> u32 {
        if n <= 16 {
            16
        } else if n <= 256 {
            (n + 15) & !15
        } else if n <= 4096 {
            (n + 255) & !255
        } else {
            (n + 4095) & !4095
        }
    }
    fn alloc(&mut self, n: u32, align: u32) -> R<u32> {
        let c = Self::class(n);
        if align <= 16 {
            if let Some(l) = self.free.get_mut(&c) {
                if let Some(a) = l.pop() {
                    return Ok(a);
                }
            }
        }
        let al = align.max(16);
        let a = round_up(self.heap as u64, al as u64) as u32;
        let top = a as u64 + c as u64;
        if top > MEM {
            return Err(self.incomplete("guest heap exhausted"));
        }
        self.heap = top as u32;
        Ok(a)
    }
    fn dealloc(&mut self, a: u32, n: u32) {
        let c = Self::class(n);
        if a % 16 == 0 && a >= HEAP_LO {
            self.free.entry(c).or_default().push(a);
        }
    }

    // ---------------------------------------------------------------- globals

    fn init_globals(&mut self) {
        while let Some((mi, off, addr)) = self.env.pending.pop() {
            let (ty, p) = global_header(&self.mods, mi, off);
            let mods = Rc::clone(&self.mods);
            let t = mods[mi].text;
            let mut lx = Lx { t, p, mi, mods };
            self.ginit(&mut lx, &ty, addr);
        }
    }
    fn ginit(&mut self, lx: &mut Lx, ty: &Ty, addr: u32) {
        let vals = lx.constant(ty, &mut self.env);
        let ls = ty.leaves();
        assert_eq!(vals.len(), ls.len(), "initialiser");
        for (v, l) in vals.iter().zip(ls.iter()) {
            if *v == 0 {
                continue;
            }
            let n = (l.w + 7) / 8;
            for i in 0..n {
                unsafe { *self.mem.add((addr as u64 + l.off) as usize + i as usize) = (*v >> (8 * i)) as u8 };
            }
        }
    }

    fn func(&mut self, gid: u32) -> *const Func {
        if let Some(f) = &self.env.slots[gid as usize].f {
            return Rc::as_ptr(f);
        }
        let (mi, off) = {
            let s = &self.env.slots[gid as usize];
            (s.mi, s.off)
        };
        let mods = Rc::clone(&self.mods);
        let f = Rc::new(lower(&mods, mi, off, gid, &mut self.env));
        self.init_globals();
        let p = Rc::as_ptr(&f);
        self.env.slots[gid as usize].f = Some(f);
        p
    }

    // ---------------------------------------------------------------- running

    fn push(&mut self, gid: u32, args: &[Val], d: u32, nd: u32) {
        let f = self.func(gid);
        let slot = {
            let s = &self.env.slots[gid as usize];
            cov_slot(s.mi, s.off)
        };
        unsafe { (*self.sh).cov[slot] |= if self.ex.vars.is_empty() { 1 } else { 3 } };
        let f_ref = unsafe { &*f };
        let base = match self.frames.last() {
            Some(fr) => fr.base + unsafe { (*fr.f).nregs },
            None => 0,
        };
        let need = (base + f_ref.nregs) as usize;
        if self.regs.len() < need + 16 {
            self.regs.resize(need * 2 + 1024, Val::c(0));
        }
        for (i, v) in args.iter().enumerate() {
            self.regs[base as usize + i] = *v;
        }
        self.frames.push(Frame { f, pc: 0, base, d, nd, sp: self.sp });
    }

    pub fn run(&mut self, entry: &'static str) {
        let gid = match self.env.exports.get(entry.as_bytes()).copied() {
            Some((mi, Sym::Def(off, _))) => self.env.def_id(mi, off, entry.as_bytes()),
            _ => panic!("entry {} not found", entry),
        };
        self.push(gid, &[], 0, 0);
        let r = self.exec();
        if let Ok(()) = r {
            self.finish_path();
        }
        self.flush_instrs();
        self.finish_process();
    }

    fn scout_end(&mut self) -> ! {
        let list = self.scout_list;
        let count = unsafe { &*(list as *const AtomicU64) };
        for (j, s) in self.env.slots.iter().enumerate() {
            if s.f.is_some() && s.mi != usize::MAX && !self.scout_known.get(j).copied().unwrap_or(false) {
                let k = count.fetch_add(1, Relaxed) as usize;
                if k < SCOUT_MAX {
                    unsafe {
                        let p = list.add(1 + 4 * k);
                        *p = s.mi as u64;
                        *p.add(1) = s.off as u64;
                        *p.add(2) = s.name.as_ptr() as u64;
                        *p.add(3) = s.name.len() as u64;
                    }
                }
            }
        }
        unsafe { sys::_exit(0) }
    }

    fn finish_process(&mut self) -> ! {
        if self.scout.is_some() {
            self.scout_end();
        }
        if unsafe { sys::getpid() } == self.root {
            // wait for everybody (children are re-parented to us: subreaper)
            self.s().tokens.fetch_add(1, Relaxed);
            loop {
                let mut st = 0;
                let p = unsafe { sys::waitpid(-1, &mut st, 0) };
                if p < 0 {
                    break;
                }
                if st != 0 {
                    self.s().incomplete.fetch_add(1, Relaxed);
                    self.append("incomplete.jsonl", &format!("{{\"why\":\"worker died with status {}\"}}", st));
                }
            }
            crate::report(self);
            unsafe { sys::_exit(0) }
        }
        if OWN.load(Relaxed) == 1 {
            self.s().tokens.fetch_add(1, Relaxed);
        }
        unsafe { sys::_exit(0) }
    }

    fn exec(&mut self) -> R<()> {
        let mut f: &'static Func = unsafe { &*self.frames.last().unwrap().f };
        let mut pc: usize = 0;
        let mut base: usize = self.frames.last().unwrap().base as usize;
        let mut regs: *mut Val = self.regs.as_mut_ptr();
        let mut countdown: u32 = 1_000_000;

        macro_rules! get {
            ($o:expr) => {{
                let o = $o;
                if o & CONST == 0 {
                    unsafe { *regs.add(base + o as usize) }
                } else {
                    unsafe { *f.consts.get_unchecked((o & !CONST) as usize) }
                }
            }};
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v: Val = $v;
                unsafe { *regs.add(base + $d as usize) = v }
            }};
        }
        macro_rules! sync {
            () => {
                self.frames.last_mut().unwrap().pc = pc as u32
            };
        }
        macro_rules! take {
            ($e:expr) => {{
                let e = unsafe { f.edges.get_unchecked($e as usize) };
                match e.copies.len() {
                    0 => {}
                    1 => {
                        let (d, s) = e.copies[0];
                        let v = get!(s);
                        set!(d, v);
                    }
                    _ => {
                        let mut buf = [Val::c(0); 64];
                        if e.copies.len() <= 64 {
                            for (i, (_, s)) in e.copies.iter().enumerate() {
                                buf[i] = get!(*s);
                            }
                            for (i, (d, _)) in e.copies.iter().enumerate() {
                                set!(*d, buf[i]);
                            }
                        } else {
                            let v: Vec<Val> = e.copies.iter().map(|(_, s)| get!(*s)).collect();
                            for (i, (d, _)) in e.copies.iter().enumerate() {
                                set!(*d, v[i]);
                            }
                        }
                    }
                }
                pc = e.pc as usize;
            }};
        }

        loop {
            countdown -= 1;
            if countdown == 0 {
                countdown = 1_000_000;
                self.instrs += 1_000_000;
                self.poll()?;
                if self.instrs > self.opts.max_instrs {
                    sync!();
                    return Err(self.incomplete("instruction budget of a path exhausted"));
                }
            }
            let ins = unsafe { f.code.get_unchecked(pc) };
            if self.opts.verbose {
                let n = f.nregs.min(12) as usize;
                let r: Vec<String> = (0..n).map(|i| unsafe { let v = *regs.add(base + i); if v.e != 0 { format!("e{}", v.e) } else { format!("{:x}", v.v) } }).collect();
                eprintln!("{} {}: {:?} | {}", &f.name[f.name.len().saturating_sub(60)..], pc, ins, r.join(" "));
            }
            pc += 1;
            match ins {
                I::Bin { op, w, d, a, b } => {
                    let (x, y) = (get!(*a), get!(*b));
                    let w = *w;
                    if x.e | y.e == 0 {
                        let m = mask(w);
                        let r = match op {
                            BinK::Add => x.v.wrapping_add(y.v) & m,
                            BinK::Sub => x.v.wrapping_sub(y.v) & m,
                            BinK::And => x.v & y.v,
                            BinK::Or => x.v | y.v,
                            BinK::Xor => x.v ^ y.v,
                            BinK::Mul => x.v.wrapping_mul(y.v) & m,
                            _ => fold(binop(*op), w, x.v, y.v),
                        };
                        set!(*d, Val::c(r));
                    } else {
                        let r = self.ex.bin(binop(*op), w, x, y);
                        set!(*d, r);
                    }
                }
                I::Icmp { p, w, d, a, b } => {
                    let (x, y) = (get!(*a), get!(*b));
                    let r = if x.e | y.e == 0 {
                        let t = match p {
                            Pred::Eq => x.v == y.v,
                            Pred::Ne => x.v != y.v,
                            Pred::Ult => x.v < y.v,
                            Pred::Ule => x.v <= y.v,
                            Pred::Ugt => x.v > y.v,
                            Pred::Uge => x.v >= y.v,
                            Pred::Slt => sext(x.v, *w) < sext(y.v, *w),
                            Pred::Sle => sext(x.v, *w) <= sext(y.v, *w),
                            Pred::Sgt => sext(x.v, *w) > sext(y.v, *w),
                            Pred::Sge => sext(x.v, *w) >= sext(y.v, *w),
                        };
                        Val::c(t as u128)
                    } else {
                        self.icmp(*p, *w, x, y)
                    };
                    set!(*d, r);
                }
                I::Load { d, p, w } => {
                    let a = get!(*p);
                    if a.e != 0 {
                        sync!();
                    }
                    let v = if a.e == 0 {
                        if (a.v as u32) < 0x1000 {
                            sync!();
                        }
                        self.load(a.v as u32, *w)?
                    } else {
                        self.load_at(a, *w)?
                    };
                    set!(*d, v);
                }
                I::LoadOff { d, p, off, w } => {
                    let a = get!(*p);
                    sync!();
                    let a = self.addr(a)?;
                    let v = self.load(a.wrapping_add(*off), *w)?;
                    set!(*d, v);
                }
                I::Store { p, v, w } => {
                    let a = get!(*p);
                    let v = get!(*v);
                    let a = if a.e == 0 {
                        a.v as u32
                    } else {
                        sync!();
                        self.addr(a)?
                    };
                    if a < 0x1000 {
                        sync!();
                    }
                    self.store(a, v, *w)?;
                }
                I::StoreOff { p, off, v, w } => {
                    let a = get!(*p);
                    let v = get!(*v);
                    sync!();
                    let a = self.addr(a)?;
                    self.store(a.wrapping_add(*off), v, *w)?;
                }
                I::Gep { d, base: b, off, idx } => {
                    let p = get!(*b);
                    if p.e == 0 {
                        let mut a = (p.v as u32 as i64).wrapping_add(*off);
                        let mut sym = false;
                        for (o, w, sc) in idx.iter() {
                            let i = get!(*o);
                            if i.e != 0 {
                                sym = true;
                                break;
                            }
                            a = a.wrapping_add((sext(i.v, *w) as i64).wrapping_mul(*sc));
                        }
                        if !sym {
                            set!(*d, Val::c(a as u32 as u128));
                            continue;
                        }
                    }
                    let mut e = self.ex.bin(Op::Add, 32, p, Val::c(*off as u32 as u128));
                    for (o, w, sc) in idx.iter() {
                        let i = get!(*o);
                        let i = self.cast(CastK::SExt, *w, 64, i)?;
                        let i = self.cast(CastK::Trunc, 64, 32, i)?;
                        let s = self.ex.bin(Op::Mul, 32, i, Val::c(*sc as u32 as u128));
                        e = self.ex.bin(Op::Add, 32, e, s);
                    }
                    set!(*d, e);
                }
                I::Cast { k, fw, tw, d, a } => {
                    let x = get!(*a);
                    if x.e == 0 {
                        let r = match k {
                            CastK::Trunc | CastK::Bit | CastK::ZExt => x.v & mask(*tw),
                            CastK::SExt => (sext(x.v, *fw) as u128) & mask(*tw),
                            _ => fcast(*k, *fw, *tw, x.v),
                        };
                        set!(*d, Val::c(r));
                    } else {
                        sync!();
                        let r = self.cast(*k, *fw, *tw, x)?;
                        set!(*d, r);
                    }
                }
                I::Sel { w, d, c, a, b, isptr } => {
                    let cv = get!(*c);
                    if cv.e == 0 {
                        let r = if cv.v & 1 == 1 { get!(*a) } else { get!(*b) };
                        set!(*d, r);
                    } else {
                        let (x, y) = (get!(*a), get!(*b));
                        let ce = self.ex.simplify(cv.e);
                        if let Some(k) = self.ex.cval(ce) {
                            set!(*d, if k == 1 { x } else { y });
                        } else if x == y {
                            set!(*d, x);
                        } else if *isptr {
                            sync!();
                            let t = self.decide(ce)?;
                            set!(*d, if t { x } else { y });
                        } else {
                            let (xe, ye) = (self.ex.id(*w, x), self.ex.id(*w, y));
                            let e = self.ex.mk_ite(ce, xe, ye);
                            let v = self.ex.val(e);
                            set!(*d, v);
                        }
                    }
                }
                I::Copy { d, a } => {
                    let v = get!(*a);
                    set!(*d, v);
                }
                I::Br { e } => take!(*e),
                I::CBr { c, t, f: fe } => {
                    let cv = get!(*c);
                    let k = if cv.e == 0 {
                        cv.v & 1 == 1
                    } else {
                        sync!();
                        self.decide(cv.e)?
                    };
                    if self.opts.blog {
                        self.blog.push((f as *const Func as usize, pc as u32, k as u32));
                    }
                    if k {
                        take!(*t)
                    } else {
                        take!(*fe)
                    }
                }
                I::Switch { v, w, cases, def } => {
                    let x = get!(*v);
                    let mut target = *def;
                    if x.e == 0 {
                        for (k, e) in cases.iter() {
                            if *k == x.v {
                                target = *e;
                                break;
                            }
                        }
                    } else {
                        sync!();
                        // group cases by destination so that equal targets do not fork
                        let mut groups: Vec<(u32, Vec<u128>)> = vec![];
                        for (k, e) in cases.iter() {
                            let key = (f.edges[*e as usize].pc, f.edges[*e as usize].copies.clone());
                            match groups.iter_mut().find(|(ge, _)| {
                                let g = &f.edges[*ge as usize];
                                g.pc == key.0 && g.copies == key.1
                            }) {
                                Some(g) => g.1.push(*k),
                                None => groups.push((*e, vec![*k])),
                            }
                        }
                        for (e, ks) in groups {
                            let mut c = self.ex.konst(1, 0);
                            for k in ks {
                                let kk = self.ex.konst(*w, k);
                                let q = self.ex.mk_bin(Op::Eq, x.e, kk);
                                c = self.ex.mk_bin(Op::Or, c, q);
                            }
                            if self.decide(c)? {
                                target = e;
                                break;
                            }
                        }
                    }
                    take!(target);
                }
                I::Alloca { d, size, align } => {
                    let a = (self.sp - *size) & !(align.max(&1) - 1);
                    if a < STACK_LO {
                        sync!();
                        let m = self.model.clone();
                        self.violation("panic", "stack overflow", &m);
                        return Err(Stop::Done);
                    }
                    // fresh stack slots start concrete
                    if self.any_sym_range(a, *size) {
                        for i in 0..*size {
                            self.set_byte(a + i, Val::c(0));
                        }
                    }
                    self.sp = a;
                    set!(*d, Val::c(a as u128));
                }
                I::Call { f: callee, args, d, nd } => {
                    sync!();
                    let gid = match callee {
                        Callee::Direct(g) => *g,
                        Callee::Ind(r) => {
                            let p = get!(*r);
                            let a = self.addr(p)?;
                            let idx = a.wrapping_sub(FN_BASE) / 16;
                            if a < FN_BASE || idx as usize >= self.env.slots.len() {
                                let m = self.model.clone();
                                self.violation("memory", &format!("call through bad pointer {:#x}", a), &m);
                                return Err(Stop::Done);
                            }
                            idx
                        }
                    };
                    let mut av = [Val::c(0); 24];
                    let n = args.len();
                    if n > 24 {
                        return Err(self.incomplete("too many call arguments"));
                    }
                    for i in 0..n {
                        av[i] = get!(args[i]);
                    }
                    let b = self.env.slots[gid as usize].b;
                    let body = match b {
                        B::Decimal(_) => av[0].e == 0,
                        _ => b == B::None || b == B::SipWrite,
                    };
                    if b != B::None {
                        if !body {
                            let r = self.builtin(b, gid, &av[..n])?;
                            if *nd > 0 {
                                set!(*d, r);
                            }
                            continue;
                        }
                        if b == B::SipWrite {
                            self.concretize_hash_input(&av[..n])?;
                        }
                    }
                    self.push(gid, &av[..n], *d, *nd);
                    let fr = self.frames.last().unwrap();
                    f = unsafe { &*fr.f };
                    base = fr.base as usize;
                    regs = self.regs.as_mut_ptr();
                    pc = 0;
                    if self.frames.len() > 20_000 {
                        let m = self.model.clone();
                        self.violation("panic", "stack overflow", &m);
                        return Err(Stop::Done);
                    }
                }
                I::Ret { vals } => {
                    let fr = self.frames.pop().unwrap();
                    self.sp = fr.sp;
                    match self.frames.last() {
                        None => {
                            self.instrs += (1_000_000 - countdown) as u64;
                            return Ok(());
                        }
                        Some(caller) => {
                            let cb = caller.base as usize;
                            let nb = base;
                            let n = vals.len();
                            for i in 0..n.min(fr.nd as usize) {
                                let o = vals[i];
                                let v = if o & CONST == 0 {
                                    unsafe { *regs.add(nb + o as usize) }
                                } else {
                                    f.consts[(o & !CONST) as usize]
                                };
                                unsafe { *regs.add(cb + fr.d as usize + i) = v };
                            }
                            f = unsafe { &*caller.f };
                            base = cb;
                            pc = caller.pc as usize;
                        }
                    }
                }
                I::Intr { k, name, w, d, args } => {
                    sync!();
                    let mut av = [Val::c(0); 8];
                    for i in 0..args.len().min(8) {
                        av[i] = get!(args[i]);
                    }
                    let (r, r2) = self.intr(k, name, *w, &av[..args.len().min(8)])?;
                    if let Some(v) = r {
                        set!(*d, v);
                    }
                    if let Some(v) = r2 {
                        set!(*d + 1, v);
                    }
                }
                I::Rmw { k, d, p, v, w } => {
                    sync!();
                    let a = get!(*p);
                    let a = self.addr(a)?;
                    let v = get!(*v);
                    let old = self.load(a, *w)?;
                    let new = match k {
                        RmwK::Xchg => v,
                        RmwK::Add => self.ex.bin(Op::Add, *w, old, v),
                        RmwK::Sub => self.ex.bin(Op::Sub, *w, old, v),
                        RmwK::And => self.ex.bin(Op::And, *w, old, v),
                        RmwK::Or => self.ex.bin(Op::Or, *w, old, v),
                        RmwK::Xor => self.ex.bin(Op::Xor, *w, old, v),
                        RmwK::Nand => {
                            let t = self.ex.bin(Op::And, *w, old, v);
                            self.ex.bin(Op::Xor, *w, t, Val::c(mask(*w)))
                        }
                        RmwK::UMax | RmwK::UMin | RmwK::Max | RmwK::Min => {
                            let p = match k {
                                RmwK::UMax => Pred::Ugt,
                                RmwK::UMin => Pred::Ult,
                                RmwK::Max => Pred::Sgt,
                                _ => Pred::Slt,
                            };
                            let c = self.icmp(p, *w, old, v);
                            self.ite(*w, c, old, v)
                        }
                    };
                    self.store(a, new, *w)?;
                    set!(*d, old);
                }
                I::CmpXchg { d, p, c, n, w } => {
                    sync!();
                    let a = get!(*p);
                    let a = self.addr(a)?;
                    let (c, n) = (get!(*c), get!(*n));
                    let old = self.load(a, *w)?;
                    let eq = self.icmp(Pred::Eq, *w, old, c);
                    let new = self.ite(*w, eq, n, old);
                    self.store(a, new, *w)?;
                    set!(*d, old);
                    set!(*d + 1, eq);
                }
                I::FBin { op, w, d, a, b } => {
                    let (x, y) = (get!(*a), get!(*b));
                    sync!();
                    let x = self.concretize(x, *w)?;
                    let y = self.concretize(y, *w)?;
                    let r = if *w == 32 {
                        let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        match op {
                            FK::Add => p + q,
                            FK::Sub => p - q,
                            FK::Mul => p * q,
                            FK::Div => p / q,
                            FK::Rem => p % q,
                        }
                        .to_bits() as u128
                    } else {
                        let (p, q) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                        match op {
                            FK::Add => p + q,
                            FK::Sub => p - q,
                            FK::Mul => p * q,
                            FK::Div => p / q,
                            FK::Rem => p % q,
                        }
                        .to_bits() as u128
                    };
                    set!(*d, Val::c(r));
                }
                I::Fcmp { p, w, d, a, b } => {
                    let (x, y) = (get!(*a), get!(*b));
                    sync!();
                    let x = self.concretize(x, *w)?;
                    let y = self.concretize(y, *w)?;
                    let (x, y) = if *w == 32 {
                        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                    } else {
                        (f64::from_bits(x as u64), f64::from_bits(y as u64))
                    };
                    let bit = if x.is_nan() || y.is_nan() {
                        8
                    } else if x == y {
                        1
                    } else if x > y {
                        2
                    } else {
                        4
                    };
                    set!(*d, Val::c((*p & bit != 0) as u128));
                }
                I::FNeg { w, d, a } => {
                    let x = get!(*a);
                    let r = self.ex.bin(Op::Xor, *w, x, Val::c(1u128 << (*w - 1)));
                    set!(*d, r);
                }
                I::Unreachable => {
                    sync!();
                    return Err(self.incomplete("reached 'unreachable'"));
                }
                I::Unsupported(s) => {
                    sync!();
                    let s = format!("unsupported: {}", s);
                    return Err(self.incomplete(&s));
                }
            }
        }
    }

    fn concretize_hash_input(&mut self, args: &[Val]) -> R<()> {
        // (self, ptr, len) for slices and strings, or (self, integer)
        if args.len() >= 3 && args[1].e == 0 {
            let n = self.concretize(args[2], 32)? as u32;
            let p = args[1].v as u32;
            if n > 0 && (p as u64) >= 0x1000 && (p as u64 + n as u64) < MEM && self.any_sym_range(p, n) {
                for i in 0..n {
                    let b = self.get_byte(p + i);
                    let v = self.concretize(b, 8)?;
                    self.set_byte(p + i, Val::c(v));
                }
            }
        }
        Ok(())
    }

    fn icmp(&mut self, p: Pred, w: u32, x: Val, y: Val) -> Val {
        let (a, b) = (self.ex.id(w, x), self.ex.id(w, y));
        let e = match p {
            Pred::Eq => self.ex.mk_bin(Op::Eq, a, b),
            Pred::Ne => {
                let t = self.ex.mk_bin(Op::Eq, a, b);
                self.ex.mk_not(t)
            }
            Pred::Ult => self.ex.mk_bin(Op::Ult, a, b),
            Pred::Ule => self.ex.mk_bin(Op::Ule, a, b),
            Pred::Ugt => self.ex.mk_bin(Op::Ult, b, a),
            Pred::Uge => self.ex.mk_bin(Op::Ule, b, a),
            Pred::Slt => self.ex.mk_bin(Op::Slt, a, b),
            Pred::Sle => self.ex.mk_bin(Op::Sle, a, b),
            Pred::Sgt => self.ex.mk_bin(Op::Slt, b, a),
            Pred::Sge => self.ex.mk_bin(Op::Sle, b, a),
        };
        self.ex.val(e)
    }
    fn ite(&mut self, w: u32, c: Val, a: Val, b: Val) -> Val {
        if c.e == 0 {
            return if c.v & 1 == 1 { a } else { b };
        }
        let (x, y) = (self.ex.id(w, a), self.ex.id(w, b));
        let e = self.ex.mk_ite(c.e, x, y);
        self.ex.val(e)
    }
    fn cast(&mut self, k: CastK, fw: u32, tw: u32, x: Val) -> R<Val> {
        if x.e == 0 {
            let r = match k {
                CastK::Trunc | CastK::Bit | CastK::ZExt => x.v & mask(tw),
                CastK::SExt => (sext(x.v, fw) as u128) & mask(tw),
                _ => fcast(k, fw, tw, x.v),
            };
            return Ok(Val::c(r));
        }
        let e = match k {
            CastK::Trunc => self.ex.mk_extract(x.e, 0, tw),
            CastK::ZExt => self.ex.mk_zext(x.e, tw),
            CastK::SExt => self.ex.mk_sext(x.e, tw),
            CastK::Bit => {
                if tw < fw {
                    self.ex.mk_extract(x.e, 0, tw)
                } else {
                    self.ex.mk_zext(x.e, tw)
                }
            }
            _ => {
                let v = self.concretize(x, fw)?;
                return Ok(Val::c(fcast(k, fw, tw, v)));
            }
        };
        Ok(self.ex.val(e))
    }

    fn intr(&mut self, k: &str, name: &str, w: u32, a: &[Val]) -> R<(Option<Val>, Option<Val>)> {
        let one = |v: Val| Ok((Some(v), None));
        match k {
            "memcpy" | "memcpy.inline" | "memmove" => {
                let n = self.concretize(a[2], 64)? as u32;
                let d = self.addr(a[0])?;
                if n > 0 && a[1].e != 0 {
                    let s = self.addr(a[1])?;
                    self.memmove(d, s, n)?;
                } else {
                    self.memmove(d, a[1].v as u32, n)?;
                }
                Ok((None, None))
            }
            "memset" | "memset.inline" => {
                let n = self.concretize(a[2], 64)? as u32;
                let d = self.addr(a[0])?;
                self.fill(d, a[1], n)?;
                Ok((None, None))
            }
            "trap" => {
                let m = self.model.clone();
                self.violation("panic", "trap", &m);
                Err(Stop::Done)
            }
            "threadlocal.address" | "expect" | "expect.with.probability" | "launder.invariant.group" => one(a[0]),
            "is.constant" => one(Val::c(0)),
            "objectsize" => one(Val::c(0xffff_ffff)),
            "ptrmask" => {
                let v = self.ex.bin(Op::And, 32, a[0], a[1]);
                one(v)
            }
            "stacksave" => one(Val::c(self.sp as u128)),
            "stackrestore" => Ok((None, None)),
            "umin" | "umax" | "smin" | "smax" => {
                let p = match k {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(p, w, a[0], a[1]);
                let v = self.ite(w, c, a[0], a[1]);
                one(v)
            }
            "ucmp" | "scmp" => {
                let rw: u32 = name.split('.').nth(2).and_then(|s| s[1..].parse().ok()).unwrap_or(8);
                let p = if k == "ucmp" { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, w, a[0], a[1]);
                let gt = self.icmp(p, w, a[1], a[0]);
                let x = self.ite(rw, gt, Val::c(1), Val::c(0));
                let v = self.ite(rw, lt, Val::c(mask(rw)), x);
                one(v)
            }
            "abs" => {
                let c = self.icmp(Pred::Slt, w, a[0], Val::c(0));
                let n = self.ex.bin(Op::Sub, w, Val::c(0), a[0]);
                let v = self.ite(w, c, n, a[0]);
                one(v)
            }
            "fshl" | "fshr" => {
                let s = self.ex.bin(Op::URem, w, a[2], Val::c(w as u128));
                let s = Val::c(self.concretize(s, w)?);
                let (x, y) = if k == "fshl" {
                    (s.v, w as u128 - s.v)
                } else {
                    (w as u128 - s.v, s.v)
                };
                let hi = self.ex.bin(Op::Shl, w, a[0], Val::c(x));
                let lo = self.ex.bin(Op::LShr, w, a[1], Val::c(y));
                let v = self.ex.bin(Op::Or, w, hi, lo);
                one(v)
            }
            "bswap" | "bitreverse" => {
                if a[0].e == 0 {
                    let mut r = 0u128;
                    if k == "bswap" {
                        for i in 0..w / 8 {
                            r |= (a[0].v >> (8 * i) & 0xff) << (w - 8 - 8 * i);
                        }
                    } else {
                        for i in 0..w {
                            r |= (a[0].v >> i & 1) << (w - 1 - i);
                        }
                    }
                    return one(Val::c(r));
                }
                let step = if k == "bswap" { 8 } else { 1 };
                let mut e = self.ex.mk_extract(a[0].e, 0, step);
                for i in 1..w / step {
                    let b = self.ex.mk_extract(a[0].e, i * step, step);
                    e = self.ex.mk_concat(e, b);
                }
                one(self.ex.val(e))
            }
            "cttz" | "ctlz" | "ctpop" => {
                if a[0].e == 0 {
                    let x = a[0].v;
                    let r = match k {
                        "ctpop" => x.count_ones(),
                        "cttz" => x.trailing_zeros().min(w),
                        _ => {
                            if x == 0 {
                                w
                            } else {
                                x.leading_zeros() - (128 - w)
                            }
                        }
                    };
                    return one(Val::c(r as u128));
                }
                let e = a[0].e;
                if k == "ctpop" {
                    let mut s = self.ex.konst(w, 0);
                    for i in 0..w {
                        let b = self.ex.mk_extract(e, i, 1);
                        let z = if w > 1 { self.ex.mk_zext(b, w) } else { b };
                        s = self.ex.mk_bin(Op::Add, s, z);
                    }
                    return one(self.ex.val(s));
                }
                let mut r = self.ex.konst(w, w as u128);
                let order: Vec<u32> = if k == "cttz" { (0..w).rev().collect() } else { (0..w).collect() };
                for i in order {
                    let b = self.ex.mk_extract(e, i, 1);
                    let val = if k == "cttz" { i } else { w - 1 - i };
                    let kv = self.ex.konst(w, val as u128);
                    r = self.ex.mk_ite(b, kv, r);
                }
                one(self.ex.val(r))
            }
            "uadd.with.overflow" | "sadd.with.overflow" | "usub.with.overflow" | "ssub.with.overflow" | "umul.with.overflow"
            | "smul.with.overflow" => {
                let (op, signed) = match k {
                    "uadd.with.overflow" => (Op::Add, false),
                    "sadd.with.overflow" => (Op::Add, true),
                    "usub.with.overflow" => (Op::Sub, false),
                    "ssub.with.overflow" => (Op::Sub, true),
                    "umul.with.overflow" => (Op::Mul, false),
                    _ => (Op::Mul, true),
                };
                let (r, o) = self.arith_ovf(op, signed, w, a[0], a[1])?;
                Ok((Some(r), Some(o)))
            }
            "uadd.sat" | "sadd.sat" | "usub.sat" | "ssub.sat" => {
                let op = if k.contains("add") { Op::Add } else { Op::Sub };
                let signed = k.starts_with('s');
                let (r, o) = self.arith_ovf(op, signed, w, a[0], a[1])?;
                let lim = if !signed {
                    Val::c(if op == Op::Add { mask(w) } else { 0 })
                } else {
                    let neg = self.icmp(Pred::Slt, w, a[0], Val::c(0));
                    self.ite(w, neg, Val::c(1u128 << (w - 1)), Val::c(mask(w - 1)))
                };
                let v = self.ite(w, o, lim, r);
                one(v)
            }
            "wasm.memory.size" => one(Val::c(MEM as u128 / 65536)),
            "wasm.memory.grow" => one(Val::c(0xffff_ffff)),
            "fabs" => {
                let v = self.ex.bin(Op::And, w, a[0], Val::c(mask(w - 1)));
                one(v)
            }
            "copysign" => {
                let x = self.ex.bin(Op::And, w, a[0], Val::c(mask(w - 1)));
                let y = self.ex.bin(Op::And, w, a[1], Val::c(1u128 << (w - 1)));
                let v = self.ex.bin(Op::Or, w, x, y);
                one(v)
            }
            "floor" | "ceil" | "trunc" | "round" | "roundeven" | "rint" | "nearbyint" | "sqrt" | "exp" | "log" | "log2" | "log10" | "sin" | "cos" | "exp2" => {
                let x = self.concretize(a[0], w)?;
                let d = tof(w, x);
                let r = match k {
                    "floor" => d.floor(),
                    "ceil" => d.ceil(),
                    "trunc" => d.trunc(),
                    "round" => d.round(),
                    "sqrt" => d.sqrt(),
                    "exp" => d.exp(),
                    "exp2" => d.exp2(),
                    "log" => d.ln(),
                    "log2" => d.log2(),
                    "log10" => d.log10(),
                    "sin" => d.sin(),
                    "cos" => d.cos(),
                    _ => d.round_ties_even(),
                };
                one(Val::c(fromf(w, r)))
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" | "pow" => {
                let x = tof(w, self.concretize(a[0], w)?);
                let y = tof(w, self.concretize(a[1], w)?);
                let r = match k {
                    "minnum" | "minimumnum" => x.min(y),
                    "pow" => x.powf(y),
                    _ => x.max(y),
                };
                one(Val::c(fromf(w, r)))
            }
            "powi" => {
                let x = tof(w, self.concretize(a[0], w)?);
                let y = sext(self.concretize(a[1], 32)?, 32) as i32;
                one(Val::c(fromf(w, x.powi(y))))
            }
            "fma" | "fmuladd" => {
                let x = tof(w, self.concretize(a[0], w)?);
                let y = tof(w, self.concretize(a[1], w)?);
                let z = tof(w, self.concretize(a[2], w)?);
                one(Val::c(fromf(w, x.mul_add(y, z))))
            }
            "fptoui.sat" | "fptosi.sat" => {
                let rw: u32 = name.split('.').nth(3).and_then(|s| s[1..].parse().ok()).unwrap_or(64);
                let x = tof(w, self.concretize(a[0], w)?);
                let v = if k == "fptoui.sat" {
                    (x as u128).min(mask(rw))
                } else {
                    let hi = mask(rw - 1) as i128;
                    ((x as i128).clamp(-hi - 1, hi) as u128) & mask(rw)
                };
                one(Val::c(v))
            }
            _ => {
                let s = format!("unsupported intrinsic {}", name);
                Err(self.incomplete(&s))
            }
        }
    }

    fn arith_ovf(&mut self, op: Op, signed: bool, w: u32, a: Val, b: Val) -> R<(Val, Val)> {
        if a.e == 0 && b.e == 0 {
            let r = fold(op, w, a.v, b.v);
            let o = if signed {
                let (x, y) = (sext(a.v, w), sext(b.v, w));
                let t = match op {
                    Op::Add => x.checked_add(y),
                    Op::Sub => x.checked_sub(y),
                    _ => x.checked_mul(y),
                };
                match t {
                    Some(t) => t != sext(r, w),
                    None => true,
                }
            } else {
                match op {
                    Op::Add => a.v.checked_add(b.v).map_or(true, |t| t > mask(w)),
                    Op::Sub => a.v < b.v,
                    _ => a.v.checked_mul(b.v).map_or(true, |t| t > mask(w)),
                }
            };
            return Ok((Val::c(r), Val::c(o as u128)));
        }
        let r = self.ex.bin(op, w, a, b);
        let o = if !signed {
            match op {
                Op::Add => self.icmp(Pred::Ult, w, r, a),
                Op::Sub => self.icmp(Pred::Ult, w, a, b),
                _ => {
                    let (x, y) = (self.ex.id(w, a), self.ex.id(w, b));
                    let ww = (2 * w).min(128);
                    let (x, y) = (self.ex.mk_zext(x, ww), self.ex.mk_zext(y, ww));
                    let p = self.ex.mk_bin(Op::Mul, x, y);
                    let lim = self.ex.konst(ww, mask(w));
                    let e = self.ex.mk_bin(Op::Ult, lim, p);
                    self.ex.val(e)
                }
            }
        } else {
            let ww = if op == Op::Mul { (2 * w).min(128) } else { (w + 1).min(128) };
            let (x, y) = (self.ex.id(w, a), self.ex.id(w, b));
            let (x, y) = (self.ex.mk_sext(x, ww), self.ex.mk_sext(y, ww));
            let p = self.ex.mk_bin(op, x, y);
            let re = self.ex.id(w, r);
            let rs = self.ex.mk_sext(re, ww);
            let e = self.ex.mk_bin(Op::Eq, p, rs);
            let e = self.ex.mk_not(e);
            self.ex.val(e)
        };
        Ok((r, o))
    }

    fn fill(&mut self, d: u32, v: Val, n: u32) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.check_addr(d, n)?;
        if v.e == 0 && !self.any_sym_range(d, n) {
            unsafe { std::ptr::write_bytes(self.mem.add(d as usize), v.v as u8, n as usize) };
        } else {
            for i in 0..n {
                self.set_byte(d + i, v);
            }
        }
        Ok(())
    }

    fn str_at(&mut self, p: u32, n: u32) -> String {
        let b: Vec<u8> = (0..n).map(|i| unsafe { *self.mem.add((p + i) as usize) }).collect();
        String::from_utf8_lossy(&b).to_string()
    }

    fn builtin(&mut self, b: B, gid: u32, a: &[Val]) -> R<Val> {
        match b {
            B::Alloc | B::AllocZeroed => {
                let n = self.concretize(a[0], 32)? as u32;
                let al = self.concretize(a[1], 32)? as u32;
                let p = self.alloc(n, al)?;
                if b == B::AllocZeroed || self.any_sym_range(p, n.max(1)) {
                    self.fill(p, Val::c(0), n)?;
                }
                Ok(Val::c(p as u128))
            }
            B::Dealloc => {
                let p = self.addr(a[0])?;
                let n = self.concretize(a[1], 32)? as u32;
                self.dealloc(p, n);
                Ok(Val::c(0))
            }
            B::Realloc => {
                let p = self.addr(a[0])?;
                let old = self.concretize(a[1], 32)? as u32;
                let al = self.concretize(a[2], 32)? as u32;
                let new = self.concretize(a[3], 32)? as u32;
                if Self::class(old) == Self::class(new) {
                    return Ok(Val::c(p as u128));
                }
                let q = self.alloc(new, al)?;
                if self.any_sym_range(q, new.max(1)) {
                    self.fill(q, Val::c(0), new)?;
                }
                self.memmove(q, p, old.min(new))?;
                self.dealloc(p, old);
                Ok(Val::c(q as u128))
            }
            B::Malloc | B::Calloc => {
                let mut n = self.concretize(a[0], 32)? as u32;
                if b == B::Calloc {
                    n *= self.concretize(a[1], 32)? as u32;
                }
                let p = self.alloc(n, 16)?;
                self.msize.insert(p, n);
                self.fill(p, Val::c(0), n)?;
                Ok(Val::c(p as u128))
            }
            B::Free => {
                let p = self.addr(a[0])?;
                if let Some(n) = self.msize.remove(&p) {
                    self.dealloc(p, n);
                }
                Ok(Val::c(0))
            }
            B::LibcRealloc => {
                let p = self.addr(a[0])?;
                let new = self.concretize(a[1], 32)? as u32;
                let old = self.msize.remove(&p).unwrap_or(0);
                let q = self.alloc(new, 16)?;
                self.msize.insert(q, new);
                self.memmove(q, p, old.min(new))?;
                Ok(Val::c(q as u128))
            }
            B::PosixMemalign => {
                let al = self.concretize(a[1], 32)? as u32;
                let n = self.concretize(a[2], 32)? as u32;
                let p = self.alloc(n, al)?;
                let out = self.addr(a[0])?;
                self.store(out, Val::c(p as u128), 32)?;
                Ok(Val::c(0))
            }
            B::Memcpy | B::Memmove => {
                let n = self.concretize(a[2], 32)? as u32;
                let (d, s) = (self.addr(a[0])?, self.addr(a[1])?);
                self.memmove(d, s, n)?;
                Ok(a[0])
            }
            B::Memset => {
                let n = self.concretize(a[2], 32)? as u32;
                let d = self.addr(a[0])?;
                let v = if a[1].e == 0 { Val::c(a[1].v & 0xff) } else { Val::sym(self.ex.mk_extract(a[1].e, 0, 8)) };
                self.fill(d, v, n)?;
                Ok(a[0])
            }
            B::Strlen => {
                let p = self.addr(a[0])?;
                let mut n = 0;
                while unsafe { *self.mem.add((p + n) as usize) } != 0 {
                    n += 1;
                }
                Ok(Val::c(n as u128))
            }
            B::Memcmp => {
                let n = self.concretize(a[2], 32)? as u32;
                if n == 0 {
                    return Ok(Val::c(0));
                }
                let (p, q) = (self.addr(a[0])?, self.addr(a[1])?);
                self.check_addr(p, n)?;
                self.check_addr(q, n)?;
                if !self.any_sym_range(p, n) && !self.any_sym_range(q, n) {
                    for i in 0..n as usize {
                        let (x, y) = unsafe { (*self.mem.add(p as usize + i), *self.mem.add(q as usize + i)) };
                        if x != y {
                            return Ok(Val::c(if x < y { 0xffff_ffff } else { 1 }));
                        }
                    }
                    return Ok(Val::c(0));
                }
                // first difference decides
                let mut r = self.ex.konst(32, 0);
                for i in (0..n).rev() {
                    let (x, y) = (self.get_byte(p + i), self.get_byte(q + i));
                    if x.e == 0 && y.e == 0 {
                        if x.v != y.v {
                            r = self.ex.konst(32, if x.v < y.v { 0xffff_ffff } else { 1 });
                        }
                        continue;
                    }
                    let (xe, ye) = (self.ex.id(8, x), self.ex.id(8, y));
                    let eq = self.ex.mk_bin(Op::Eq, xe, ye);
                    let lt = self.ex.mk_bin(Op::Ult, xe, ye);
                    let m1 = self.ex.konst(32, 0xffff_ffff);
                    let p1 = self.ex.konst(32, 1);
                    let d = self.ex.mk_ite(lt, m1, p1);
                    r = self.ex.mk_ite(eq, r, d);
                }
                Ok(self.ex.val(r))
            }
            B::Panic => {
                // the last argument is &'static Location { file: &str, line, col }
                let loc = a.last().map(|v| v.v as u32).unwrap_or(0);
                let mut at = String::from("?");
                if (loc as u64) >= 0x1000 && (loc as u64) < MEM {
                    let (p, n, l) = (
                        self.load(loc, 32)?.v as u32,
                        self.load(loc + 4, 32)?.v as u32,
                        self.load(loc + 8, 32)?.v as u32,
                    );
                    if n < 4096 && p as u64 + (n as u64) < MEM {
                        at = format!("{}:{}", self.str_at(p, n), l);
                    }
                }
                let m = self.model.clone();
                self.violation("panic", &at, &m);
                Err(Stop::Done)
            }
            B::Abort => {
                let m = self.model.clone();
                self.violation("panic", "abort", &m);
                Err(Stop::Done)
            }
            B::SymBytes => {
                let (p, n) = (self.concretize(a[0], 32)? as u32, self.concretize(a[1], 32)? as u32);
                let (q, k) = (self.concretize(a[2], 32)? as u32, self.concretize(a[3], 32)? as u32);
                let name = self.str_at(q, k);
                let mut es = vec![];
                if name.starts_with('@') {
                    // a parameter of the run, not an input
                    let v = self.opts.params.iter().find(|p| p.0 == name).map_or(0, |p| p.1);
                    for i in 0..n {
                        let b = if i < 8 { (v >> (8 * i)) as u8 } else { 0 };
                        self.set_byte(p + i, Val::c(b as u128));
                        es.push(self.ex.konst(8, b as u128));
                    }
                    self.inputs.push((name, es));
                    return Ok(Val::c(0));
                }
                for i in 0..n {
                    if self.npin < self.opts.pin.len() {
                        let b = self.opts.pin[self.npin];
                        self.npin += 1;
                        self.set_byte(p + i, Val::c(b as u128));
                        es.push(self.ex.konst(8, b as u128));
                        continue;
                    }
                    let e = self.ex.new_var(8, format!("{}[{}]", name, i));
                    self.model.push(0);
                    self.set_byte(p + i, Val::sym(e));
                    es.push(e);
                }
                self.inputs.push((name, es));
                Ok(Val::c(0))
            }
            B::SymAssume => {
                let c = a[0];
                if c.e == 0 {
                    if c.v as u32 == 0 {
                        self.s().cut_assume.fetch_add(1, Relaxed);
                        return Err(Stop::Done);
                    }
                    return Ok(Val::c(0));
                }
                let c = self.truth(c);
                let c = self.ex.simplify(c);
                if let Some(v) = self.ex.cval(c) {
                    if v == 0 {
                        self.s().cut_assume.fetch_add(1, Relaxed);
                        return Err(Stop::Done);
                    }
                    return Ok(Val::c(0));
                }
                let (t, _, unk) = self.both(c);
                match t {
                    Some(m) => {
                        self.model = m;
                        self.add_constraint(c);
                        Ok(Val::c(0))
                    }
                    None => {
                        if unk {
                            return Err(self.incomplete("solver returned unknown at an assumption"));
                        }
                        self.s().cut_assume.fetch_add(1, Relaxed);
                        Err(Stop::Done)
                    }
                }
            }
            B::SymCheck => {
                let (q, k) = (self.concretize(a[1], 32)? as u32, self.concretize(a[2], 32)? as u32);
                let tag = self.str_at(q, k);
                self.s().obl.fetch_add(1, Relaxed);
                let c = a[0];
                let ce = if c.e == 0 { None } else { Some(self.truth(c)) };
                let ce = ce.map(|e| self.ex.simplify(e));
                match ce.and_then(|e| self.ex.cval(e)).or(if c.e == 0 { Some((c.v as u32 != 0) as u128) } else { None }) {
                    Some(0) => {
                        let m = self.model.clone();
                        self.violation("check", &tag, &m);
                        return Err(Stop::Done);
                    }
                    Some(_) => {
                        self.s().obl_path.fetch_add(1, Relaxed);
                        return Ok(Val::c(0));
                    }
                    None => {}
                }
                let ce = ce.unwrap();
                let nc = self.ex.mk_not(ce);
                let (r, m) = self.query(nc);
                match r {
                    Sat::Unsat => {
                        self.s().obl_solver.fetch_add(1, Relaxed);
                    }
                    Sat::Sat => {
                        self.violation("check", &tag, &m);
                        let (r2, m2) = self.query(ce);
                        if r2 != Sat::Sat {
                            return Err(Stop::Done);
                        }
                        self.model = m2;
                        self.add_constraint(ce);
                    }
                    Sat::Unknown => {
                        let s = format!("solver returned unknown for {}", tag);
                        return Err(self.incomplete(&s));
                    }
                }
                Ok(Val::c(0))
            }
            B::SymMark => {
                let (q, k) = (self.concretize(a[0], 32)? as u32, self.concretize(a[1], 32)? as u32);
                let name = self.str_at(q, k);
                self.mark(&name);
                self.marks.push(name);
                Ok(Val::c(0))
            }
            B::SymOut => {
                let (p, n) = (self.concretize(a[0], 32)? as u32, self.concretize(a[1], 32)? as u32);
                for i in 0..n {
                    let b = self.get_byte(p + i);
                    self.out.push(b);
                }
                Ok(Val::c(0))
            }
            B::SymConc => {
                let v = self.concretize(a[0], 32)?;
                Ok(Val::c(v))
            }
            B::SymSize => Ok(Val::c(a[0].e as u128)),
            B::Clock => {
                // monotone clock: one microsecond per reading
                self.clock += 1000;
                let p = self.addr(a[1])?;
                self.store(p, Val::c((1_700_000_000u64 + self.clock / 1_000_000_000) as u128), 64)?;
                self.store(p + 8, Val::c((self.clock % 1_000_000_000) as u128), 32)?;
                self.store(p + 12, Val::c(0), 32)?;
                Ok(Val::c(0))
            }
            B::Random => {
                let (p, n) = (self.addr(a[0])?, self.concretize(a[1], 32)? as u32);
                for i in 0..n {
                    self.rnd = self.rnd.wrapping_mul(61).wrapping_add(17);
                    let r = self.rnd;
                    self.set_byte(p + i, Val::c(r as u128));
                }
                Ok(Val::c(0))
            }
            B::Zero | B::Nop => Ok(Val::c(0)),
            B::PthreadKeyCreate => {
                let p = self.addr(a[0])?;
                self.store(p, Val::c(1), 32)?;
                Ok(Val::c(0))
            }
            B::Write => Ok(a[2]),
            B::Writev => {
                // pretend everything was written
                let (iov, n) = (self.addr(a[1])?, self.concretize(a[2], 32)? as u32);
                let mut t = 0;
                for i in 0..n {
                    t += self.load(iov + 8 * i + 4, 32)?.v;
                }
                Ok(Val::c(t))
            }
            B::Math1(k) => {
                let x = f64::from_bits(self.concretize(a[0], 64)? as u64);
                let r = match k {
                    0 => x.exp(),
                    1 => x.ln(),
                    2 => x.sin(),
                    3 => x.cos(),
                    4 => x.log10(),
                    5 => x.log2(),
                    _ => x.cbrt(),
                };
                Ok(Val::c(r.to_bits() as u128))
            }
            B::Math2(k) => {
                let x = f64::from_bits(self.concretize(a[0], 64)? as u64);
                let y = f64::from_bits(self.concretize(a[1], 64)? as u64);
                let r = if k == 0 { x.powf(y) } else { x % y };
                Ok(Val::c(r.to_bits() as u128))
            }
            B::Decimal(w) => {
                // the decimal digits of a symbolic number, at the end of the buffer: the number of
                // digits is decided, the digits stay expressions of the number
                let w = w as u32;
                let x = self.ex.id(w, a[0]);
                let p = self.concretize(a[1], 32)? as u32;
                let len = self.concretize(a[2], 32)? as u32;
                let mut n = 1u32;
                let mut pow: u128 = 10;
                while pow <= mask(w) {
                    let k = self.ex.konst(w, pow);
                    let less = self.ex.mk_bin(Op::Ult, x, k);
                    if self.decide(less)? {
                        break;
                    }
                    n += 1;
                    pow *= 10;
                }
                if n > len {
                    return Err(self.incomplete("decimal: buffer too short"));
                }
                let mut scale: u128 = 1;
                let ten = self.ex.konst(w, 10);
                for i in 0..n {
                    let sc = self.ex.konst(w, scale);
                    let q = self.ex.mk_bin(Op::UDiv, x, sc);
                    let r = if i + 1 == n { q } else { self.ex.mk_bin(Op::URem, q, ten) };
                    let d = self.ex.mk_extract(r, 0, 8);
                    let zero = self.ex.konst(8, b'0' as u128);
                    let c = self.ex.mk_bin(Op::Add, d, zero);
                    let v = self.ex.val(c);
                    self.set_byte(p + len - 1 - i, v);
                    scale *= 10;
                }
                Ok(Val::c((len - n) as u128))
            }
            B::Unresolved | B::None | B::SipWrite => {
                let s = format!("call to unresolved function {}", self.env.slots[gid as usize].name);
                Err(self.incomplete(&s))
            }
        }
    }

    fn truth(&mut self, c: Val) -> Eid {
        // c is a 32-bit value: true when non-zero
        let z = self.ex.konst(32, 0);
        let e = self.ex.mk_bin(Op::Eq, c.e, z);
        self.ex.mk_not(e)
    }

    fn mark(&self, name: &str) {
        let sh = unsafe { &mut *self.sh };
        let b = name.as_bytes();
        let n = b.len().min(63);
        for m in sh.marks.iter_mut() {
            if m.name[0] == 0 {
                m.name[..n].copy_from_slice(&b[..n]);
            }
            if &m.name[..n] == &b[..n] && m.name[n] == 0 {
                m.n.fetch_add(1, Relaxed);
                return;
            }
        }
    }

    pub fn executed(&self) -> (Vec<String>, usize) {
        let mut v = vec![];
        let mut total = 0;
        for (mi, m) in self.mods.iter().enumerate() {
            for (n, s) in &m.syms {
                if let Sym::Def(off, _) = s {
                    let f = unsafe { (*self.sh).cov[cov_slot(mi, *off)] };
                    if f & 2 != 0 {
                        total += 1;
                        v.push(String::from_utf8_lossy(n).to_string());
                    }
                }
            }
        }
        (v, total)
    }
}

pub static OWN: AtomicU32 = AtomicU32::new(1);

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s += &format!("{:02x}", x);
    }
    s
}

fn binop(k: BinK) -> Op {
    match k {
        BinK::Add => Op::Add,
        BinK::Sub => Op::Sub,
        BinK::Mul => Op::Mul,
        BinK::UDiv => Op::UDiv,
        BinK::SDiv => Op::SDiv,
        BinK::URem => Op::URem,
        BinK::SRem => Op::SRem,
        BinK::And => Op::And,
        BinK::Or => Op::Or,
        BinK::Xor => Op::Xor,
        BinK::Shl => Op::Shl,
        BinK::LShr => Op::LShr,
        BinK::AShr => Op::AShr,
    }
}

fn tof(w: u32, v: u128) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}
fn fromf(w: u32, v: f64) -> u128 {
    if w == 32 {
        (v as f32).to_bits() as u128
    } else {
        v.to_bits() as u128
    }
}

fn fcast(k: CastK, fw: u32, tw: u32, v: u128) -> u128 {
    match k {
        CastK::UiToFp => {
            if tw == 32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        CastK::SiToFp => {
            let s = sext(v, fw);
            if tw == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        CastK::FpToUi => (tof(fw, v) as u128) & mask(tw),
        CastK::FpToSi => ((tof(fw, v) as i128) as u128) & mask(tw),
        CastK::FpTrunc => (f64::from_bits(v as u64) as f32).to_bits() as u128,
        CastK::FpExt => (f32::from_bits(v as u32) as f64).to_bits() as u128,
        _ => v & mask(tw),
    }
}
