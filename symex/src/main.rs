mod exec;
mod expr;
mod ir;
mod solver;
mod sys;

use exec::*;
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

static mut START: Option<Instant> = None;
static mut OUT: String = String::new();
static mut ENTRY: String = String::new();

/// Called once, in the root process, when every path has ended.
#[allow(static_mut_refs)]
pub fn report(m: &Machine) {
    let sh = unsafe { &*m.sh };
    let (names, total) = m.executed();
    let mut marks = vec![];
    for k in sh.marks.iter() {
        if k.name[0] != 0 {
            let n = k.name.iter().position(|&c| c == 0).unwrap_or(64);
            marks.push(format!("{:?}:{}", String::from_utf8_lossy(&k.name[..n]), k.n.load(Relaxed)));
        }
    }
    let mine: Vec<String> = names.iter().filter(|n| n.contains("15kuadrant_filter")).map(|n| format!("{:?}", n)).collect();
    let g = |a: &std::sync::atomic::AtomicU64| a.load(Relaxed);
    let s = format!(
        "{{\"entry\":{:?},\"paths\":{},\"assume_cut\":{},\"violations\":{},\"incomplete\":{},\"forks\":{},\"symbolic_branches\":{},\
\"solver_queries\":{},\"solver_sat\":{},\"solver_unsat\":{},\"solver_unknown\":{},\"solver_s\":{:.3},\"domain_decisions\":{},\
\"obligations\":{},\"obligations_decided_by_path_condition\":{},\"obligations_unsat\":{},\"instructions\":{},\"logged_paths\":{},\
\"time_cut\":{},\"stopped\":{},\"max_depth\":{},\"functions_total\":{},\"wall_s\":{:.2},\"solver\":{:?},\"marks\":{{{}}},\"kuadrant_functions\":[{}]}}",
        unsafe { &ENTRY },
        g(&sh.paths),
        g(&sh.cut_assume),
        g(&sh.violations),
        g(&sh.incomplete),
        g(&sh.forks),
        g(&sh.branches),
        g(&sh.queries),
        g(&sh.q_sat),
        g(&sh.q_unsat),
        g(&sh.q_unknown),
        g(&sh.z3_ns) as f64 / 1e9,
        g(&sh.dom_dec),
        g(&sh.obl),
        g(&sh.obl_path),
        g(&sh.obl_solver),
        g(&sh.instrs),
        g(&sh.logged),
        g(&sh.cut_time),
        sh.stop.load(Relaxed),
        g(&sh.maxdepth),
        total,
        unsafe { START.unwrap().elapsed().as_secs_f64() },
        format!("z3 {}", solver::version()),
        marks.join(","),
        mine.join(",")
    );
    std::fs::write(format!("{}/result.json", unsafe { &OUT }), s).unwrap();
}

fn main() {
    unsafe { START = Some(Instant::now()) };
    let mut files = vec![];
    let mut entry = String::new();
    let mut out = String::from(".");
    let mut jobs = 8;
    let mut time = 60u64;
    let mut log_paths = 64;
    let mut stop_after = 40;
    let mut max_enum = 300;
    let mut max_instrs = 4_000_000_000u64;
    let mut params: Vec<(String, u64)> = vec![];
    let mut pin: Vec<u8> = vec![];
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--entry" => entry = it.next().unwrap(),
            "--out" => out = it.next().unwrap(),
            "--jobs" => jobs = it.next().unwrap().parse().unwrap(),
            "--time" => time = it.next().unwrap().parse().unwrap(),
            "--log-paths" => log_paths = it.next().unwrap().parse().unwrap(),
            "--stop-after" => stop_after = it.next().unwrap().parse().unwrap(),
            "--max-enum" => max_enum = it.next().unwrap().parse().unwrap(),
            "--param" => {
                let a = it.next().unwrap();
                let (n, v) = a.split_once('=').unwrap();
                params.push((format!("@{n}"), v.parse().unwrap()));
            }
            "--pin" => {
                let h = it.next().unwrap();
                pin = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            }
            "--max-instrs" => max_instrs = it.next().unwrap().parse().unwrap(),
            _ => files.push(a),
        }
    }
    std::fs::create_dir_all(&out).unwrap();
    unsafe {
        OUT = out.clone();
        ENTRY = entry.clone();
        sys::prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
    }
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let mods: Vec<ir::Module> = files.iter().map(|f| ir::Module::index(sys::map_file(f))).collect();
            let sh = sys::map_shared(std::mem::size_of::<Shared>()) as *mut Shared;
            unsafe { (*sh).tokens.store(jobs - 1, Relaxed) };
            let opts = Opts {
                jobs,
                deadline: Instant::now() + Duration::from_secs(time),
                out,
                max_enum,
                log_paths,
                stop_after,
                verbose: std::env::var("SYMEX_TRACE").is_ok(),
                max_instrs,
                pin,
                blog: std::env::var("SYMEX_BLOG").is_ok(),
                params,
            };
            let entry: &'static str = Box::leak(entry.into_boxed_str());
            let mut m = Machine::new(Rc::new(mods), opts, sh);
            m.run(entry);
        })
        .unwrap();
    let _ = h.join();
}
