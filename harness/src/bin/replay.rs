//! Native replay: runs a harness on the bytes of a counterexample or sampled path.
//! Usage: replay ENTRY < lines of `name hex`
use std::io::Read;
use std::sync::Mutex;
struct St {
    inputs: Vec<(String, Vec<u8>)>,
    next: usize,
    out: Vec<u8>,
    marks: Vec<String>,
    fails: Vec<String>,
}
static ST: Mutex<St> = Mutex::new(St { inputs: vec![], next: 0, out: vec![], marks: vec![], fails: vec![] });
unsafe fn s(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
fn finish(end: &str) -> ! {
    let st = ST.lock().unwrap_or_else(|e| e.into_inner());
    println!("END {end}");
    for f in &st.fails {
        println!("CHECK-FAIL {f}");
    }
    println!("MARKS {}", st.marks.join("|"));
    println!("OUT {}", st.out.iter().map(|b| format!("{b:02x}")).collect::<String>());
    println!("USED {}/{}", st.next, st.inputs.len());
    std::process::exit(0)
}
#[no_mangle]
extern "C" fn __sym_bytes(p: *mut u8, n: usize, name: *const u8, nn: usize) {
    let name = unsafe { s(name, nn) };
    let mut st = ST.lock().unwrap();
    let i = st.next;
    st.next += 1;
    let Some((want, b)) = st.inputs.get(i).cloned() else {
        // the recorded path ended before this input was needed
        drop(st);
        finish("inputs-exhausted");
    };
    drop(st);
    if want != name || b.len() != n {
        finish(&format!("input-mismatch {want}/{} vs {name}/{n}", b.len()));
    }
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, n) };
}
#[no_mangle]
extern "C" fn __sym_assume(c: u32) {
    if c == 0 {
        finish("assumption-false");
    }
}
#[no_mangle]
extern "C" fn __sym_check(c: u32, tag: *const u8, n: usize) {
    if c == 0 {
        ST.lock().unwrap().fails.push(unsafe { s(tag, n) });
    }
}
#[no_mangle]
extern "C" fn __sym_mark(p: *const u8, n: usize) {
    ST.lock().unwrap().marks.push(unsafe { s(p, n) });
}
#[no_mangle]
extern "C" fn __sym_out(p: *const u8, n: usize) {
    ST.lock().unwrap().out.extend_from_slice(unsafe { std::slice::from_raw_parts(p, n) });
}
#[no_mangle]
extern "C" fn __sym_concrete(v: u32) -> u32 {
    v
}
fn main() {
    let entry = std::env::args().nth(1).unwrap_or_default();
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    for l in t.lines() {
        if let Some((n, h)) = l.rsplit_once(' ') {
            let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            ST.lock().unwrap().inputs.push((n.to_string(), b));
        }
    }
    let Some(f) = harness::ENTRIES.iter().chain(harness::MODULE.iter()).find(|e| e.0 == entry) else {
        println!("END no-such-entry");
        std::process::exit(2)
    };
    let f = f.1;
    let loc = std::sync::Arc::new(Mutex::new(String::new()));
    let l2 = loc.clone();
    std::panic::set_hook(Box::new(move |i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *l2.lock().unwrap_or_else(|e| e.into_inner()) = format!("{l} {}", i.payload_as_str().unwrap_or("").replace('\n', " "));
    }));
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || f()).unwrap();
    match h.join() {
        Ok(()) => finish("ok"),
        Err(_) => {
            let l = loc.lock().unwrap_or_else(|e| e.into_inner()).clone();
            finish(&format!("panic {l}"))
        }
    }
}
