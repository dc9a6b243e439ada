//! Minimal libc bindings.
use std::ffi::c_void;
extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn write(fd: i32, p: *const u8, n: usize) -> isize;
    pub fn getpid() -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn getppid() -> i32;
}
pub fn map_private(n: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p as *mut u8
}
pub fn map_shared(n: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x1 | 0x20, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p as *mut u8
}
pub fn map_file(path: &str) -> &'static [u8] {
    use std::os::fd::AsRawFd;
    let f = std::fs::File::open(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let n = f.metadata().unwrap().len() as usize;
    let p = unsafe { mmap(std::ptr::null_mut(), n, 1, 0x1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap {path}");
    unsafe { std::slice::from_raw_parts(p as *const u8, n) }
}
