//! The interface to the symbolic executor.  In the native replay build the same functions read
//! the counterexample's bytes from a file.
extern "C" {
    fn __sym_bytes(p: *mut u8, n: usize, name: *const u8, nn: usize);
    fn __sym_assume(c: u32);
    fn __sym_check(c: u32, tag: *const u8, n: usize);
    fn __sym_mark(p: *const u8, n: usize);
    fn __sym_out(p: *const u8, n: usize);
    fn __sym_concrete(v: u32) -> u32;
}
/// `n` unconstrained bytes.
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { __sym_bytes(v.as_mut_ptr(), n, name.as_ptr(), name.len()) };
    }
    v
}
pub fn u8(name: &str) -> u8 {
    bytes(name, 1)[0]
}
pub fn u32(name: &str) -> u32 {
    let mut b = [0u8; 4];
    unsafe { __sym_bytes(b.as_mut_ptr(), 4, name.as_ptr(), name.len()) };
    u32::from_le_bytes(b)
}
pub fn u64(name: &str) -> u64 {
    let mut b = [0u8; 8];
    unsafe { __sym_bytes(b.as_mut_ptr(), 8, name.as_ptr(), name.len()) };
    u64::from_le_bytes(b)
}
pub fn bool(name: &str) -> bool {
    choice(name, 2) == 1
}
/// One concrete value below `n` on every path (forks over all of them).
pub fn choice(name: &str, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let b = u8(name);
    assume((b as usize) < n);
    unsafe { __sym_concrete(b as u32) as usize }
}
pub fn concrete(v: u32) -> u32 {
    unsafe { __sym_concrete(v) }
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c as u32) }
}
pub fn check(c: bool, tag: &str) {
    unsafe { __sym_check(c as u32, tag.as_ptr(), tag.len()) }
}
pub fn mark(m: &str) {
    unsafe { __sym_mark(m.as_ptr(), m.len()) }
}
/// Append to the path's transcript (compared with a native run of the same inputs).
pub fn out(b: &[u8]) {
    unsafe { __sym_out(b.as_ptr(), b.len()) }
}
pub fn outs(s: &str) {
    out(s.as_bytes());
    out(b";");
}
pub fn outn(n: i64) {
    out(&n.to_le_bytes());
}
/// A string of `n` symbolic bytes restricted to ASCII.
pub fn ascii(name: &str, n: usize) -> String {
    let v = bytes(name, n);
    for b in &v {
        assume(*b < 0x80);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A string of `n` symbolic characters drawn from `alphabet`.
pub fn over(name: &str, n: usize, alphabet: &[u8]) -> String {
    let v = bytes(name, n);
    for b in &v {
        let mut ok = false;
        for a in alphabet {
            ok |= *b == *a;
        }
        assume(ok);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
