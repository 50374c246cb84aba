//! Primitives shared by the harnesses. In the symbolic executor the symx_* functions create symbolic
//! values, constrain the path and check assertions; linked natively (tools/native.c) they replay one
//! concrete assignment.
#![allow(dead_code)]

extern "C" {
    fn symx_range(lo: u64, hi: u64) -> u64;
    fn symx_assume(c: bool);
    fn symx_assert(c: bool, label: *const u8, len: usize);
    fn symx_cover(id: u64);
    fn symx_observe(v: u64);
    fn symx_concretize(v: u64) -> u64;
    fn symx_param(i: u64) -> u64;
    fn symx_stdout_take(buf: *mut u8, cap: u64) -> u64;
    fn symx_note(p: *const u8, len: usize);
}

/// A symbolic number between lo and hi (both included).
pub fn range(lo: u64, hi: u64) -> u64 { unsafe { symx_range(lo, hi) } }
pub fn byte() -> u8 { range(0, 255) as u8 }
pub fn pick(alphabet: &[u8]) -> u8 { alphabet[range(0, alphabet.len() as u64 - 1) as usize] }
pub fn flag() -> bool { range(0, 1) == 1 }
pub fn assume(c: bool) { unsafe { symx_assume(c) } }
pub fn check(c: bool, label: &str) { unsafe { symx_assert(c, label.as_ptr(), label.len()) } }
/// Marks a situation the exploration must have reached.
pub fn cover(id: u64) { unsafe { symx_cover(id) } }
/// Output compared between symbolic and native execution of the same inputs.
pub fn observe(v: u64) { unsafe { symx_observe(v) } }
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    let mut h = 0u64;
    for &x in b { h = (h << 5) ^ (h >> 59) ^ x as u64; }
    observe(h);
}
/// Split the path over the values of v.
pub fn concretize(v: u64) -> u64 { unsafe { symx_concretize(v) } }
pub fn param(i: u64) -> u64 { unsafe { symx_param(i) } }
pub fn stdout_take() -> Vec<u8> {
    let mut b = vec![0u8; 1 << 16];
    let n = unsafe { symx_stdout_take(b.as_mut_ptr(), b.len() as u64) } as usize;
    b.truncate(n);
    b
}
pub fn note(s: &str) { unsafe { symx_note(s.as_ptr(), s.len()) } }

/// Byte-wise comparison without branching on the contents.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
/// A symbolic Unicode scalar value between lo and hi, without lo2..=hi2.
pub fn any_char(lo: u32, hi: u32) -> char {
    let c = range(lo as u64, hi as u64) as u32;
    if hi >= 0xd800 { assume((c < 0xd800) | (c > 0xdfff)); }
    unsafe { char::from_u32_unchecked(c) }
}
