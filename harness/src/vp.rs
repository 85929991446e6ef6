//! Harness vocabulary.  Under the symbolic engine these externs create symbolic inputs,
//! constrain them and state assertions; in the native replayer they read a script.
#![allow(dead_code)]

extern "C-unwind" {
    fn vp_sym(bits: u32) -> u64;
    fn vp_bytes(p: *mut u8, n: usize);
    fn vp_assume(c: bool);
    fn vp_check(c: bool, site: *const u8, n: usize);
    fn vp_cover(site: *const u8, n: usize);
    fn vp_concretize(v: u64) -> u64;
    fn vp_param(i: u32) -> u64;
    fn vp_out(v: u64);
    fn vp_live() -> u64;
    fn vp_expect_panic(site: *const u8, n: usize);
}

pub fn u(bits: u32) -> u64 {
    unsafe { vp_sym(bits) }
}
pub fn u8() -> u8 {
    u(8) as u8
}
pub fn u16() -> u16 {
    u(16) as u16
}
pub fn u32() -> u32 {
    u(32) as u32
}
pub fn u64() -> u64 {
    u(64)
}
pub fn bool() -> bool {
    u(1) & 1 == 1
}
pub fn fill(b: &mut [u8]) {
    if !b.is_empty() {
        unsafe { vp_bytes(b.as_mut_ptr(), b.len()) }
    }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0; N];
    fill(&mut b);
    b
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0; n];
    fill(&mut b);
    b
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
/// the property: `c` must hold on every path
pub fn check(c: bool, site: &str) {
    unsafe { vp_check(c, site.as_ptr(), site.len()) }
}
/// reachability witness
pub fn cover(site: &str) {
    unsafe { vp_cover(site.as_ptr(), site.len()) }
}
/// fork over every feasible value
pub fn conc(v: u64) -> u64 {
    unsafe { vp_concretize(v) }
}
/// arbitrary value below n, one path each
pub fn choose(n: u64) -> u64 {
    let x = u(16);
    assume(x < n);
    conc(x)
}
pub fn param(i: u32) -> u64 {
    unsafe { vp_param(i) }
}
pub fn out(v: u64) {
    unsafe { vp_out(v) }
}
pub fn expect_panic(site: &str) {
    unsafe { vp_expect_panic(site.as_ptr(), site.len()) }
}
/// heap allocations currently live
pub fn live() -> u64 {
    unsafe { vp_live() }
}
pub fn out_bytes(b: &[u8]) {
    // at most the first and last 64 bytes
    let n = b.len();
    out(n as u64);
    let mut i = 0;
    while i < n {
        if i < 64 || i + 64 >= n {
            let mut v = 0u64;
            let mut k = 0;
            while k < 8 && i + k < n {
                v = v << 8 | b[i + k] as u64;
                k += 1;
            }
            out(v);
        }
        i += 8;
    }
}
