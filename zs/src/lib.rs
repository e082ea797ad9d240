//! Interface between a harness and the symbolic executor. The executor replaces the `zs_*` functions;
//! compiled natively they read the values of one concrete run (a counterexample, or a sampled path) from
//! the file named by ZSYM_INPUT, which is how results are replayed against the real code.
use std::io::Write;

struct Native { input: Vec<u8>, pos: usize, obs: Option<std::fs::File>, params: Vec<u64> }
static mut NATIVE: Option<Native> = None;
#[inline(never)]
fn native() -> &'static mut Native {
    unsafe {
        let p = &mut *std::ptr::addr_of_mut!(NATIVE);
        p.get_or_insert_with(|| Native {
            input: std::env::var("ZSYM_INPUT").ok().and_then(|f| std::fs::read(f).ok()).unwrap_or_default(), pos: 0,
            obs: std::env::var("ZSYM_OBS").ok().and_then(|f| std::fs::File::create(f).ok()),
            params: std::env::var("ZSYM_PARAMS").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect(),
        })
    }
}
fn next() -> u8 {
    let n = native();
    if n.pos >= n.input.len() { eprintln!("ZSYM-INPUT-EXHAUSTED"); std::process::exit(78); }
    n.pos += 1;
    n.input[n.pos - 1]
}
#[inline(never)] #[no_mangle] pub unsafe extern "C" fn zs_bytes(p: *mut u8, len: usize, lo: u8, hi: u8) {
    for i in 0..len { let b = next(); if b < lo || b > hi { std::process::exit(79); } *p.add(i) = b; }
}
#[inline(never)] #[no_mangle] pub unsafe extern "C" fn zs_bytes_in(p: *mut u8, len: usize, set: *const u8, k: usize) {
    let s = std::slice::from_raw_parts(set, k);
    for i in 0..len { let b = next(); if !s.contains(&b) { std::process::exit(79); } *p.add(i) = b; }
}
#[inline(never)] #[no_mangle] pub extern "C" fn zs_choice(n: u64) -> u64 { let b = next() as u64; if b >= n { std::process::exit(79); } b }
#[inline(never)] #[no_mangle] pub extern "C" fn zs_assume(c: bool) { if !c { eprintln!("ZSYM-ASSUME-FAILED"); std::process::exit(80); } }
#[inline(never)] #[no_mangle] pub unsafe extern "C" fn zs_assert(c: bool, m: *const u8, l: usize) { if !c { nfail(m, l) } }
#[inline(never)] #[no_mangle] pub unsafe extern "C" fn zs_fail(m: *const u8, l: usize) { nfail(m, l) }
#[inline(never)] #[no_mangle] pub unsafe extern "C" fn zs_unsupported(m: *const u8, l: usize) {
    eprintln!("ZSYM-UNSUPPORTED {}", String::from_utf8_lossy(std::slice::from_raw_parts(m, l)));
    std::process::exit(81);
}
unsafe fn nfail(m: *const u8, l: usize) -> ! {
    eprintln!("ZSYM-VIOLATION {}", String::from_utf8_lossy(std::slice::from_raw_parts(m, l)));
    std::process::exit(77);
}
#[inline(never)] #[no_mangle] pub extern "C" fn zs_cover(_id: u64) { std::hint::black_box(_id); }
#[inline(never)] #[no_mangle] pub unsafe extern "C" fn zs_observe(p: *const u8, l: usize) {
    if let Some(f) = &mut native().obs { let _ = f.write_all(std::slice::from_raw_parts(p, l)); let _ = f.write_all(b"\n"); }
}
#[inline(never)] #[no_mangle] pub extern "C" fn zs_param(i: u64) -> u64 { native().params.get(i as usize).copied().unwrap_or(0) }
#[inline(never)] #[no_mangle] pub unsafe extern "C" fn zs_allow_stop(p: *const u8, l: usize) { std::hint::black_box((p, l)); }
#[inline(never)] #[no_mangle] pub extern "C" fn zs_concretize(x: u64) -> u64 { std::hint::black_box(x) }
#[inline(never)] #[no_mangle] pub extern "C" fn zs_symbolic() -> u64 { std::hint::black_box(0) }

/// `len` symbolic bytes in lo..=hi
pub fn bytes(len: usize, lo: u8, hi: u8) -> Vec<u8> { let mut v = vec![0u8; len]; unsafe { zs_bytes(v.as_mut_ptr(), len, lo, hi) } v }
/// `len` symbolic bytes out of a set
pub fn bytes_in(len: usize, set: &[u8]) -> Vec<u8> { let mut v = vec![0u8; len]; unsafe { zs_bytes_in(v.as_mut_ptr(), len, set.as_ptr(), set.len()) } v }
/// an ASCII string of exactly `len` bytes out of a set
pub fn ascii_in(len: usize, set: &str) -> String { assert!(set.is_ascii()); unsafe { String::from_utf8_unchecked(bytes_in(len, set.as_bytes())) } }
pub fn byte(lo: u8, hi: u8) -> u8 { bytes(1, lo, hi)[0] }
pub fn u64() -> u64 { let v = bytes(8, 0, 255); std::primitive::u64::from_le_bytes([v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]]) }
pub fn choice(n: usize) -> usize { zs_choice(n as u64) as usize }
pub fn flag() -> bool { choice(2) == 1 }
pub fn assume(c: bool) { zs_assume(c) }
pub fn check(c: bool, msg: &str) { unsafe { zs_assert(c, msg.as_ptr(), msg.len()) } }
pub fn fail(msg: &str) -> ! { unsafe { zs_fail(msg.as_ptr(), msg.len()) } ; unreachable!() }
/// what the check cannot judge: the result is inconclusive
pub fn unsupported(msg: &str) -> ! { unsafe { zs_unsupported(msg.as_ptr(), msg.len()) } ; unreachable!() }
pub fn cover(id: u64) { zs_cover(id) }
pub fn observe(s: &str) { unsafe { zs_observe(s.as_ptr(), s.len()) } }
pub fn param(i: usize) -> u64 { zs_param(i as u64) }
pub fn allow_stop(s: &'static str) { unsafe { zs_allow_stop(s.as_ptr(), s.len()) } }
pub fn concretize(x: u64) -> u64 { zs_concretize(x) }
/// is this the symbolic run?
pub fn symbolic() -> bool { zs_symbolic() == 1 }
#[inline(never)] #[no_mangle] pub extern "C" fn zs_done() { eprintln!("ZSYM-DONE"); std::process::exit(0) }
/// the path ends here
pub fn finish() -> ! { zs_done(); unreachable!() }
/// end of a native run
pub fn done() -> ! { eprintln!("ZSYM-DONE"); std::process::exit(0) }
