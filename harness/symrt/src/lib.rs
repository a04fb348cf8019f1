//! Thin wrappers around the engine's intrinsics.  In the symbolic run the
//! engine interprets `sym_*`; in the native replay the same library is loaded
//! by tools/native.c, which implements them from a file of concrete inputs.
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize, name: *const u8, l: usize);
    fn sym_choose(lo: u64, hi: u64, name: *const u8, l: usize) -> u64;
    fn sym_assume(b: bool);
    fn sym_assert(b: bool, name: *const u8, l: usize);
    fn sym_cover(name: *const u8, l: usize);
    fn sym_observe(name: *const u8, l: usize, p: *const u8, n: usize);
    fn sym_bytes_eq(p: *const u8, q: *const u8, n: usize) -> bool;
    fn sym_keccak256(p: *const u8, n: usize, out: *mut u8);
    fn sym_wide(op: u64, a: *const u8, b: *const u8, o: *mut u8, n: usize);
    fn sym_concretize(v: u64) -> u64;
    fn sym_panic(file: *const u8, fl: usize, line: u32, msg: *const u8, ml: usize);
}
extern "C-unwind" {
    fn sym_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32;
}

/// `n` arbitrary bytes.
pub fn vec(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { sym_bytes(v.as_mut_ptr(), n, name.as_ptr(), name.len()) };
    v
}
pub fn arr<const N: usize>(name: &str) -> [u8; N] {
    let mut a = [0u8; N];
    unsafe { sym_bytes(a.as_mut_ptr(), N, name.as_ptr(), name.len()) };
    a
}
pub fn u8(name: &str) -> u8 { arr::<1>(name)[0] }
pub fn u16(name: &str) -> u16 { u16::from_le_bytes(arr(name)) }
pub fn u32(name: &str) -> u32 { u32::from_le_bytes(arr(name)) }
pub fn u64(name: &str) -> u64 { u64::from_le_bytes(arr(name)) }
pub fn u128(name: &str) -> u128 { u128::from_le_bytes(arr(name)) }
/// An arbitrary bool.
pub fn bool(name: &str) -> bool { (u8(name) & 1) == 1 }
/// One path per value of `lo..=hi`.
pub fn choose(name: &str, lo: u64, hi: u64) -> u64 { unsafe { sym_choose(lo, hi, name.as_ptr(), name.len()) } }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
pub fn check(b: bool, id: &str) { unsafe { sym_assert(b, id.as_ptr(), id.len()) } }
pub fn cover(id: &str) { unsafe { sym_cover(id.as_ptr(), id.len()) } }
pub fn observe(id: &str, b: &[u8]) { unsafe { sym_observe(id.as_ptr(), id.len(), b.as_ptr(), b.len()) } }
pub fn concretize(v: u64) -> u64 { unsafe { sym_concretize(v) } }
/// Byte equality as one expression (no early exit, hence no path split).
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && unsafe { sym_bytes_eq(a.as_ptr(), b.as_ptr(), a.len()) } }
pub fn keccak(b: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    unsafe { sym_keccak256(b.as_ptr(), b.len(), o.as_mut_ptr()) };
    o
}
/// Modular arithmetic on little-endian integers as wide as the operands.
pub fn wide<const N: usize>(op: char, a: [u8; N], b: [u8; N]) -> [u8; N] {
    let mut o = [0u8; N];
    let k = match op { '+' => 0, '-' => 1, '*' => 2, '/' => 3, _ => 4 };
    unsafe { sym_wide(k, a.as_ptr(), b.as_ptr(), o.as_mut_ptr(), N) };
    o
}
extern "C-unwind" fn go<F: FnOnce() -> T, T>(p: *mut u8) {
    let st = unsafe { &mut *(p as *mut (Option<F>, Option<T>)) };
    let f = st.0.take().unwrap();
    st.1 = Some(f());
}
/// Runs `f`; `None` when it panicked.
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    let mut st: (Option<F>, Option<T>) = (Some(f), None);
    let bad = unsafe { sym_try(go::<F, T>, &mut st as *mut _ as *mut u8) } != 0;
    if bad { None } else { st.1.take() }
}
/// Runs `f` and asserts that it does not panic.
pub fn no_panic<T, F: FnOnce() -> T>(id: &str, f: F) -> Option<T> {
    let r = catch(f);
    check(r.is_some(), id);
    r
}

/// Native replay only: route panics to the runtime.
#[no_mangle]
pub extern "C" fn symrt_init() {
    std::panic::set_hook(Box::new(|i| {
        let (f, l) = i.location().map(|l| (l.file(), l.line())).unwrap_or(("?", 0));
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { i.to_string() };
        unsafe { sym_panic(f.as_ptr(), f.len(), l, m.as_ptr(), m.len()) }
    }));
}
