//! The interface between a harness and whoever runs it: the symbolic engine (which intercepts these
//! functions) or the native replay binary (which implements them from recorded inputs).
extern "C-unwind" {
    pub fn sym_param(i: u64) -> u64;
    pub fn sym_is_engine() -> i32;
    fn sym_byte(id: u32, alphabet: *const u8, len: usize) -> u8;
    fn sym_u64(id: u32) -> u64;
    fn sym_f64(id: u32) -> f64;
    fn sym_choice(id: u32, n: u64) -> u64;
    fn sym_assume(b: bool);
    fn sym_check(b: bool, tag: u64);
    fn sym_same(a: f64, b: f64, tag: u64);
    fn sym_feq(a: f64, b: f64, tag: u64);
    fn sym_finite(x: f64);
    fn sym_cover(tag: u64);
    fn sym_out(x: u64);
    fn sym_outf(x: f64);
    fn sym_uf(id: u32, args: *const f64, n: usize) -> f64;
    fn sym_catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool;
    fn sym_freeze(on: u32);
    fn sym_other(f: extern "C-unwind" fn(*mut u8), data: *mut u8);
    fn sym_shared(f: extern "C-unwind" fn(*mut u8), data: *mut u8, g: extern "C-unwind" fn(*mut u8), data2: *mut u8);
}
pub fn param(i: u64) -> u64 { unsafe { sym_param(i) } }
pub fn is_engine() -> bool { unsafe { sym_is_engine() != 0 } }
/// a symbolic byte out of a fixed alphabet
pub fn byte(id: u32, al: &[u8]) -> u8 { unsafe { sym_byte(id, al.as_ptr(), al.len()) } }
pub fn bits(id: u32) -> u64 { unsafe { sym_u64(id) } }
/// a symbolic number: any of the 2^64 bit patterns
pub fn num(id: u32) -> f64 { unsafe { sym_f64(id) } }
/// a number in 0..n, one path each
pub fn choice(id: u32, n: u64) -> u64 { unsafe { sym_choice(id, n) } }
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
pub fn check(b: bool, tag: u64) { unsafe { sym_check(b, tag) } }
/// the same bits, or both NaN
pub fn same(a: f64, b: f64, tag: u64) { unsafe { sym_same(a, b, tag) } }
/// the same number (zeros equal), or both NaN
pub fn feq(a: f64, b: f64, tag: u64) { unsafe { sym_feq(a, b, tag) } }
pub fn finite(x: f64) { unsafe { sym_finite(x) } }
pub fn cover(tag: u64) { unsafe { sym_cover(tag) } }
pub fn out(x: u64) { unsafe { sym_out(x) } }
pub fn outf(x: f64) { unsafe { sym_outf(x) } }
/// an unknown function of its arguments (deterministic, blind to the sign of zero and NaN payloads)
pub fn uf(id: u32, args: &[f64]) -> f64 { unsafe { sym_uf(id, args.as_ptr(), args.len()) } }
/// Runs f while other threads run f and g. In the engine: f runs once, any write to memory that existed before is
/// reported (except by atomic operations), and g may run as a whole before any one atomic operation of f on
/// such memory. Natively: several threads run f and g at the same time.
pub fn shared<F: Fn(), G: Fn()>(f: F, g: G) {
    extern "C-unwind" fn tramp<F: Fn()>(p: *mut u8) { unsafe { (*p.cast::<F>())() } }
    let (pf, pg) = ((&raw const f).cast_mut().cast(), (&raw const g).cast_mut().cast());
    if is_engine() { unsafe { sym_freeze(1); sym_other(tramp::<G>, pg); } f(); unsafe { sym_freeze(0) } }
    else { unsafe { sym_shared(tramp::<F>, pf, tramp::<G>, pg) } }
}
/// runs f; did it panic?
pub fn panics<F: FnMut()>(mut f: F) -> bool {
    extern "C-unwind" fn tramp<F: FnMut()>(p: *mut u8) { unsafe { (*p.cast::<F>())() } }
    unsafe { sym_catch(tramp::<F>, (&raw mut f).cast()) }
}
