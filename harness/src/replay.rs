//! Runs one harness natively on recorded inputs.
//! replay FILE: lines "entry NAME", "param N", "in ID VALUE"; prints "out ..", "check TAG", "panic", "assume"
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};
#[derive(Default)]
struct Case { entry: String, params: Vec<u64>, ins: HashMap<u32, u64> }
static CASE: OnceLock<Case> = OnceLock::new();
static LOG: Mutex<(Vec<String>, u32)> = Mutex::new((vec![], 0));
struct Assume;
fn case() -> &'static Case { CASE.get().unwrap() }
fn input(id: u32) -> Option<u64> { case().ins.get(&id).copied() }
fn log(s: String) { let mut l = LOG.lock().unwrap(); if l.0.len() < 10_000 { l.0.push(s); } }
fn fail(tag: u64) { log(format!("check {tag}")); LOG.lock().unwrap().1 |= 1; }
fn reject() -> ! { std::panic::panic_any(Assume) }
#[no_mangle] extern "C-unwind" fn sym_param(i: u64) -> u64 { case().params.get(i as usize).copied().unwrap_or(0) }
#[no_mangle] extern "C-unwind" fn sym_is_engine() -> i32 { 0 }
#[no_mangle] unsafe extern "C-unwind" fn sym_byte(id: u32, p: *const u8, n: usize) -> u8 {
    let al = unsafe { std::slice::from_raw_parts(p, n) };
    let v = input(id).map(|v| v as u8).unwrap_or(*al.iter().min().unwrap());
    if !al.contains(&v) { reject() }
    v
}
#[no_mangle] extern "C-unwind" fn sym_u64(id: u32) -> u64 { input(id).unwrap_or(0) }
#[no_mangle] extern "C-unwind" fn sym_f64(id: u32) -> f64 { f64::from_bits(input(id).unwrap_or(0)) }
#[no_mangle] extern "C-unwind" fn sym_choice(id: u32, n: u64) -> u64 { let v = input(id).unwrap_or(0); if v >= n { reject() } v }
#[no_mangle] extern "C-unwind" fn sym_assume(b: bool) { if !b { reject() } }
#[no_mangle] extern "C-unwind" fn sym_check(b: bool, tag: u64) { if !b { fail(tag) } }
#[no_mangle] extern "C-unwind" fn sym_same(a: f64, b: f64, tag: u64) { if a.to_bits() != b.to_bits() && !(a.is_nan() && b.is_nan()) { log(format!("values {a:?} {b:?}")); fail(tag) } }
#[no_mangle] extern "C-unwind" fn sym_feq(a: f64, b: f64, tag: u64) { if a != b && !(a.is_nan() && b.is_nan()) { log(format!("values {a:?} {b:?}")); fail(tag) } }
#[no_mangle] extern "C-unwind" fn sym_finite(x: f64) { if !x.is_finite() { reject() } }
#[no_mangle] extern "C-unwind" fn sym_cover(t: u64) { if std::env::var_os("REPLAY_STRESS").is_none() { log(format!("cover {t}")) } }
#[no_mangle] extern "C-unwind" fn sym_out(x: u64) { log(format!("out {x}")) }
#[no_mangle] extern "C-unwind" fn sym_outf(x: f64) { log(if x.is_nan() { "outf nan".into() } else { format!("outf {}", x.to_bits()) }) }
#[no_mangle] extern "C-unwind" fn sym_uf(id: u32, p: *const f64, n: usize) -> f64 {
    let v = unsafe { std::slice::from_raw_parts(p, n) };
    // the same formula as user_fn in the engine
    let mut acc = 0.5 + id as f64 * 0.25;
    for (i, x) in v.iter().enumerate() {
        let x = if *x == 0.0 { 0.0 } else { *x };
        acc = acc * 1.25 + x * (1.375 + 0.5 * i as f64 + 0.125 * id as f64);
    }
    acc
}
#[no_mangle] extern "C-unwind" fn sym_catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(data))) {
        Ok(()) => false,
        Err(e) => { if e.is::<Assume>() { std::panic::resume_unwind(e) } true }
    }
}
#[no_mangle] extern "C-unwind" fn sym_freeze(_on: u32) {}
#[no_mangle] extern "C-unwind" fn sym_other(_f: extern "C-unwind" fn(*mut u8), _data: *mut u8) {}
/// twice at the same time, or with REPLAY_STRESS for so many seconds on eight threads, half of them running g
#[no_mangle] extern "C-unwind" fn sym_shared(f: extern "C-unwind" fn(*mut u8), data: *mut u8, g: extern "C-unwind" fn(*mut u8), data2: *mut u8) {
    let (d, e) = (data as usize, data2 as usize);
    let secs: f64 = std::env::var("REPLAY_STRESS").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0);
    if secs == 0.0 { std::thread::scope(|s| { s.spawn(move || f(d as *mut u8)); s.spawn(move || f(d as *mut u8)); s.spawn(move || g(e as *mut u8)); }); return; }
    let t0 = std::time::Instant::now();
    let done = || t0.elapsed().as_secs_f64() > secs || LOG.lock().unwrap().1 != 0;
    let done = &done;
    std::thread::scope(|s| for i in 0..8 {
        s.spawn(move || while !done() { for _ in 0..2000 { if i % 2 == 0 { f(d as *mut u8) } else { g(e as *mut u8) } } });
    });
}
fn main() {
    let f = std::env::args().nth(1).expect("file");
    let threads: usize = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut c = Case::default();
    for l in std::fs::read_to_string(f).expect("read").lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("entry") => c.entry = w.next().unwrap().into(),
            Some("param") => c.params.push(w.next().unwrap().parse().unwrap()),
            Some("in") => { let id = w.next().unwrap().parse().unwrap(); c.ins.insert(id, w.next().unwrap().parse::<u128>().unwrap() as u64); }
            _ => {}
        }
    }
    let _ = CASE.set(c);
    let e = harness::ENTRIES.iter().find(|e| e.0 == case().entry).expect("entry").1;
    std::panic::set_hook(Box::new(|i| { if !i.payload().is::<Assume>() { eprintln!("{i}"); } }));
    let one = move || match std::panic::catch_unwind(|| e()) {
        Ok(()) => {}
        Err(p) => { if p.is::<Assume>() { log("assume".into()); LOG.lock().unwrap().1 |= 4; } else { log("panic".into()); LOG.lock().unwrap().1 |= 2; } }
    };
    if threads > 1 { std::thread::scope(|s| { for _ in 0..threads { s.spawn(one); } }); } else { one(); }
    let l = LOG.lock().unwrap();
    for s in &l.0 { println!("{s}"); }
    println!("end {}", l.1);
    std::process::exit(if l.1 & 2 != 0 { 2 } else if l.1 & 1 != 0 { 1 } else if l.1 & 4 != 0 { 3 } else { 0 });
}
