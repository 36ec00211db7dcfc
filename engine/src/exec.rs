//! Symbolic interpreter for LLVM IR: memory model, instruction semantics, forking, harness intrinsics.
use crate::ir::*;
use crate::term::{self, Arena, Model, VKind, T};
use crate::z3::{Api, Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ program
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Code, Unsup, Nop, Abort, Throw, Alloc, AllocZ, Dealloc, Realloc, RandKeys, HashOne, Fact,
    MemCpy, MemSet, BCmp, MemCmp, StrLen, Assume, Ovf(u8), MinMax(u8), Sat(u8), Ctpop, Ctlz, Cttz, BSwap, BitRev, Fsh(bool), Abs,
    Expect, False, ThreadLocal, Un(&'static str), FAbs, CopySign, Pow, Powi, FMod, FMin, FMax, Bi(&'static str), Fma,
    SatToI(bool), FpClass, RedOr, RedAnd, RedAdd, PtrMask, FloatFmt,
    SHash, SParam, SByte, SU8, SU64, SF64, SChoice, SAssume, SCheck, SSame, SFeq, SFinite, SCover, SOut, SOutF, SUf, SCatch, SConc, SIsEngine, SFreeze, SOther,
}

pub struct Prog { pub m: Module, pub kinds: Vec<K>, pub fmtfn: Vec<bool> }

const UN_LIBM: &[&str] = &["sqrt", "trunc", "floor", "ceil", "round", "exp", "log", "log10", "sin", "cos", "rint", "log2", "exp2", "tgamma", "cbrt", "log1p", "atan", "tan", "tanh", "acos", "acosh", "asin", "asinh", "cosh", "sinh", "expm1", "atanh", "lgamma"];

fn is_fact(n: &str) -> bool { n.contains("4xprs") && n.contains("5utils9factorial9factorial") }
fn classify(n: &str, decl: bool, fact_uf: bool) -> K {
    match n {
        "sym_param" => return K::SParam, "sym_byte" => return K::SByte, "sym_u8" => return K::SU8, "sym_u64" => return K::SU64, "sym_f64" => return K::SF64,
        "sym_choice" => return K::SChoice, "sym_assume" => return K::SAssume, "sym_check" => return K::SCheck, "sym_same" => return K::SSame, "sym_feq" => return K::SFeq,
        "sym_finite" => return K::SFinite, "sym_cover" => return K::SCover, "sym_out" => return K::SOut, "sym_outf" => return K::SOutF, "sym_uf" => return K::SUf,
        "sym_catch" => return K::SCatch, "sym_conc" => return K::SConc, "sym_freeze" => return K::SFreeze, "sym_other" => return K::SOther, "sym_is_engine" => return K::SIsEngine,
        "memcpy" | "memmove" => return K::MemCpy, "memset" => return K::MemSet, "bcmp" => return K::BCmp, "memcmp" => return K::MemCmp, "strlen" => return K::StrLen,
        "pow" => return K::Pow, "fmod" => return K::FMod, "fmin" => return K::FMin, "fmax" => return K::FMax, "hypot" => return K::Bi("hypot"), "atan2" => return K::Bi("atan2"), "fabs" => return K::FAbs,
        "abort" => return K::Abort,
        _ => {}
    }
    if decl { if let Some(u) = UN_LIBM.iter().find(|u| **u == n) { return K::Un(u); } }
    if n.contains("17rust_begin_unwind") { return K::Throw; }
    if n.contains("7___rustc12___rust_alloc") { return K::Alloc; }
    if n.contains("19___rust_alloc_zeroed") { return K::AllocZ; }
    if n.contains("14___rust_dealloc") { return K::Dealloc; }
    if n.contains("14___rust_realloc") { return K::Realloc; }
    if n.contains("no_alloc_shim") { return K::Nop; }
    if n.contains("19hashmap_random_keys") { return K::RandKeys; }
    if n.contains("8hash_one") && n.contains("BuildHasher") { return K::HashOne; }
    if n.contains("panic_nounwind") || n.contains("panic_cannot_unwind") || n.contains("panic_in_cleanup") { return K::Abort; }
    if n.contains("handle_alloc_error") || n.contains("alloc_error_handler") { return K::Abort; }
    if fact_uf && !decl && (is_fact(n) || n.contains("7harness4refm4fact")) { return K::Fact; }
    if let Some(s) = n.strip_prefix("llvm.") {
        let base = s.split('.').take_while(|p| !(p.starts_with(|c| c == 'i' || c == 'f' || c == 'p' || c == 'v') && p[1..].chars().next().map_or(false, |c| c.is_ascii_digit()) )).collect::<Vec<_>>().join(".");
        return match base.as_str() {
            "memcpy" | "memmove" | "memcpy.inline" => K::MemCpy,
            "memset" => K::MemSet,
            "assume" => K::Assume,
            "expect" | "expect.with.probability" => K::Expect, "is.constant" => K::False,
            "uadd.with.overflow" => K::Ovf(0), "sadd.with.overflow" => K::Ovf(1), "usub.with.overflow" => K::Ovf(2), "ssub.with.overflow" => K::Ovf(3), "umul.with.overflow" => K::Ovf(4), "smul.with.overflow" => K::Ovf(5),
            "umin" => K::MinMax(0), "umax" => K::MinMax(1), "smin" => K::MinMax(2), "smax" => K::MinMax(3), "ucmp" => K::MinMax(4), "scmp" => K::MinMax(5),
            "uadd.sat" => K::Sat(0), "usub.sat" => K::Sat(1), "sadd.sat" => K::Sat(2), "ssub.sat" => K::Sat(3),
            "ctpop" => K::Ctpop, "ctlz" => K::Ctlz, "cttz" => K::Cttz, "bswap" => K::BSwap, "bitreverse" => K::BitRev,
            "fshl" => K::Fsh(true), "fshr" => K::Fsh(false), "abs" => K::Abs,
            "threadlocal.address" => K::ThreadLocal,
            "sqrt" => K::Un("sqrt"), "trunc" => K::Un("trunc"), "floor" => K::Un("floor"), "ceil" => K::Un("ceil"), "round" => K::Un("round"), "rint" | "nearbyint" | "roundeven" => K::Un("rint"),
            "exp" => K::Un("exp"), "exp2" => K::Un("exp2"), "log" => K::Un("log"), "log10" => K::Un("log10"), "log2" => K::Un("log2"), "sin" => K::Un("sin"), "cos" => K::Un("cos"),
            "fabs" => K::FAbs, "copysign" => K::CopySign, "pow" => K::Pow, "powi" => K::Powi,
            "minnum" | "minimumnum" => K::FMin, "maxnum" | "maximumnum" => K::FMax,
            "fma" | "fmuladd" => K::Fma,
            "fptoui.sat" => K::SatToI(false), "fptosi.sat" => K::SatToI(true), "is.fpclass" => K::FpClass,
            "vector.reduce.or" => K::RedOr, "vector.reduce.and" => K::RedAnd, "vector.reduce.add" => K::RedAdd,
            "ptrmask" => K::PtrMask,
            "trap" | "debugtrap" | "ubsantrap" => K::Abort,
            _ if base.starts_with("lifetime") || base.starts_with("dbg") || base.starts_with("experimental.noalias") || base.starts_with("donothing") || base.starts_with("invariant") => K::Nop,
            _ => K::Unsup,
        };
    }
    if decl { K::Unsup } else { K::Code }
}

impl Prog {
    pub fn new(m: Module, fact_uf: bool) -> Prog {
        // both the implementation's factorial and the reference's, or neither
        let f64fn = |f: &Func| !f.decl && f.ret == Ty::F64 && f.nargs == 1;
        let fact_uf = fact_uf && m.funcs.iter().any(|f| is_fact(&f.name) && f64fn(f)) && m.funcs.iter().all(|f| !is_fact(&f.name) || f64fn(f));
        let kinds = m.funcs.iter().map(|f| classify(&f.name, f.decl, fact_uf)).collect();
        let fmtfn = m.funcs.iter().map(|f| f.name.contains("float_to_decimal") || f.name.contains("flt2dec") || f.name.contains("float_to_general") || f.name.contains("float_to_exponential") || (f.name.contains("3fmt5float") && f.name.contains("3fmt"))).collect();
        Prog { m, kinds, fmtfn }
    }
}

// ------------------------------------------------------------------ state
const NOSYM: u32 = u32::MAX;
#[derive(Clone, Debug)]
pub struct Obj { b: Vec<u8>, s: Option<Vec<(T, u8)>>, align: u64 }
impl Obj {
    fn new(size: u64, align: u64, fill: u8) -> Obj { Obj { b: vec![fill; size as usize], s: None, align } }
    fn is_sym(&self, o: usize, n: usize) -> bool { match &self.s { None => false, Some(s) => s[o..o + n].iter().any(|x| x.0 != NOSYM) } }
    fn put_c(&mut self, o: usize, v: u128, n: usize) {
        for i in 0..n { self.b[o + i] = (v >> (8 * i)) as u8; }
        if let Some(s) = &mut self.s { for x in &mut s[o..o + n] { x.0 = NOSYM; } }
    }
    fn put_s(&mut self, o: usize, t: T, n: usize) {
        let len = self.b.len();
        let s = self.s.get_or_insert_with(|| vec![(NOSYM, 0); len]);
        for i in 0..n { s[o + i] = (t, i as u8); }
    }
}

#[derive(Clone, Debug)]
pub struct Frame { f: u32, blk: u32, pc: u32, regs: Vec<Val>, sbase: u32, dst: Option<u32>, inv: Option<(u32, u32)>, catch: bool }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tr { B(bool), V(u128) }

#[derive(Clone)]
pub struct St {
    job: usize,
    cur: Frame,
    stack: Vec<Rc<Frame>>,
    sobjs: Vec<Rc<Obj>>,
    heap: Vec<Option<Rc<Obj>>>,
    glob: BTreeMap<u32, Rc<Obj>>,
    cons: Vec<T>,
    doms: Vec<Option<[u64; 4]>>,
    /// variables (below 128) with one value left
    single: u128,
    model: Option<Rc<Model>>,
    trail: Vec<Tr>,
    mark: usize,
    /// domains and number of constraints at the start of the instruction, once it has narrowed them
    snap: Option<Rc<(Vec<Option<[u64; 4]>>, u128, usize)>>,
    /// choices made and how many there were
    picks: Vec<(u32, u32)>,
    replay: VecDeque<Tr>,
    outs: Vec<Val>,
    outk: Vec<u8>,
    covers: Vec<u64>,
    steps: u64,
    maybe_spurious: bool,
    /// heap objects below this number and non-thread-local globals must not be written (0: off)
    frozen: u32,
    atomic: bool,
    locked: bool,
    /// what another thread does (function, argument), which may happen once, as a whole, before any
    /// atomic operation on shared memory
    other: Option<(u32, Val)>,
    /// running it: depth of the stack, the thread's own variables, whether a lock was held
    within: Option<Rc<(usize, Vec<(u32, Rc<Obj>)>)>>,
}

pub enum Stop { Kill, Done, Event(String, String), Unsup(String) }
type X<A> = Result<A, Stop>;

// ------------------------------------------------------------------ shared between workers
#[derive(Clone)]
pub struct Job { pub name: String, pub entry: String, pub params: Vec<u64>, pub min: bool }

#[derive(Default, Clone)]
pub struct JobStat {
    pub paths: u64, pub killed: u64, pub forks: u64, pub checks: u64, pub trivial: u64, pub events: u64, pub unsup: u64, pub pending: i64, pub started: bool,
    pub covers: BTreeMap<u64, u64>,
    pub inconclusive: Vec<String>, pub ninc: u64, pub unsups: BTreeMap<String, u64>,
    pub cands: Vec<Cand>, pub ncand: u64,
    pub samples: Vec<Sample>,
    /// inputs of paths that could not be followed to their end
    pub cuts: Vec<Vec<(u32, u32, u128)>>,
    pub abandoned: u64,
    /// which of the audit's inputs fell on a path that was followed, and the inputs it knows of
    pub hit: u64,
    pub seen: BTreeMap<(u32, u32), [u64; 4]>,
    pub steps: u64,
    pub nanos: u128,
}
#[derive(Clone)]
pub struct Cand { pub kind: String, pub tag: String, pub msg: String, pub inputs: Vec<(u32, u32, u128)>, pub confirmed: bool, pub exact: bool }
#[derive(Clone)]
pub struct Sample { pub inputs: Vec<(u32, u32, u128)>, pub outs: Vec<(u8, u128)>, pub covers: Vec<u64> }

pub struct Item { job: usize, prefix: Vec<Tr> }
pub struct Shared {
    pub prog: Prog,
    pub jobs: Vec<Job>,
    pub stats: Mutex<Vec<JobStat>>,
    pub queue: Mutex<(Vec<VecDeque<Item>>, usize)>, // per job FIFO, number of busy workers
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub outstanding: Vec<AtomicU64>,
    pub stop: AtomicBool,
    pub deadline: Instant,
    pub funcs_run: Mutex<HashSet<u32>>,
    pub solver: Mutex<SolverStat>,
    pub max_cands: u64,
    pub max_steps: u64,
    pub nsamples: usize,
    pub tmo: (u32, u32),
    pub mem_limit: u64,
}
#[derive(Default, Clone)]
pub struct SolverStat { pub queries: u64, pub exact: u64, pub unknown: u64, pub nanos: u128, pub max: u128, pub cached: u64, pub domain: u64, pub version: String, pub steps: u64 }

pub struct Ex<'p> {
    pub p: &'p Prog,
    pub ar: Arena,
    pub z: Z3,
    sh: &'p Shared,
    pend: Vec<St>,
    qcache: HashMap<(Vec<T>, Vec<(u32, [u64; 4])>), (Res, Option<Rc<Model>>)>,
    vmask: Vec<u128>,
    js: Vec<JobStat>,
    ran: Vec<bool>,
    cached: u64,
    domain: u64,
    steps: u64,
    rng: u64,
    pool: Vec<Vec<Val>>,
    alph: HashMap<(usize, u32), [u64; 4]>,
}

fn c64(v: u64) -> Val { Val::C(v as u128) }
const FULL: [u64; 4] = [!0; 4];
fn d_and(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
fn d_not(a: &[u64; 4]) -> [u64; 4] { [!a[0], !a[1], !a[2], !a[3]] }
fn d_empty(a: &[u64; 4]) -> bool { a.iter().all(|x| *x == 0) }
fn d_min(a: &[u64; 4]) -> u32 { for (i, x) in a.iter().enumerate() { if *x != 0 { return i as u32 * 64 + x.trailing_zeros(); } } 0 }
fn d_has(a: &[u64; 4], v: u32) -> bool { a[(v / 64) as usize] >> (v % 64) & 1 == 1 }
pub fn audit_hash(k: u32, id: u32) -> u64 { let mut x = (k as u64) << 32 | id as u64; for _ in 0..2 { x = x.wrapping_add(0x9E3779B97F4A7C15); x = (x ^ x >> 30).wrapping_mul(0xBF58476D1CE4E5B9); x = (x ^ x >> 27).wrapping_mul(0x94D049BB133111EB); x ^= x >> 31; } x }
pub fn audit_first(n: u32) -> [u64; 4] { let mut d = [0u64; 4]; for b in 0..n.min(256) { d[(b / 64) as usize] |= 1 << (b % 64); } d }
/// the byte of audit input k
pub fn audit_byte(k: u32, id: u32, d: &[u64; 4]) -> u32 {
    let mut n = (audit_hash(k, id) % d_count(d).max(1) as u64) as u32;
    for v in 0..256 { if d_has(d, v) { if n == 0 { return v; } n -= 1; } }
    0
}
pub fn audit_float(k: u32, id: u32) -> u64 {
    const G: [f64; 16] = [1.5, 0.0, -0.0, 1.0, -1.0, 2.0, 3.0, 170.0, -2.5, f64::INFINITY, f64::NAN, 1e300, 5e-324, f64::NEG_INFINITY, 0.1, 4.0];
    let h = audit_hash(k, id);
    if h >> 20 & 3 == 0 { audit_hash(k + 1000, id) } else { G[(h % 16) as usize].to_bits() }
}
fn d_count(a: &[u64; 4]) -> u32 { a.iter().map(|x| x.count_ones()).sum() }

pub fn demangle(n: &str) -> String {
    // legacy and v0: keep the readable identifiers
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    if !(n.starts_with("_ZN") || n.starts_with("_R")) { return n.chars().take(80).collect(); }
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut k = 0usize; let st = i;
            while i < b.len() && b[i].is_ascii_digit() && k < 1000 { k = k * 10 + (b[i] - b'0') as usize; i += 1; }
            if i < b.len() && b[i] == b'_' && n.starts_with("_R") { i += 1; }
            if i + k <= b.len() && k > 1 && k < 200 && n.is_char_boundary(i) && n.is_char_boundary(i + k) && n[i..i + k].chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '$' || c == '.') { out.push(n[i..i + k].to_string()); i += k; }
            else { i = st + 1; }
        } else { i += 1; }
    }
    if let Some(l) = out.last() { if l.len() == 17 && l.starts_with('h') { out.pop(); } }
    out.join("::").replace("$LT$", "<").replace("$GT$", ">").replace("..", "::").replace("$u20$", " ").replace("$RF$", "&").replace("$C$", ",")
}

impl<'p> Ex<'p> {
    pub fn new(sh: &'p Shared, api: &'static Api, seed: u64) -> Ex<'p> {
        Ex { p: &sh.prog, ar: Arena::new(), z: Z3::new(api, sh.tmo.0, sh.tmo.1), sh, pend: vec![], qcache: HashMap::new(), vmask: vec![], js: vec![JobStat::default(); sh.jobs.len()], ran: vec![false; sh.prog.m.funcs.len()], cached: 0, domain: 0, steps: 0, rng: seed.wrapping_add(std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1).wrapping_mul(0xD1342543DE82EF95)) | 1, pool: vec![], alph: HashMap::new() }
    }
    fn rnd(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }

    // -------------------------------------------------------------- values
    fn t(&mut self, v: &Val, w: u32) -> T { match v { Val::C(k) => self.ar.c(*k, w), Val::S(t) => { debug_assert_eq!(self.ar.w(*t), w); *t } Val::Agg(_) => panic!("aggregate as scalar") } }
    fn v(&self, t: T) -> Val { match self.ar.k(t) { Some(k) => Val::C(k), None => Val::S(t) } }
    #[inline] fn op(&self, st: &St, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => match &st.cur.regs[*r as usize] { Val::S(t) if st.single != 0 => self.settled(st, *t), v => v.clone() },
            Opnd::C(v) => v.clone(),
        }
    }
    /// the value of a term whose variables all have one value left
    fn settled(&self, st: &St, t: T) -> Val {
        let vs = self.ar.varset(t);
        if vs.is_empty() || !vs.iter().all(|v| *v < 128 && st.single >> *v & 1 == 1) { return Val::S(t); }
        let mut m = Model::new();
        for v in vs { m.insert(*v, d_min(&self.dom(st, *v)) as u128); }
        if self.ar.has_uf(t) { return Val::S(t); }
        Val::C(self.ar.eval(t, &m, &mut HashMap::new()))
    }
    /// an interval of unsigned values a term lies in on this path
    fn urange(&self, st: &St, t: T, memo: &mut HashMap<T, (u128, u128)>) -> (u128, u128) {
        use term::Op as O;
        let n = &self.ar.nodes[t as usize];
        let full = (0u128, mask(!0, n.w));
        if n.op == O::Const { return (n.aux, n.aux); }
        if self.ar.has_float[t as usize] { return full; }
        if let Some(r) = memo.get(&t) { return *r; }
        let r = if let Some(v) = self.single_byte(t) {
            let d = self.dom(st, v);
            if n.op == O::Var { let hi = (0..256u32).rev().find(|x| d_has(&d, *x)).unwrap_or(255); (d_min(&d) as u128, hi as u128) }
            else if d_count(&d) <= 32 {
                let (mut lo, mut hi) = (!0u128, 0u128);
                for x in 0..256u32 { if d_has(&d, x) { let mut m = Model::new(); m.insert(v, x as u128); let k = self.ar.eval(t, &m, &mut HashMap::new()); lo = lo.min(k); hi = hi.max(k); } }
                if lo > hi { full } else { (lo, hi) }
            } else { self.urange_op(st, t, memo, full) }
        } else { self.urange_op(st, t, memo, full) };
        memo.insert(t, r);
        r
    }
    fn urange_op(&self, st: &St, t: T, memo: &mut HashMap<T, (u128, u128)>, full: (u128, u128)) -> (u128, u128) {
        use term::Op as O;
        let n = &self.ar.nodes[t as usize];
        let a = |e: &Self, i: usize, memo: &mut HashMap<T, (u128, u128)>| e.urange(st, n.args[i], memo);
        match n.op {
            O::ZExt => a(self, 0, memo),
            O::SExt => { let iw = self.ar.w(n.args[0]); let x = a(self, 0, memo); if x.1 >> (iw - 1) == 0 { x } else { full } }
            O::Add => {
                let (x, y) = (a(self, 0, memo), a(self, 1, memo));
                match (x.0.checked_add(y.0), x.1.checked_add(y.1)) {
                    (Some(l), Some(h)) if h <= full.1 => (l, h),
                    (Some(l), Some(h)) if n.w < 128 && l > full.1 && h >> (n.w + 1) == 0 => (l - full.1 - 1, h - full.1 - 1),
                    _ => full,
                }
            }
            O::Mul => { let (x, y) = (a(self, 0, memo), a(self, 1, memo)); match (x.0.checked_mul(y.0), x.1.checked_mul(y.1)) { (Some(l), Some(h)) if h <= full.1 => (l, h), _ => full } }
            O::UDiv => { let (x, y) = (a(self, 0, memo), a(self, 1, memo)); if y.0 > 0 { (x.0 / y.1, x.1 / y.0) } else { full } }
            O::URem => { let (x, y) = (a(self, 0, memo), a(self, 1, memo)); if y.0 > 0 { if x.1 < y.0 { x } else { (0, x.1.min(y.1 - 1)) } } else { full } }
            O::And => { let (x, y) = (a(self, 0, memo), a(self, 1, memo)); (0, x.1.min(y.1)) }
            O::LShr => { let x = a(self, 0, memo); match self.ar.k(n.args[1]) { Some(k) if k < n.w as u128 => (x.0 >> k, x.1 >> k), _ => (0, x.1) } }
            O::Concat => { let (x, y) = (a(self, 0, memo), a(self, 1, memo)); let lw = self.ar.w(n.args[1]); if n.w > 127 { full } else { (x.0 << lw | y.0, x.1 << lw | y.1) } }
            O::Extract if n.aux == 0 => { let x = a(self, 0, memo); if x.1 <= full.1 { x } else { full } }
            O::Ite => { let (x, y) = (a(self, 1, memo), a(self, 2, memo)); (x.0.min(y.0), x.1.max(y.1)) }
            O::Table => { let v = &self.ar.tables[n.aux as usize].1; (*v.iter().min().unwrap(), *v.iter().max().unwrap()) }
            _ => full,
        }
    }
    /// a comparison the intervals of its sides decide
    fn by_range(&self, st: &St, c: T) -> Option<bool> {
        use term::Op as O;
        let n = &self.ar.nodes[c as usize];
        match n.op {
            O::Not => return self.by_range(st, n.args[0]).map(|b| !b),
            O::Ult | O::Ule | O::Eq | O::Slt | O::Sle => {}
            _ => return None,
        }
        if self.ar.has_float[c as usize] { return None; }
        let w = self.ar.w(n.args[0]);
        if w > 64 || w < 2 { return None; }
        let mut memo = HashMap::new();
        // x + y < x: the sum wrapped round
        if n.op == O::Ult && self.ar.op(n.args[0]) == O::Add && (self.ar.arg(n.args[0], 0) == n.args[1] || self.ar.arg(n.args[0], 1) == n.args[1]) {
            let (p, q) = (self.urange(st, self.ar.arg(n.args[0], 0), &mut memo), self.urange(st, self.ar.arg(n.args[0], 1), &mut memo));
            if p.1 + q.1 <= mask(!0, w) { return Some(false); }
        }
        let (x, y) = (self.urange(st, n.args[0], &mut memo), self.urange(st, n.args[1], &mut memo));
        if matches!(n.op, O::Slt | O::Sle) {
            let s = |r: (u128, u128)| -> Option<(i128, i128)> { if r.0 >> (w - 1) == r.1 >> (w - 1) { Some((term::sx(r.0, w), term::sx(r.1, w))) } else { None } };
            let (x, y) = (s(x)?, s(y)?);
            return match n.op { O::Slt => if x.1 < y.0 { Some(true) } else if x.0 >= y.1 { Some(false) } else { None }, _ => if x.1 <= y.0 { Some(true) } else if x.0 > y.1 { Some(false) } else { None } };
        }
        match n.op {
            O::Ult => if x.1 < y.0 { Some(true) } else if x.0 >= y.1 { Some(false) } else { None },
            O::Ule => if x.1 <= y.0 { Some(true) } else if x.0 > y.1 { Some(false) } else { None },
            _ => if x.1 < y.0 || y.1 < x.0 { Some(false) } else { None },
        }
    }
    fn conc(&self, v: &Val) -> Option<u128> { match v { Val::C(k) => Some(*k), _ => None } }

    // -------------------------------------------------------------- constraints
    fn mask_of(&mut self, t: T) -> u128 {
        let vs = self.ar.vars[t as usize] as usize;
        while self.vmask.len() <= vs { let i = self.vmask.len(); let m = self.ar.varsets[i].iter().fold(0u128, |m, v| m | 1 << (v % 128)); self.vmask.push(m); }
        self.vmask[vs]
    }
    fn single_byte(&self, t: T) -> Option<u32> {
        let vs = self.ar.varset(t);
        if vs.len() == 1 && self.ar.var_kind[vs[0] as usize].0 == VKind::Byte { Some(vs[0]) } else { None }
    }
    fn dom(&self, st: &St, v: u32) -> [u64; 4] { st.doms.get(v as usize).copied().flatten().unwrap_or(FULL) }
    fn snapshot(st: &mut St) { if st.snap.is_none() { st.snap = Some(Rc::new((st.doms.clone(), st.single, st.cons.len()))); } }
    /// the other side of a fork: the state at the start of the instruction, with the choices made since to be repeated
    fn fork(st: &St, c: Tr) -> St {
        let mut o = st.clone();
        if let Some(s) = o.snap.take() { o.doms = s.0.clone(); o.single = s.1; o.cons.truncate(s.2); }
        o.replay = st.trail[st.mark..].iter().copied().collect();
        o.replay.push_back(c);
        o.trail.truncate(st.mark);
        o
    }
    fn set_dom(&mut self, st: &mut St, v: u32, d: [u64; 4]) {
        Self::snapshot(st);
        if st.doms.len() <= v as usize { st.doms.resize(v as usize + 1, None); }
        st.doms[v as usize] = Some(d);
        if v < 128 && d_count(&d) == 1 { st.single |= 1 << v; }
        if let Some(m) = st.model.clone() {
            let cur = m.get(&v).copied().unwrap_or(0) as u32;
            if !d_has(&d, cur) || !m.contains_key(&v) {
                let bit = 1u128 << (v % 128);
                let mut used = false;
                for c in st.cons.clone() { if self.mask_of(c) & bit != 0 { used = true; break; } }
                if used && m.contains_key(&v) { st.model = None; } else { let mut n = (*m).clone(); n.insert(v, d_min(&d) as u128); st.model = Some(Rc::new(n)); }
            }
        }
    }
    /// add a constraint known (or assumed) to be satisfiable
    fn push(&mut self, st: &mut St, c: T) -> bool {
        match self.ar.k(c) { Some(0) => return false, Some(_) => return true, None => {} }
        if let Some(v) = self.single_byte(c) {
            let tt = self.ar.truth(c, v);
            let d = self.dom(st, v);
            let n = d_and(&d, &tt);
            if d_empty(&n) { return false; }
            if n != d { self.set_dom(st, v, n); }
            return true;
        }
        if self.ar.op(c) == term::Op::And { let (a, b) = (self.ar.arg(c, 0), self.ar.arg(c, 1)); return self.push(st, a) && self.push(st, b); }
        if self.ar.op(c) == term::Op::Not {
            let x = self.ar.arg(c, 0);
            if self.ar.op(x) == term::Op::Or { let (a, b) = (self.ar.arg(x, 0), self.ar.arg(x, 1)); let a = self.ar.not(a); let b = self.ar.not(b); return self.push(st, a) && self.push(st, b); }
        }
        if !st.cons.contains(&c) {
            Self::snapshot(st);
            st.cons.push(c);
            // what a finite result says about its operands
            if let Some(x) = self.ar.finite_of(c) {
                let n = self.ar.nodes[x as usize].clone();
                match n.op {
                    term::Op::FAdd | term::Op::FMul => { for a in n.args { let f = self.ar.ffinite(a); if !self.push(st, f) { return false; } } }
                    term::Op::FDiv => { let f = self.ar.ffinite(n.args[0]); let z = self.ar.fzero(n.args[1]); let z = self.ar.not(z); let a = self.ar.fnan(n.args[1]); let a = self.ar.not(a); if !self.push(st, f) || !self.push(st, z) || !self.push(st, a) { return false; } }
                    _ => {}
                }
            }
        }
        true
    }
    fn slice(&mut self, st: &St, seed: &[T]) -> (Vec<T>, Vec<(u32, [u64; 4])>) {
        let mut m = 0u128;
        for c in seed { m |= self.mask_of(*c); }
        let mut used = vec![false; st.cons.len()];
        let mut out: Vec<T> = seed.to_vec();
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                if used[i] { continue; }
                let cm = self.mask_of(*c);
                if cm & m != 0 { used[i] = true; m |= cm; out.push(*c); ch = true; }
            }
            if !ch { break; }
        }
        out.sort(); out.dedup();
        let mut vs: Vec<u32> = vec![];
        for c in &out { vs.extend_from_slice(self.ar.varset(*c)); }
        vs.sort(); vs.dedup();
        let doms = vs.iter().filter(|v| self.ar.var_kind[**v as usize].0 == VKind::Byte).map(|v| (*v, self.dom(st, *v))).collect();
        (out, doms)
    }
    /// satisfiability of the path with an extra constraint, on the part of the path it depends on
    fn sat(&mut self, st: &St, extra: &[T]) -> (Res, Option<Rc<Model>>) {
        let key = self.slice(st, extra);
        if let Some(r) = self.qcache.get(&key) { self.cached += 1; return r.clone(); }
        let mut vs: Vec<u32> = vec![];
        for c in &key.0 { vs.extend_from_slice(self.ar.varset(*c)); }
        vs.sort(); vs.dedup();
        let (r, m) = self.z.check(&self.ar, &key.0, &key.1, false, Some(&vs));
        let r = (r, m.map(Rc::new));
        if self.qcache.len() > 400_000 { self.qcache.clear(); }
        self.qcache.insert(key, r.clone());
        r
    }
    fn holds(&self, st: &St, m: &Model, extra: &[T]) -> bool {
        let mut memo = HashMap::new();
        for (i, d) in st.doms.iter().enumerate() { if let Some(d) = d { if !d_has(d, m.get(&(i as u32)).copied().unwrap_or(0) as u32) { return false; } } }
        st.cons.iter().chain(extra).all(|c| self.ar.eval(*c, m, &mut memo) != 0)
    }
    fn base_model(&self, st: &St) -> Model {
        let mut m = Model::new();
        for (i, d) in st.doms.iter().enumerate() { if let Some(d) = d { m.insert(i as u32, d_min(d) as u128); } }
        m
    }
    fn rebuild_model(&mut self, st: &mut St) {
        if st.model.is_some() || st.maybe_spurious { return; }
        let mut m = self.base_model(st);
        if !st.cons.is_empty() {
            let cons = st.cons.clone();
            let (r, mm) = self.sat(st, &cons);
            match (r, mm) { (Res::Sat, Some(mm)) => { for (k, v) in mm.iter() { m.insert(*k, *v); } } _ => return }
        }
        if self.holds(st, &m, &[]) { st.model = Some(Rc::new(m)); } else { st.maybe_spurious = true; }
    }
    /// Which outcomes of c are possible? Forks when both are.
    fn decide(&mut self, st: &mut St, c: T) -> X<bool> {
        if let Some(k) = self.ar.k(c) { return Ok(k != 0); }
        let nc = self.ar.not(c);
        if let Some(r) = st.replay.pop_front() {
            let Tr::B(b) = r else { return Err(Stop::Unsup("trail mismatch".into())) };
            let x = if b { c } else { nc };
            if !self.push(st, x) { return Err(Stop::Kill); }
            st.trail.push(r);
            return Ok(b);
        }
        let (tf, ff, fm);
        if let Some(v) = self.single_byte(c) {
            self.domain += 1;
            let tt = self.ar.truth(c, v);
            let d = self.dom(st, v);
            let mut t = !d_empty(&d_and(&d, &tt));
            let mut f = !d_empty(&d_and(&d, &d_not(&tt)));
            if t && f && !st.cons.is_empty() {
                // the variable may be tied to others
                let bit = 1u128 << (v % 128);
                let mut tied = false;
                for k in st.cons.clone() { if self.mask_of(k) & bit != 0 { tied = true; break; } }
                if tied {
                    t = self.sat(st, &[c]).0 != Res::Unsat;
                    f = !t || self.sat(st, &[nc]).0 != Res::Unsat;
                }
            }
            tf = t; ff = f; fm = None;
        } else if st.cons.contains(&c) { tf = true; ff = false; fm = None; }
        else if st.cons.contains(&nc) { tf = false; ff = true; fm = None; }
        else if let Some(b) = self.by_range(st, c) { self.domain += 1; tf = b; ff = !b; fm = None; }
        else {
            self.rebuild_model(st);
            if let Some(m) = st.model.clone() {
                let b = self.ar.eval(c, &m, &mut HashMap::new()) != 0;
                let (r, mm) = self.sat(st, &[if b { nc } else { c }]);
                let other = r != Res::Unsat;
                let om = if other { mm.map(|x| { let mut n = (*m).clone(); for (k, v) in x.iter() { n.insert(*k, *v); } n }) } else { None };
                if b { tf = true; ff = other; fm = om.map(|m| (false, m)); } else { tf = other; ff = true; fm = om.map(|m| (true, m)); }
            } else {
                tf = self.sat(st, &[c]).0 != Res::Unsat;
                ff = !tf || self.sat(st, &[nc]).0 != Res::Unsat;
                fm = None;
            }
        }
        let take = tf;
        if tf && ff {
            self.js[st.job].forks += 1;
            let mut o = Self::fork(st, Tr::B(false));
            if let Some((side, m)) = &fm {
                if !*side { o.model = None; if self.holds(&o, m, &[nc]) { o.model = Some(Rc::new(m.clone())); } }
                else { /* model of the original violates c: it fits the other state */ }
            }
            // a model that does not fit a state is dropped by push below / here
            if let Some(m) = &o.model { if self.ar.eval(nc, m, &mut HashMap::new()) == 0 { o.model = None; } }
            self.pend.push(o);
        }
        let x = if take { c } else { nc };
        if let Some(m) = st.model.clone() {
            if self.ar.eval(x, &m, &mut HashMap::new()) == 0 {
                st.model = None;
                if let Some((true, m2)) = fm { if take && self.holds(st, &m2, &[c]) { st.model = Some(Rc::new(m2)); } }
            }
        }
        if !self.push(st, x) { return Err(Stop::Kill); }
        st.trail.push(Tr::B(take));
        Ok(take)
    }
    fn force(&mut self, st: &mut St, v: &Val, w: u32) -> X<u128> {
        let t = match v { Val::C(k) => return Ok(*k), Val::S(t) => *t, _ => return Err(Stop::Unsup("aggregate address".into())) };
        let _ = w;
        // an integer converted to a float: choose the integer
        if matches!(self.ar.op(t), term::Op::UiToF | term::Op::SiToF) {
            let signed = self.ar.op(t) == term::Op::SiToF;
            let x = self.ar.arg(t, 0);
            let xw = self.ar.w(x);
            let k = self.force(st, &Val::S(x), xw)?;
            return Ok((if signed { term::sx(k, xw) as f64 } else { k as f64 }).to_bits() as u128);
        }
        // arithmetic on floats built from bytes: choose the bytes
        if self.ar.has_float[t as usize] {
            let vs: Vec<u32> = self.ar.varset(t).to_vec();
            if vs.iter().all(|v| self.ar.var_kind[*v as usize].0 == VKind::Byte) {
                let mut m = Model::new();
                for v in vs { let b = self.ar.var_term(v); let k = self.force(st, &Val::S(b), 8)?; m.insert(v, k); }
                return Ok(self.ar.eval(t, &m, &mut HashMap::new()));
            }
        }
        for _ in 0..2000 {
            let k = if let Some(bv) = self.single_byte(t) {
                let d = self.dom(st, bv);
                let mut m = Model::new(); m.insert(bv, d_min(&d) as u128);
                self.ar.eval(t, &m, &mut HashMap::new())
            } else if let Some(Tr::V(k)) = st.replay.front().copied() { st.replay.pop_front(); st.trail.push(Tr::V(k)); k }
            else {
                self.rebuild_model(st);
                let k = if let Some(m) = &st.model { self.ar.eval(t, m, &mut HashMap::new()) }
                else {
                    let z = self.ar.c(0, self.ar.w(t));
                    let e = self.ar.eq(t, z); let ne = self.ar.not(e); let any = self.ar.mk_or_raw(e, ne);
                    match self.sat(st, &[any]) { (Res::Sat, Some(m)) => self.ar.eval(t, &m, &mut HashMap::new()), (Res::Unsat, _) => return Err(Stop::Kill), _ => return Err(Stop::Unsup("no value for symbolic address".into())) }
                };
                st.trail.push(Tr::V(k));
                k
            };
            let w = self.ar.w(t);
            let kc = self.ar.c(k, w);
            let e = self.ar.eq(t, kc);
            if self.decide(st, e)? { return Ok(k); }
        }
        if std::env::var("SYMX_DEBUG").is_ok() { eprintln!("too many values: {} in {}", self.ar.show(t, 12), self.where_(st)); }
        Err(Stop::Unsup("too many values for one address or size".into()))
    }

    /// a float made of a few written digits: choose them (its functions are then computed, not reasoned about)
    fn choose(&mut self, st: &mut St, v: &Val, with: &Val) -> X<Val> {
        let Val::S(t0) = v else { return Ok(v.clone()) };
        let mut n = 1u64;
        for x in [v, with] {
            let Val::S(t) = x else { continue };
            for v in self.ar.varset(*t) {
                if self.ar.var_kind[*v as usize].0 != VKind::Byte { return Ok(Val::S(*t0)); }
                n = n.saturating_mul(d_count(&self.dom(st, *v)) as u64);
            }
        }
        if n > 36 { return Ok(Val::S(*t0)); }
        Ok(Val::C(self.force(st, &Val::S(*t0), 64)?))
    }

    // -------------------------------------------------------------- memory
    fn split(a: u64) -> (u64, u64, i64) { (a >> KIND_SHIFT, (a >> IDX_SHIFT) & ((1 << (KIND_SHIFT - IDX_SHIFT)) - 1), (a & ((1 << IDX_SHIFT) - 1)) as i64 - OFF_BASE as i64) }
    fn where_(&self, st: &St) -> String {
        let mut v = vec![demangle(&self.p.m.funcs[st.cur.f as usize].name)];
        for f in st.stack.iter().rev().take(7) { v.push(demangle(&self.p.m.funcs[f.f as usize].name)); }
        v.join(" < ")
    }
    fn ub<A>(&self, st: &St, msg: String) -> X<A> { Err(Stop::Event("memory".into(), format!("{msg} in {}", self.where_(st)))) }
    fn read_obj<'a>(&'a self, st: &'a St, a: u64, n: u64, what: &str) -> X<(ObjRef<'a>, usize)> {
        let (k, i, o) = Self::split(a);
        let (size, r) = match k {
            K_GLOBAL if (i as usize) < self.p.m.globals.len() => match st.glob.get(&(i as u32)) { Some(g) => (g.b.len() as u64, ObjRef::O(g)), None => { let g = &self.p.m.globals[i as usize]; (g.size, ObjRef::G(&g.init)) } },
            K_HEAP if (i as usize) < st.heap.len() => match &st.heap[i as usize] { Some(o) => (o.b.len() as u64, ObjRef::O(o)), None => return self.ub(st, format!("{what}: use after free")) },
            K_STACK if (i as usize) < st.sobjs.len() => (st.sobjs[i as usize].b.len() as u64, ObjRef::O(&st.sobjs[i as usize])),
            K_STACK => return self.ub(st, format!("{what}: use of a dead stack slot")),
            _ => return self.ub(st, format!("{what}: invalid pointer {a:#x}")),
        };
        if o < 0 || o as u64 + n > size { return self.ub(st, format!("{what}: {n} bytes at offset {o} of an object of {size} bytes")); }
        Ok((r, o as usize))
    }
    fn write_obj<'a>(&self, st: &'a mut St, a: u64, n: u64, what: &str) -> X<(&'a mut Obj, usize)> {
        let (k, i, o) = Self::split(a);
        { let _ = self.read_obj(st, a, n, what)?; }
        if st.frozen > 0 && n > 0 { self.shared_write(st, k, i, what)?; }
        let r = match k {
            K_GLOBAL => {
                let g = &self.p.m.globals[i as usize];
                if g.constant { return self.ub(st, format!("{what}: write to constant {}", g.name)); }
                let e = st.glob.entry(i as u32).or_insert_with(|| Rc::new(Obj { b: g.init.clone(), s: None, align: g.align }));
                Rc::make_mut(e)
            }
            K_HEAP => Rc::make_mut(st.heap[i as usize].as_mut().unwrap()),
            _ => Rc::make_mut(&mut st.sobjs[i as usize]),
        };
        Ok((r, o as usize))
    }
    fn shared_write(&self, st: &St, k: u64, i: u64, what: &str) -> X<()> {
        let shared = match k { K_GLOBAL => !self.p.m.globals[i as usize].tls, K_HEAP => i < st.frozen as u64, _ => false };
        if !shared || st.atomic { return Ok(()); }
        if st.locked { return Err(Stop::Unsup("write to shared memory after an atomic operation (possibly under a lock)".into())); }
        Err(Stop::Event("race".into(), format!("{what}: write to memory shared between threads in {}", self.where_(st))))
    }
    /// Before an atomic operation on shared memory: maybe the other thread runs now.
    fn interrupt(&mut self, st: &mut St, p: &Val) -> X<bool> {
        if let Some(w) = &st.within {
            if st.stack.len() > w.0 { return Ok(false); }
            // back in the first thread
            let w = st.within.take().unwrap();
            let tls: Vec<u32> = st.glob.keys().copied().filter(|g| self.p.m.globals[*g as usize].tls).collect();
            for g in tls { st.glob.remove(&g); }
            for (g, o) in &w.1 { st.glob.insert(*g, o.clone()); }
            st.locked = false;
            return Ok(false);
        }
        if st.frozen == 0 || st.other.is_none() || st.locked { return Ok(false); }
        let a = self.force(st, p, 64)? as u64;
        let (k, i, _) = Self::split(a);
        if !match k { K_GLOBAL => !self.p.m.globals[i as usize].tls, K_HEAP => i < st.frozen as u64, _ => false } { return Ok(false); }
        let now = match st.replay.pop_front() {
            Some(Tr::B(b)) => { st.trail.push(Tr::B(b)); b }
            Some(_) => return Err(Stop::Unsup("trail mismatch".into())),
            None => {
                let o = Self::fork(st, Tr::B(true));
                self.js[st.job].forks += 1;
                self.pend.push(o);
                st.trail.push(Tr::B(false));
                false
            }
        };
        if !now { return Ok(false); }
        let (f, d) = st.other.take().unwrap();
        let tls: Vec<u32> = st.glob.keys().copied().filter(|g| self.p.m.globals[*g as usize].tls).collect();
        let own: Vec<(u32, Rc<Obj>)> = tls.into_iter().map(|g| (g, st.glob.remove(&g).unwrap())).collect();
        st.within = Some(Rc::new((st.stack.len(), own)));
        self.enter(st, f, vec![d], None, None, true)?;
        Ok(true)
    }
    fn load_scalar(&mut self, st: &St, a: u64, w: u32) -> X<Val> {
        let n = ((w + 7) / 8) as u64;
        let (o, off) = self.read_obj(st, a, n, "load")?;
        let n = n as usize;
        let (bytes, syms) = match &o { ObjRef::G(b) => (&b[off..off + n], None), ObjRef::O(o) => (&o.b[off..off + n], if o.is_sym(off, n) { Some(o.s.as_ref().unwrap()[off..off + n].to_vec()) } else { None }) };
        let mut k = 0u128;
        for (i, b) in bytes.iter().enumerate() { k |= (*b as u128) << (8 * i); }
        let Some(s) = syms else { return Ok(Val::C(mask(k, w))) };
        let t0 = s[0].0;
        if t0 != NOSYM && self.ar.w(t0) as usize == 8 * n && s.iter().enumerate().all(|(i, x)| x.0 == t0 && x.1 as usize == i) {
            let r = if w % 8 == 0 { t0 } else { self.ar.extract(t0, w - 1, 0) };
            return Ok(self.v(r));
        }
        let bs: Vec<u8> = bytes.to_vec();
        let mut acc: Option<T> = None;
        for i in (0..n).rev() {
            let b = if s[i].0 == NOSYM { self.ar.c(bs[i] as u128, 8) } else { let l = s[i].1 as u32 * 8; self.ar.extract(s[i].0, l + 7, l) };
            acc = Some(match acc { None => b, Some(h) => self.ar.concat(h, b) });
        }
        let r = acc.unwrap();
        let r = if w % 8 == 0 { r } else { self.ar.extract(r, w - 1, 0) };
        Ok(self.v(r))
    }
    fn load(&mut self, st: &mut St, ty: &Ty, p: &Val) -> X<Val> {
        if let (Val::S(t), false) = (p, ty.is_agg()) { if let Some(r) = self.table_load(st, *t, ty)? { return Ok(r); } }
        let a = self.force(st, p, 64)? as u64;
        self.load_at(st, ty, a)
    }
    fn load_at(&mut self, st: &St, ty: &Ty, a: u64) -> X<Val> {
        if ty.is_agg() {
            let n = ty.nfields();
            if let Ty::Vec(_, e) = ty { if let Ty::Int(b) = **e { if b % 8 != 0 { return Err(Stop::Unsup("load of a packed vector".into())); } } }
            let mut v = Vec::with_capacity(n);
            for i in 0..n { let f = ty.field(i).clone(); v.push(self.load_at(st, &f, a.wrapping_add(ty.field_off(i)))?); }
            return Ok(Val::Agg(Arc::new(v)));
        }
        self.load_scalar(st, a, ty.bits())
    }
    fn big_table(&self, st: &St, t: T) -> bool {
        let n = &self.ar.nodes[t as usize];
        if n.op != term::Op::Add { return false; }
        let Some(base) = self.ar.k(n.args[1]) else { return false };
        match self.read_obj(st, base as u64, 0, "load") { Ok((ObjRef::G(b), _)) => b.len() > 8192, _ => false }
    }
    /// a load through a symbolic address inside one concrete object becomes a lookup table
    fn table_load(&mut self, st: &mut St, t: T, ty: &Ty) -> X<Option<Val>> {
        let w = ty.bits();
        if w % 8 != 0 { return Ok(None); }
        // a number out of several input bytes chooses a wide entry (a power of ten): one path for each value of the bytes
        if w == 64 && !self.ar.has_float[t as usize] {
            let vs = self.ar.varset(t).to_vec();
            if (vs.len() > 1 || vs.len() == 1 && self.big_table(st, t)) && vs.iter().all(|v| self.ar.var_kind[*v as usize].0 == VKind::Byte) {
                let mut m = Model::new();
                for v in vs { let b = self.ar.var_term(v); let k = self.force(st, &Val::S(b), 8)?; m.insert(v, k); }
                let a = self.ar.eval(t, &m, &mut HashMap::new()) as u64;
                return Ok(Some(self.load_at(st, ty, a)?));
            }
        }
        if let Some(bv) = self.single_byte(t) {
            let d = self.dom(st, bv);
            let mut vals = vec![];
            let mut last = 0;
            for v in 0..256u32 {
                if !d_has(&d, v) { vals.push(last); continue; }
                let mut m = Model::new(); m.insert(bv, v as u128);
                let a = self.ar.eval(t, &m, &mut HashMap::new()) as u64;
                match self.load_scalar(st, a, w) { Ok(Val::C(k)) => { if vals.is_empty() || last == 0 { } last = k; vals.push(k); } _ => return Ok(None) }
            }
            let ix = self.ar.var_term(bv);
            let r = self.ar.table(w, vals, ix);
            return Ok(Some(self.v(r)));
        }
        // base + index*stride
        let n = self.ar.nodes[t as usize].clone();
        if n.op != term::Op::Add { return Ok(None); }
        let Some(base) = self.ar.k(n.args[1]) else { return Ok(None) };
        let o = Self::split(base as u64).2;
        let size = match self.read_obj(st, base as u64, 0, "load") { Ok((ObjRef::G(b), _)) => b.len() as u64, Ok((ObjRef::O(o), _)) => o.b.len() as u64, Err(_) => return Ok(None) };
        let x = n.args[0];
        let stride = (w / 8) as u64;
        let sh = stride.trailing_zeros();
        // low bits must be known zero
        if sh > 0 { let lo = self.ar.extract(x, sh - 1, 0); if self.ar.k(lo) != Some(0) { let sz = self.ar.nodes[x as usize].clone(); if !(sz.op == term::Op::Mul && self.ar.k(sz.args[1]).map_or(false, |m| m % stride as u128 == 0)) { return Ok(None); } } }
        let cnt = (size - o as u64) / stride;
        if cnt == 0 || cnt > 4096 { return Ok(None); }
        let lim = self.ar.c((cnt * stride) as u128, 64);
        let inb = self.ar.ult(x, lim);
        if !self.decide(st, inb)? { return Ok(None); }
        let mut vals = vec![];
        for j in 0..cnt { match self.load_scalar(st, base as u64 + j * stride, w)? { Val::C(k) => vals.push(k), _ => return Ok(None) } }
        let ix = if self.ar.op(x) == term::Op::Mul && self.ar.k(self.ar.arg(x, 1)) == Some(stride as u128) { self.ar.arg(x, 0) } else { self.ar.extract(x, 63, sh) };
        // narrow the index so that tables stay small
        let r = self.ar.table(w, vals, ix);
        Ok(Some(self.v(r)))
    }
    fn store(&mut self, st: &mut St, ty: &Ty, v: &Val, a: u64) -> X<()> {
        if let Val::Agg(vs) = v {
            let vs = vs.clone();
            if let Ty::Vec(_, e) = ty { if let Ty::Int(b) = **e { if b % 8 != 0 { return Err(Stop::Unsup("store of a packed vector".into())); } } }
            for (i, x) in vs.iter().enumerate() { let f = ty.field(i).clone(); self.store(st, &f, x, a.wrapping_add(ty.field_off(i)))?; }
            return Ok(());
        }
        let w = ty.bits();
        let n = ((w + 7) / 8) as u64;
        match v {
            Val::C(k) => { let k = *k; let (o, off) = self.write_obj(st, a, n, "store")?; o.put_c(off, k, n as usize); }
            Val::S(t) => { let t = if w % 8 != 0 { self.ar.zext(*t, n as u32 * 8) } else { *t }; let (o, off) = self.write_obj(st, a, n, "store")?; o.put_s(off, t, n as usize); }
            _ => unreachable!(),
        }
        Ok(())
    }
    fn byte_at(&mut self, st: &St, a: u64) -> X<Val> { self.load_scalar(st, a, 8) }
    fn memcpy(&mut self, st: &mut St, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 { return Ok(()); }
        let (b, sy) = { let (o, off) = self.read_obj(st, s, n, "memcpy source")?; match &o { ObjRef::G(b) => (b[off..off + n as usize].to_vec(), None), ObjRef::O(o) => (o.b[off..off + n as usize].to_vec(), if o.is_sym(off, n as usize) { Some(o.s.as_ref().unwrap()[off..off + n as usize].to_vec()) } else { None }) } };
        let (o, off) = self.write_obj(st, d, n, "memcpy destination")?;
        o.b[off..off + n as usize].copy_from_slice(&b);
        match sy {
            Some(sy) => { let len = o.b.len(); let s = o.s.get_or_insert_with(|| vec![(NOSYM, 0); len]); s[off..off + n as usize].copy_from_slice(&sy); }
            None => if let Some(s) = &mut o.s { for x in &mut s[off..off + n as usize] { x.0 = NOSYM; } }
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut St, size: u64, align: u64, fill: u8) -> X<u64> {
        if size > 4 << 20 { return Err(Stop::Unsup(format!("allocation of {size} bytes"))); }
        if st.heap.len() >= (1 << 20) - 1 { return Err(Stop::Unsup("too many allocations".into())); }
        st.heap.push(Some(Rc::new(Obj::new(size, align, fill))));
        Ok(addr(K_HEAP, st.heap.len() as u64 - 1, 0))
    }
    fn dealloc(&mut self, st: &mut St, a: u64, size: u64, align: u64) -> X<()> {
        let (k, i, o) = Self::split(a);
        if k != K_HEAP || i as usize >= st.heap.len() || o != 0 { return self.ub(st, format!("free of invalid pointer {a:#x}")); }
        match &st.heap[i as usize] {
            None => return self.ub(st, "double free".into()),
            Some(ob) => { if ob.b.len() as u64 != size || ob.align != align { return self.ub(st, format!("free with layout {size}/{align} of an allocation {}/{}", ob.b.len(), ob.align)); } }
        }
        if st.frozen > 0 { self.shared_write(st, K_HEAP, i, "free")?; }
        st.heap[i as usize] = None;
        Ok(())
    }

    // -------------------------------------------------------------- scalar operations
    fn bin(&mut self, st: &mut St, op: BinOp, w: u32, a: &Val, b: &Val) -> X<Val> {
        use term::Op as O;
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if y == 0 { return self.ub(st, "division by zero".into()); }
                    term::ev_bin(match op { BinOp::UDiv => O::UDiv, BinOp::URem => O::URem, BinOp::SDiv => O::SDiv, _ => O::SRem }, x, y, w)
                }
                BinOp::Shl => term::ev_bin(O::Shl, x, y, w), BinOp::LShr => term::ev_bin(O::LShr, x, y, w), BinOp::AShr => term::ev_bin(O::AShr, x, y, w),
            };
            return Ok(Val::C(mask(r, w)));
        }
        let (x, y) = (self.t(a, w), self.t(b, w));
        let r = match op {
            BinOp::Add => self.ar.add(x, y), BinOp::Sub => self.ar.sub(x, y), BinOp::Mul => self.ar.mul(x, y),
            BinOp::And => self.ar.and(x, y), BinOp::Or => self.ar.or(x, y), BinOp::Xor => self.ar.xor(x, y),
            BinOp::Shl => self.ar.bin2(O::Shl, x, y), BinOp::LShr => self.ar.bin2(O::LShr, x, y), BinOp::AShr => self.ar.bin2(O::AShr, x, y),
            _ => {
                let z = self.ar.c(0, w);
                let e = self.ar.eq(y, z);
                if self.decide(st, e)? { return self.ub(st, "division by zero".into()); }
                self.ar.bin2(match op { BinOp::UDiv => O::UDiv, BinOp::URem => O::URem, BinOp::SDiv => O::SDiv, _ => O::SRem }, x, y)
            }
        };
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (term::sx(x, w), term::sx(y, w));
            return Val::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy } as u128);
        }
        let (x, y) = (self.t(a, w), self.t(b, w));
        let r = match p {
            Pred::Eq => self.ar.eq(x, y), Pred::Ne => { let e = self.ar.eq(x, y); self.ar.not(e) }
            Pred::Ult => self.ar.ult(x, y), Pred::Ule => self.ar.ule(x, y), Pred::Ugt => self.ar.ult(y, x), Pred::Uge => self.ar.ule(y, x),
            Pred::Slt => self.ar.slt(x, y), Pred::Sle => self.ar.sle(x, y), Pred::Sgt => self.ar.slt(y, x), Pred::Sge => self.ar.sle(y, x),
        };
        self.v(r)
    }
    fn fcmp(&mut self, p: FPred, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = match ty { Ty::F64 => (term::f(*x), term::f(*y)), Ty::F32 => (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64), _ => return Err(Stop::Unsup("fcmp type".into())) };
            let un = x.is_nan() || y.is_nan();
            return Ok(Val::C(match p {
                FPred::False => false, FPred::True => true, FPred::Oeq => x == y, FPred::Ogt => x > y, FPred::Oge => x >= y, FPred::Olt => x < y, FPred::Ole => x <= y, FPred::One => !un && x != y, FPred::Ord => !un,
                FPred::Ueq => un || x == y, FPred::Ugt => un || x > y, FPred::Uge => un || x >= y, FPred::Ult => un || x < y, FPred::Ule => un || x <= y, FPred::Une => x != y, FPred::Uno => un } as u128));
        }
        if *ty == Ty::F32 {
            let (x, y) = (self.t(a, 32), self.t(b, 32));
            let (x, y) = (self.ar.fext(x), self.ar.fext(y));
            let (x, y) = (self.v(x), self.v(y));
            return self.fcmp(p, &Ty::F64, &x, &y);
        }
        if *ty != Ty::F64 { return Err(Stop::Unsup("fcmp type".into())); }
        let (x, y) = (self.t(a, 64), self.t(b, 64));
        let a = &mut self.ar;
        let r = match p {
            FPred::False => a.fls(), FPred::True => a.tru(),
            FPred::Oeq => a.feq(x, y), FPred::Ogt => a.flt(y, x), FPred::Oge => a.fle(y, x), FPred::Olt => a.flt(x, y), FPred::Ole => a.fle(x, y),
            FPred::Une => { let e = a.feq(x, y); a.not(e) }
            FPred::Ugt => { let e = a.fle(x, y); a.not(e) } FPred::Uge => { let e = a.flt(x, y); a.not(e) } FPred::Ult => { let e = a.fle(y, x); a.not(e) } FPred::Ule => { let e = a.flt(y, x); a.not(e) }
            FPred::Uno | FPred::Ord => { let n = a.fnan(x); let m = a.fnan(y); let u = a.or(n, m); if p == FPred::Uno { u } else { a.not(u) } }
            FPred::One => { let l = a.flt(x, y); let g = a.flt(y, x); a.or(l, g) }
            FPred::Ueq => { let l = a.flt(x, y); let g = a.flt(y, x); let o = a.or(l, g); a.not(o) }
        };
        Ok(self.v(r))
    }
    fn fbin(&mut self, op: FOp, ty: &Ty, a: &Val, b: &Val) -> X<Val> {
        if *ty == Ty::F32 {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                let r = match op { FOp::Add => x + y, FOp::Sub => x - y, FOp::Mul => x * y, FOp::Div => x / y, FOp::Rem => x % y };
                return Ok(Val::C(r.to_bits() as u128));
            }
            // rounding twice is innocuous: 53 >= 2 * 24 + 2
            let (x, y) = (self.t(a, 32), self.t(b, 32));
            let (x, y) = (self.ar.fext(x), self.ar.fext(y));
            let (x, y) = (self.v(x), self.v(y));
            let r = self.fbin(op, &Ty::F64, &x, &y)?;
            let r = self.t(&r, 64);
            let r = self.ar.ftrunc(r);
            return Ok(self.v(r));
        }
        if *ty != Ty::F64 { return Err(Stop::Unsup("float type".into())); }
        let (x, y) = (self.t(a, 64), self.t(b, 64));
        let r = match op { FOp::Add => self.ar.fadd(x, y), FOp::Sub => self.ar.fsub(x, y), FOp::Mul => self.ar.fmul(x, y), FOp::Div => self.ar.fdiv(x, y), FOp::Rem => self.ar.frem(x, y) };
        Ok(self.v(r))
    }
    /// packed integer view of a vector or scalar
    fn pack(&mut self, ty: &Ty, v: &Val) -> (T, u32) {
        match (ty, v) {
            (Ty::Vec(_, e), Val::Agg(vs)) => {
                let w = e.bits();
                let mut acc: Option<T> = None;
                for x in vs.iter().rev() { let t = self.t(x, w); acc = Some(match acc { None => t, Some(h) => self.ar.concat(h, t) }); }
                (acc.unwrap(), w * vs.len() as u32)
            }
            _ => { let w = ty.bits(); (self.t(v, w), w) }
        }
    }
    fn unpack(&mut self, ty: &Ty, t: T) -> Val {
        match ty {
            Ty::Vec(n, e) => { let w = e.bits(); let v = (0..*n as u32).map(|i| { let x = self.ar.extract(t, (i + 1) * w - 1, i * w); self.v(x) }).collect(); Val::Agg(Arc::new(v)) }
            _ => self.v(t),
        }
    }
    fn cast(&mut self, st: &mut St, op: CastOp, from: &Ty, to: &Ty, a: &Val) -> X<Val> {
        if op == CastOp::Bitcast {
            if !from.is_agg() && !to.is_agg() { return Ok(a.clone()); }
            if let (Ty::Vec(_, e), Val::Agg(vs)) = (from, a) {
                let w = e.bits();
                if w * vs.len() as u32 <= 128 && vs.iter().all(|v| matches!(v, Val::C(_))) && !to.is_agg() {
                    let mut k = 0u128;
                    for (i, v) in vs.iter().enumerate() { if let Val::C(x) = v { k |= mask(*x, w) << (i as u32 * w); } }
                    return Ok(Val::C(k));
                }
            }
            let (t, w) = self.pack(from, a);
            if w > 128 { return Err(Stop::Unsup("wide bitcast".into())); }
            return Ok(self.unpack(to, t));
        }
        if let (Val::Agg(vs), Ty::Vec(_, fe), Ty::Vec(_, te)) = (a, from, to) {
            let mut o = vec![];
            for x in vs.iter() { o.push(self.cast(st, op, fe, te, x)?); }
            return Ok(Val::Agg(Arc::new(o)));
        }
        let (fw, tw) = (from.bits(), to.bits());
        Ok(match (op, a) {
            (CastOp::Trunc, Val::C(k)) => Val::C(mask(*k, tw)),
            (CastOp::ZExt, Val::C(k)) => Val::C(*k),
            (CastOp::SExt, Val::C(k)) => Val::C(mask(term::sx(*k, fw) as u128, tw)),
            (CastOp::Trunc, Val::S(t)) => { let r = self.ar.extract(*t, tw - 1, 0); self.v(r) }
            (CastOp::ZExt, Val::S(t)) => { let r = self.ar.zext(*t, tw); self.v(r) }
            (CastOp::SExt, Val::S(t)) => { let r = self.ar.sext(*t, tw); self.v(r) }
            (CastOp::PtrInt, v) => { let t = self.t(v, fw); let r = if tw < fw { self.ar.extract(t, tw - 1, 0) } else { self.ar.zext(t, tw) }; self.v(r) }
            (CastOp::UiToFp, v) if *to == Ty::F64 => { let t = self.t(v, fw); let r = self.ar.uitof(t); self.v(r) }
            (CastOp::SiToFp, v) if *to == Ty::F64 => { let t = self.t(v, fw); let r = self.ar.sitof(t); self.v(r) }
            (CastOp::UiToFp, Val::C(k)) if *to == Ty::F32 => Val::C((*k as f32).to_bits() as u128),
            (CastOp::SiToFp, Val::C(k)) if *to == Ty::F32 => Val::C((term::sx(*k, fw) as f32).to_bits() as u128),
            (CastOp::UiToFp | CastOp::SiToFp, v) if *to == Ty::F32 && { let t = self.t(v, fw); self.ar.ubits(t) <= 53 && self.ar.ubits(t) < fw } => { let t = self.t(v, fw); let r = self.ar.uitof(t); let r = self.ar.ftrunc(r); self.v(r) }
            (CastOp::SiToFp, v) if *to == Ty::F32 && fw <= 53 => { let t = self.t(v, fw); let r = self.ar.sitof(t); let r = self.ar.ftrunc(r); self.v(r) }
            (CastOp::FpExt, v) if *from == Ty::F32 && *to == Ty::F64 => { let t = self.t(v, 32); let r = self.ar.fext(t); self.v(r) }
            (CastOp::FpTrunc, v) if *from == Ty::F64 && *to == Ty::F32 => { let t = self.t(v, 64); let r = self.ar.ftrunc(t); self.v(r) }
            (CastOp::FpToUi | CastOp::FpToSi, v) if *from == Ty::F32 => { let t = self.t(v, 32); let r = self.ar.fext(t); let r = self.v(r); self.cast(st, op, &Ty::F64, to, &r)? }
            (CastOp::FpExt, Val::C(k)) if *from == Ty::F32 && *to == Ty::F64 => Val::C((f32::from_bits(*k as u32) as f64).to_bits() as u128),
            (CastOp::FpTrunc, Val::C(k)) if *from == Ty::F64 && *to == Ty::F32 => Val::C((term::f(*k) as f32).to_bits() as u128),
            (CastOp::FpToUi | CastOp::FpToSi, v) if *from == Ty::F64 => {
                let signed = op == CastOp::FpToSi;
                let t = self.t(v, 64);
                let hi = self.ar.c((2f64.powi(if signed { tw as i32 - 1 } else { tw as i32 })).to_bits() as u128, 64);
                let lo = self.ar.c((if signed { -2f64.powi(tw as i32 - 1) - if tw < 53 { 1.0 } else { 0.0 } } else { -1.0 }).to_bits() as u128, 64);
                let c1 = if signed && tw >= 53 { self.ar.fle(lo, t) } else { self.ar.flt(lo, t) };
                let c2 = self.ar.flt(t, hi);
                let ok = self.ar.and(c1, c2);
                if !self.decide(st, ok)? { return self.ub(st, "unchecked float to integer conversion out of range".into()); }
                let r = if signed { self.ar.ftosi(t, tw) } else { self.ar.ftoui(t, tw) };
                self.v(r)
            }
            _ => return Err(Stop::Unsup(format!("cast {op:?} {from:?} -> {to:?}"))),
        })
    }
    fn select(&mut self, c: T, a: &Val, b: &Val) -> X<Val> {
        Ok(match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => { let (x, y) = (x.clone(), y.clone()); let mut v = vec![]; for (p, q) in x.iter().zip(y.iter()) { v.push(self.select(c, p, q)?); } Val::Agg(Arc::new(v)) }
            (Val::C(p), Val::C(q)) if p == q => a.clone(),
            (Val::S(p), _) => { let w = self.ar.w(*p); let (x, y) = (self.t(a, w), self.t(b, w)); let r = self.ar.ite(c, x, y); self.v(r) }
            (_, Val::S(q)) => { let w = self.ar.w(*q); let (x, y) = (self.t(a, w), self.t(b, w)); let r = self.ar.ite(c, x, y); self.v(r) }
            _ => return Err(Stop::Unsup("select width".into())),
        })
    }
    fn map2(&mut self, st: &mut St, ty: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, &mut St, &Ty, &Val, &Val) -> X<Val>) -> X<Val> {
        if let (Ty::Vec(_, e), Val::Agg(x), Val::Agg(y)) = (ty, a, b) {
            let mut v = Vec::with_capacity(x.len());
            for (p, q) in x.iter().zip(y.iter()) { v.push(f(self, st, e, p, q)?); }
            return Ok(Val::Agg(Arc::new(v)));
        }
        f(self, st, ty, a, b)
    }

    // -------------------------------------------------------------- control
    fn jump(&mut self, st: &mut St, to: u32) {
        let f = &self.p.m.funcs[st.cur.f as usize];
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let from = st.cur.blk;
            if b.phis.len() == 1 {
                let p = &b.phis[0];
                let v = p.inc.iter().find(|x| x.0 == from).map(|x| self.op(st, &x.1)).expect("phi");
                st.cur.regs[p.dst as usize] = v;
            } else {
                let vs: Vec<Val> = b.phis.iter().map(|p| p.inc.iter().find(|x| x.0 == from).map(|x| self.op(st, &x.1)).expect("phi")).collect();
                for (p, v) in b.phis.iter().zip(vs) { st.cur.regs[p.dst as usize] = v; }
            }
        }
        st.cur.blk = to;
        st.cur.pc = 0;
    }
    fn enter(&mut self, st: &mut St, f: u32, args: Vec<Val>, dst: Option<u32>, inv: Option<(u32, u32)>, catch: bool) -> X<()> {
        let fu = &self.p.m.funcs[f as usize];
        if st.stack.len() > 3000 { return Err(Stop::Unsup("call depth".into())); }
        self.ran[f as usize] = true;
        let mut regs = self.pool.pop().unwrap_or_default();
        regs.clear();
        let n = args.len().min(fu.nargs);
        regs.extend(args.into_iter().take(n));
        regs.resize(fu.nregs as usize, Val::C(0));
        let fr = Frame { f, blk: 0, pc: 0, regs, sbase: st.sobjs.len() as u32, dst, inv, catch };
        let old = std::mem::replace(&mut st.cur, fr);
        st.stack.push(Rc::new(old));
        Ok(())
    }
    fn leave(&mut self, st: &mut St) -> Option<(Option<u32>, Option<(u32, u32)>, bool)> {
        st.sobjs.truncate(st.cur.sbase as usize);
        let p = st.stack.pop()?;
        let fr = match Rc::try_unwrap(p) { Ok(f) => f, Err(r) => (*r).clone() };
        let old = std::mem::replace(&mut st.cur, fr);
        let r = (old.dst, old.inv, old.catch);
        if self.pool.len() < 64 { self.pool.push(old.regs); }
        Some(r)
    }
    fn ret(&mut self, st: &mut St, v: Option<Val>) -> X<()> {
        if st.stack.is_empty() { return Err(Stop::Done); }
        let (dst, inv, catch) = self.leave(st).unwrap();
        let v = if catch { Some(Val::C(0)) } else { v };
        if let (Some(d), Some(v)) = (dst, v) { st.cur.regs[d as usize] = v; }
        if let Some((n, _)) = inv { self.jump(st, n); }
        Ok(())
    }
    fn unwind(&mut self, st: &mut St) -> X<()> {
        loop {
            if st.stack.is_empty() { return Err(Stop::Event("panic".into(), "uncaught panic".into())); }
            let (dst, inv, catch) = self.leave(st).unwrap();
            if catch {
                if let Some(d) = dst { st.cur.regs[d as usize] = Val::C(1); }
                if let Some((n, _)) = inv { self.jump(st, n); }
                return Ok(());
            }
            if let Some((_, u)) = inv { self.jump(st, u); return Ok(()); }
        }
    }
    fn finish_call(&mut self, st: &mut St, ci: &CallI, v: Option<Val>) {
        if let (Some(d), Some(v)) = (ci.dst, v) { st.cur.regs[d as usize] = v; }
        match ci.inv { Some((n, _)) => self.jump(st, n), None => st.cur.pc += 1 }
    }

    fn step(&mut self, st: &mut St, ins: &Ins) -> X<()> {
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.cur.regs[*$d as usize] = v; st.cur.pc += 1; }} }
        match ins {
            Ins::Bin { dst, op, ty, a, b } => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                if let Ty::Int(w) = ty { let r = self.bin(st, *op, *w, &a, &b)?; set!(dst, r); }
                else { let op = *op; let r = self.map2(st, ty, &a, &b, &mut |e, st, t, x, y| e.bin(st, op, t.bits(), x, y))?; set!(dst, r); }
            }
            Ins::ICmp { dst, p, ty, a, b } => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let p = *p;
                let r = self.map2(st, ty, &a, &b, &mut |e, st, t, x, y| {
                    let r = e.icmp(p, t.bits(), x, y);
                    // the path may already decide a test on one input byte
                    if let Val::S(t) = r { if let Some(v) = e.single_byte(t) {
                        let tt = e.ar.truth(t, v); let d = e.dom(st, v);
                        if d_empty(&d_and(&d, &d_not(&tt))) { return Ok(Val::C(1)); }
                        if d_empty(&d_and(&d, &tt)) { return Ok(Val::C(0)); }
                    } }
                    Ok(r)
                })?;
                set!(dst, r);
            }
            Ins::FBin { dst, op, ty, a, b } => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let op = *op;
                let (a, b) = if *ty == Ty::F64 && matches!(op, FOp::Div | FOp::Rem) { let x = self.choose(st, &a, &b)?; let y = self.choose(st, &b, &x)?; (x, y) } else { (a, b) };
                let r = self.map2(st, ty, &a, &b, &mut |e, _, t, x, y| e.fbin(op, t, x, y))?;
                set!(dst, r);
            }
            Ins::FNeg { dst, ty, a } => {
                let a = self.op(st, a);
                let r = self.map2(st, ty, &a, &a.clone(), &mut |e, _, t, x, _| { let w = t.bits(); let x = e.t(x, w); let s = e.ar.c(1u128 << (w - 1), w); let r = e.ar.xor(x, s); Ok(e.v(r)) })?;
                set!(dst, r);
            }
            Ins::FCmp { dst, p, ty, a, b } => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let p = *p;
                let r = self.map2(st, ty, &a, &b, &mut |e, _, t, x, y| e.fcmp(p, t, x, y))?;
                set!(dst, r);
            }
            Ins::Cast { dst, op, from, to, a } => { let a = self.op(st, a); let r = self.cast(st, *op, from, to, &a)?; set!(dst, r); }
            Ins::Select { dst, cty, ty, c, a, b } => {
                let (c, a, b) = (self.op(st, c), self.op(st, a), self.op(st, b));
                let r = match (&c, cty) {
                    (Val::C(k), _) => if *k != 0 { a } else { b },
                    (Val::S(t), _) => {
                        match (&a, &b) {
                            (Val::C(x), Val::C(y)) => { let w = ty.bits(); let (x, y) = (self.ar.c(*x, w), self.ar.c(*y, w)); let r = self.ar.ite(*t, x, y); self.v(r) }
                            (Val::Agg(_), Val::Agg(_)) => { if self.decide(st, *t)? { a } else { b } }
                            _ => self.select(*t, &a, &b)?,
                        }
                    }
                    (Val::Agg(cs), _) => {
                        let (Val::Agg(x), Val::Agg(y)) = (&a, &b) else { return Err(Stop::Unsup("vector select".into())) };
                        let Ty::Vec(_, e) = ty else { return Err(Stop::Unsup("vector select".into())) };
                        let w = e.bits();
                        let mut v = vec![];
                        for (i, c) in cs.iter().enumerate() { let c = self.t(c, 1); let (p, q) = (self.t(&x[i], w), self.t(&y[i], w)); let r = self.ar.ite(c, p, q); v.push(self.v(r)); }
                        Val::Agg(Arc::new(v))
                    }
                };
                set!(dst, r);
            }
            Ins::Load { dst, ty, p, at } => {
                let p = self.op(st, p);
                if *at && self.interrupt(st, &p)? { return Ok(()); }
                let r = self.load(st, ty, &p)?;
                set!(dst, r);
            }
            Ins::Store { ty, v, p, at } => {
                let (v, p) = (self.op(st, v), self.op(st, p));
                if *at && self.interrupt(st, &p)? { return Ok(()); }
                let a = self.force(st, &p, 64)? as u64;
                st.atomic = *at;
                let r = self.store(st, ty, &v, a);
                st.atomic = false;
                r?;
                st.cur.pc += 1;
            }
            Ins::Gep { dst, base, off, idx } => {
                let b = self.op(st, base);
                let mut k: Option<u64> = if let Val::C(x) = b { Some((x as u64).wrapping_add(*off as u64)) } else { None };
                if let Some(mut a) = k {
                    for (o, w, s) in idx { match self.op(st, o) { Val::C(x) => a = a.wrapping_add((sext(x, *w) as u64).wrapping_mul(*s as u64)), _ => { k = None; break; } } if k.is_none() { break; } k = Some(a); }
                }
                let r = match k {
                    Some(a) => c64(a),
                    None => {
                        if matches!(b, Val::Agg(_)) { return Err(Stop::Unsup("vector gep".into())); }
                        let mut t = self.t(&b, 64);
                        let o = self.ar.c(*off as u64 as u128, 64);
                        t = self.ar.add(t, o);
                        for (o, w, s) in idx {
                            let x = self.op(st, o);
                            let x = self.t(&x, *w);
                            let x = if *w < 64 { self.ar.sext(x, 64) } else { self.ar.extract(x, 63, 0) };
                            let s = self.ar.c(*s as u64 as u128, 64);
                            let m = self.ar.mul(x, s);
                            t = self.ar.add(t, m);
                        }
                        self.v(t)
                    }
                };
                set!(dst, r);
            }
            Ins::Alloca { dst, size, align } => {
                st.sobjs.push(Rc::new(Obj::new(*size, *align, 0xA5)));
                if st.sobjs.len() >= (1 << 20) - 1 { return Err(Stop::Unsup("stack objects".into())); }
                let a = addr(K_STACK, st.sobjs.len() as u64 - 1, 0);
                set!(dst, c64(a));
            }
            Ins::Call(ci) => return self.call(st, ci),
            Ins::ExtractVal { dst, a, path } => {
                let mut v = self.op(st, a);
                for i in path { let Val::Agg(x) = &v else { return Err(Stop::Unsup("extractvalue".into())) }; let n = x[*i as usize].clone(); v = n; }
                set!(dst, v);
            }
            Ins::InsertVal { dst, aty, a, v, path } => {
                let a = self.op(st, a); let v = self.op(st, v);
                fn ins(ty: &Ty, a: &Val, v: &Val, path: &[u32]) -> Val {
                    if path.is_empty() { return v.clone(); }
                    let mut e: Vec<Val> = match a { Val::Agg(x) => (**x).clone(), _ => match undef(ty) { Val::Agg(x) => (*x).clone(), _ => vec![] } };
                    let i = path[0] as usize;
                    e[i] = ins(ty.field(i), &e[i], v, &path[1..]);
                    Val::Agg(Arc::new(e))
                }
                set!(dst, ins(aty, &a, &v, path));
            }
            Ins::ExtractElt { dst, a, i } => {
                let a = self.op(st, a); let i = self.op(st, i);
                let i = self.force(st, &i, 64)?;
                let Val::Agg(x) = &a else { return Err(Stop::Unsup("extractelement".into())) };
                if i as usize >= x.len() { return Err(Stop::Unsup("extractelement index".into())); }
                set!(dst, x[i as usize].clone());
            }
            Ins::InsertElt { dst, aty, a, v, i } => {
                let a = self.op(st, a); let v = self.op(st, v); let i = self.op(st, i);
                let i = self.force(st, &i, 64)?;
                let mut e: Vec<Val> = match &a { Val::Agg(x) => (**x).clone(), _ => match undef(aty) { Val::Agg(x) => (*x).clone(), _ => vec![] } };
                e[i as usize] = v;
                set!(dst, Val::Agg(Arc::new(e)));
            }
            Ins::Shuffle { dst, aty, a, b, mask } => {
                let a = self.op(st, a); let b = self.op(st, b);
                let (Val::Agg(x), Val::Agg(y)) = (&a, &b) else { return Err(Stop::Unsup("shuffle".into())) };
                let u = undef(aty.field(0));
                let v = mask.iter().map(|m| { let m = *m as u32 as usize; if m < x.len() { x[m].clone() } else if m < x.len() + y.len() { y[m - x.len()].clone() } else { u.clone() } }).collect();
                set!(dst, Val::Agg(Arc::new(v)));
            }
            Ins::Freeze { dst, a } => { let v = self.op(st, a); set!(dst, v); }
            Ins::LandingPad { dst } => { if *dst != u32::MAX { st.cur.regs[*dst as usize] = Val::Agg(Arc::new(vec![c64(0x1234), Val::C(1)])); } st.cur.pc += 1; }
            Ins::Rmw { dst, op, ty, p, v } => {
                let (p, v) = (self.op(st, p), self.op(st, v));
                // counting references
                let rc = matches!(op.as_str(), "add" | "sub");
                if !rc && self.interrupt(st, &p)? { return Ok(()); }
                let a = self.force(st, &p, 64)? as u64;
                let old = self.load_at(st, ty, a)?;
                let w = ty.bits();
                let n = match op.as_str() {
                    "xchg" => v, "add" => self.bin(st, BinOp::Add, w, &old, &v)?, "sub" => self.bin(st, BinOp::Sub, w, &old, &v)?, "and" => self.bin(st, BinOp::And, w, &old, &v)?, "or" => self.bin(st, BinOp::Or, w, &old, &v)?, "xor" => self.bin(st, BinOp::Xor, w, &old, &v)?,
                    _ => return Err(Stop::Unsup(format!("atomicrmw {op}"))),
                };
                st.atomic = true;
                let r = self.store(st, ty, &n, a);
                st.atomic = false;
                r?;
                if op == "xchg" && st.frozen > 0 { st.locked = true; }
                if *dst != u32::MAX { st.cur.regs[*dst as usize] = old; }
                st.cur.pc += 1;
            }
            Ins::CmpXchg { dst, ty, p, c, n } => {
                let (p, c, n) = (self.op(st, p), self.op(st, c), self.op(st, n));
                if self.interrupt(st, &p)? { return Ok(()); }
                let a = self.force(st, &p, 64)? as u64;
                let old = self.load_at(st, ty, a)?;
                let e = self.icmp(Pred::Eq, ty.bits(), &old, &c);
                let e = self.t(&e, 1);
                let b = self.decide(st, e)?;
                if b { st.atomic = true; self.store(st, ty, &n, a)?; st.atomic = false; if st.frozen > 0 { st.locked = true; } }
                set!(dst, Val::Agg(Arc::new(vec![old, Val::C(b as u128)])));
            }
            Ins::Nop => st.cur.pc += 1,
            Ins::Br(t) => self.jump(st, *t),
            Ins::CondBr(c, a, b) => {
                let k = match self.op(st, c) { Val::C(k) => k != 0, Val::S(t) => self.decide(st, t)?, _ => return Err(Stop::Unsup("br".into())) };
                self.jump(st, if k { *a } else { *b });
            }
            Ins::Switch { w, v, def, cases } => {
                let to = match self.op(st, v) {
                    Val::C(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                    Val::S(t) => {
                        let mut to = *def;
                        for (k, l) in cases {
                            let kc = self.ar.c(*k, *w);
                            let e = self.ar.eq(t, kc);
                            if self.decide(st, e)? { to = *l; break; }
                        }
                        to
                    }
                    _ => return Err(Stop::Unsup("switch".into())),
                };
                self.jump(st, to);
            }
            Ins::Ret(v) => { let v = v.as_ref().map(|v| self.op(st, v)); return self.ret(st, v); }
            Ins::Resume(_) => return self.unwind(st),
            Ins::Unreachable => return Err(Stop::Event("unreachable".into(), format!("unreachable code reached in {}", self.where_(st)))),
        }
        Ok(())
    }

    fn ovf(&mut self, st: &mut St, k: u8, w: u32, a: &Val, b: &Val) -> X<(Val, Val)> {
        let op = [BinOp::Add, BinOp::Add, BinOp::Sub, BinOp::Sub, BinOp::Mul, BinOp::Mul][k as usize];
        let r = self.bin(st, op, w, a, b)?;
        if let (Val::C(x), Val::C(y), true) = (a, b, w <= 64) {
            let o = if k % 2 == 0 { match k { 0 => x + y > mask(!0, w), 2 => x < y, _ => x * y > mask(!0, w) } }
            else { let (x, y) = (term::sx(*x, w), term::sx(*y, w)); let z = match k { 1 => x + y, 3 => x - y, _ => x * y }; z != term::sx(mask(z as u128, w), w) };
            return Ok((r, Val::C(o as u128)));
        }
        if let (Val::C(x), Val::C(y)) = (a, b) { // 128 bits
            let o = match k { 0 => x.checked_add(*y).is_none(), 2 => x < y, 4 => x.checked_mul(*y).is_none(), _ => return Err(Stop::Unsup("i128 overflow".into())) };
            return Ok((r, Val::C(o as u128)));
        }
        let (x, y) = (self.t(a, w), self.t(b, w));
        if w <= 64 {
            let mut memo = HashMap::new();
            let (p, q) = (self.urange(st, x, &mut memo), self.urange(st, y, &mut memo));
            let none = if k % 2 == 0 { match k { 0 => p.1 + q.1 <= mask(!0, w), 2 => q.1 <= p.0, _ => p.1 * q.1 <= mask(!0, w) } }
            else {
                let s = |r: (u128, u128)| -> Option<(i128, i128)> { if r.0 >> (w - 1) == r.1 >> (w - 1) { Some((term::sx(r.0, w), term::sx(r.1, w))) } else { None } };
                match (s(p), s(q)) {
                    (Some(p), Some(q)) => {
                        let c = match k { 1 => [p.0 + q.0, p.1 + q.1, 0, 0], 3 => [p.0 - q.1, p.1 - q.0, 0, 0], _ => [p.0 * q.0, p.0 * q.1, p.1 * q.0, p.1 * q.1] };
                        c.iter().all(|v| *v >= -(1i128 << (w - 1)) && *v < 1i128 << (w - 1))
                    }
                    _ => false,
                }
            };
            if none { return Ok((r, Val::C(0))); }
        }
        let o = match k {
            0 => { let s = self.t(&r, w); let mx = self.ar.ubits(x).max(self.ar.ubits(y)) + 1; if mx <= w { self.ar.fls() } else { self.ar.ult(s, x) } }
            2 => self.ar.ult(x, y),
            4 if self.ar.ubits(x) + self.ar.ubits(y) <= w => self.ar.fls(),
            _ => {
                let w2 = w * 2;
                if w2 > 128 { return Err(Stop::Unsup("wide overflow".into())); }
                let (p, q) = if k % 2 == 0 { (self.ar.zext(x, w2), self.ar.zext(y, w2)) } else { (self.ar.sext(x, w2), self.ar.sext(y, w2)) };
                let z = match k { 1 => self.ar.add(p, q), 3 => self.ar.sub(p, q), _ => self.ar.mul(p, q) };
                let s = self.t(&r, w);
                let e = if k % 2 == 0 { self.ar.zext(s, w2) } else { self.ar.sext(s, w2) };
                let e = self.ar.eq(z, e);
                self.ar.not(e)
            }
        };
        Ok((r, self.v(o)))
    }
    fn fminmax(&mut self, x: T, y: T, min: bool) -> T {
        let nx = self.ar.fnan(x); let ny = self.ar.fnan(y);
        let c = if min { self.ar.flt(y, x) } else { self.ar.flt(x, y) };
        let r = self.ar.ite(c, y, x);
        let r = self.ar.ite(ny, x, r);
        self.ar.ite(nx, y, r)
    }

    fn call(&mut self, st: &mut St, ci: &CallI) -> X<()> {
        let cal = self.op(st, &ci.callee);
        let a = self.force(st, &cal, 64)? as u64;
        let (k, i, o) = Self::split(a);
        if k != K_FUNC || o != 0 || i as usize >= self.p.m.funcs.len() { return self.ub(st, format!("call of a non-function {a:#x}")); }
        let fi = i as u32;
        let mut kind = self.p.kinds[i as usize];
        let mut args: Vec<Val> = Vec::with_capacity(ci.args.len());
        for (_, x) in &ci.args { args.push(self.op(st, x)); }
        // the factorial of a known number is computed by the real code
        if matches!(kind, K::Pow | K::FMod | K::Bi(_) | K::Un(_) | K::Fact) && args.len() <= 2 && ci.args.first().is_some_and(|x| x.0 == Ty::F64) {
            let b = args.get(1).cloned().unwrap_or(Val::C(0));
            args[0] = self.choose(st, &args[0].clone(), &b)?;
            if args.len() > 1 { args[1] = self.choose(st, &b, &args[0].clone())?; }
        }
        if kind == K::Fact && matches!(args[0], Val::C(_)) { kind = K::Code; }
        if kind == K::Code {
            if self.p.fmtfn[i as usize] {
                // float formatting works on concrete values
                for j in 0..args.len() { if ci.args[j].0 == Ty::F64 && matches!(args[j], Val::S(_)) { let k = self.force(st, &args[j].clone(), 64)?; args[j] = Val::C(k); } }
                if let (Some((Ty::Ptr, _)), Some(Val::C(p))) = (ci.args.first(), args.first().cloned()) {
                    // &f64 self argument of the Display impl
                    if let Ok(v @ Val::S(t)) = self.load_scalar(st, p as u64, 64) { if self.ar.w(t) == 64 { let k = self.force(st, &v, 64)?; self.store(st, &Ty::F64, &Val::C(k), p as u64)?; } }
                }
            }
            if ci.inv.is_none() { st.cur.pc += 1; }
            return self.enter(st, fi, args, ci.dst, ci.inv, false);
        }
        let tw = |j: usize| ci.args[j].0.bits();
        macro_rules! done { ($v:expr) => {{ let v = $v; self.finish_call(st, ci, Some(v)); return Ok(()); }} }
        macro_rules! void { () => {{ self.finish_call(st, ci, None); return Ok(()); }} }
        macro_rules! num { ($j:expr) => {{ let v = args[$j].clone(); self.force(st, &v, 64)? }} }
        match kind {
            K::Code => unreachable!(),
            K::Unsup => Err(Stop::Unsup(format!("call of {} in {}", self.p.m.funcs[i as usize].name.chars().take(200).collect::<String>(), self.where_(st)))),
            K::Nop => { if ci.ret == Ty::Void { void!() } else { done!(zero(&ci.ret)) } }
            K::Abort => Err(Stop::Event("abort".into(), format!("abort in {}", self.where_(st)))),
            K::Throw => {
                // leave through the caller's unwind edge, if the call is an invoke
                if let Some((_, u)) = ci.inv { self.jump(st, u); return Ok(()); }
                let w = self.where_(st);
                match self.unwind(st) { Err(Stop::Event(k, _)) => Err(Stop::Event(k, format!("uncaught panic in {w}"))), r => r }
            }
            K::Alloc | K::AllocZ => { let s = num!(0) as u64; let al = num!(1) as u64; let p = self.alloc(st, s, al, if kind == K::AllocZ { 0 } else { 0xA5 })?; done!(c64(p)) }
            K::Dealloc => { let p = num!(0) as u64; let s = num!(1) as u64; let al = num!(2) as u64; self.dealloc(st, p, s, al)?; void!() }
            K::Realloc => {
                let p = num!(0) as u64; let s = num!(1) as u64; let al = num!(2) as u64; let n = num!(3) as u64;
                let q = self.alloc(st, n, al, 0xA5)?;
                self.memcpy(st, q, p, s.min(n))?;
                self.dealloc(st, p, s, al)?;
                done!(c64(q))
            }
            K::RandKeys => done!(Val::Agg(Arc::new(vec![c64(0x0706050403020100), c64(0x0f0e0d0c0b0a0908)]))),
            K::HashOne => done!(c64(0)),
            K::Fact => { let x = self.t(&args[0], 64); let r = match self.ar.k(x) { Some(k) => self.ar.c(term::fact(term::f(k)).to_bits() as u128, 64), None => { let c = self.ar.fcanon(x); let u = self.ar.uf_id("fact", 2); self.ar.uf(u, &[c]) } }; done!(self.v(r)) }
            K::MemCpy => { let n = num!(2) as u64; let d = if n == 0 { 0 } else { num!(0) as u64 }; let s = if n == 0 { 0 } else { num!(1) as u64 }; self.memcpy(st, d, s, n)?; if ci.ret == Ty::Void { void!() } else { done!(c64(d)) } }
            K::MemSet => {
                let n = num!(2) as u64; let d = num!(0) as u64;
                let bw = tw(1);
                let b = match &args[1] { Val::C(k) => Val::C(*k & 0xff), Val::S(t) => { let t = if bw > 8 { self.ar.extract(*t, 7, 0) } else { *t }; self.v(t) } _ => return Err(Stop::Unsup("memset".into())) };
                if n > 0 { let (o, off) = self.write_obj(st, d, n, "memset")?; for j in 0..n as usize { match &b { Val::C(k) => o.put_c(off + j, *k, 1), Val::S(t) => o.put_s(off + j, *t, 1), _ => {} } } }
                if ci.ret == Ty::Void { void!() } else { done!(c64(d)) }
            }
            K::BCmp | K::MemCmp => {
                let n = num!(2) as u64;
                if n == 0 { done!(Val::C(0)) }
                let p = num!(0) as u64; let q = num!(1) as u64;
                { self.read_obj(st, p, n, "memcmp")?; self.read_obj(st, q, n, "memcmp")?; }
                let mut xs = vec![]; 
                for j in 0..n { xs.push((self.byte_at(st, p + j)?, self.byte_at(st, q + j)?)); }
                if kind == K::BCmp {
                    let mut acc = self.ar.tru();
                    for (x, y) in &xs { let (x, y) = (self.t(x, 8), self.t(y, 8)); let e = self.ar.eq(x, y); acc = self.ar.and(acc, e); if self.ar.k(acc) == Some(0) { break; } }
                    let z = self.ar.c(0, 32); let o = self.ar.c(1, 32);
                    let r = self.ar.ite(acc, z, o);
                    done!(self.v(r))
                }
                let mut r = self.ar.c(0, 32);
                for (x, y) in xs.iter().rev() {
                    let (x, y) = (self.t(x, 8), self.t(y, 8));
                    let e = self.ar.eq(x, y); let l = self.ar.ult(x, y);
                    let m1 = self.ar.c(!0, 32); let p1 = self.ar.c(1, 32);
                    let d = self.ar.ite(l, m1, p1);
                    r = self.ar.ite(e, r, d);
                }
                done!(self.v(r))
            }
            K::StrLen => { let p = num!(0) as u64; let mut n = 0; while let Val::C(k) = self.byte_at(st, p + n)? { if k == 0 { break; } n += 1; } done!(c64(n)) }
            K::Assume => {
                let c = self.t(&args[0], 1);
                if self.ar.k(c) == Some(0) { return self.ub(st, "assumption of the optimiser violated".into()); }
                if self.ar.k(c).is_none() { if !self.decide(st, c)? { return self.ub(st, "assumption of the optimiser violated".into()); } }
                void!()
            }
            K::Ovf(k) => {
                let w = tw(0);
                let (r, o) = self.ovf(st, k, w, &args[0].clone(), &args[1].clone())?;
                done!(Val::Agg(Arc::new(vec![r, o])))
            }
            K::MinMax(k) => {
                let ty = ci.args[0].0.clone();
                let rw = if ci.ret.is_agg() { 0 } else { ci.ret.bits() };
                let (a, b) = (args[0].clone(), args[1].clone());
                let r = self.map2(st, &ty, &a, &b, &mut |e, _, t, x, y| {
                    let w = t.bits();
                    let (x, y) = (e.t(x, w), e.t(y, w));
                    let r = match k {
                        0 => { let c = e.ar.ult(y, x); e.ar.ite(c, y, x) } 1 => { let c = e.ar.ult(x, y); e.ar.ite(c, y, x) }
                        2 => { let c = e.ar.slt(y, x); e.ar.ite(c, y, x) } 3 => { let c = e.ar.slt(x, y); e.ar.ite(c, y, x) }
                        _ => { let l = if k == 4 { e.ar.ult(x, y) } else { e.ar.slt(x, y) }; let q = e.ar.eq(x, y); let m = e.ar.c(!0, rw); let z = e.ar.c(0, rw); let o = e.ar.c(1, rw); let g = e.ar.ite(q, z, o); e.ar.ite(l, m, g) }
                    };
                    Ok(e.v(r))
                })?;
                done!(r)
            }
            K::Sat(k) => {
                let w = tw(0);
                let (r, o) = self.ovf(st, [0, 2, 1, 3][k as usize], w, &args[0].clone(), &args[1].clone())?;
                if k >= 2 { 
                    if let (Val::C(x), Val::C(y)) = (&args[0], &args[1]) { let (x, y) = (term::sx(*x, w), term::sx(*y, w)); let z = if k == 2 { x + y } else { x - y }; let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1); done!(Val::C(mask(z.clamp(lo, hi) as u128, w))) }
                    return Err(Stop::Unsup("signed saturating".into()));
                }
                let o = self.t(&o, 1); let r = self.t(&r, w);
                let s = self.ar.c(if k == 0 { !0 } else { 0 }, w);
                let x = self.ar.ite(o, s, r);
                done!(self.v(x))
            }
            K::Ctpop | K::Ctlz | K::Cttz | K::BSwap | K::BitRev => {
                let w = tw(0);
                match &args[0] {
                    Val::C(k) => { let k = *k; done!(Val::C(match kind {
                        K::Ctpop => k.count_ones() as u128, K::Ctlz => (k << (128 - w)).leading_zeros().min(w) as u128, K::Cttz => if k == 0 { w as u128 } else { k.trailing_zeros() as u128 },
                        K::BSwap => k.swap_bytes() >> (128 - w), _ => k.reverse_bits() >> (128 - w) })) }
                    Val::S(t) => {
                        let t = *t;
                        if kind == K::BSwap { let mut acc = self.ar.extract(t, 7, 0); for j in 1..w / 8 { let b = self.ar.extract(t, 8 * j + 7, 8 * j); acc = self.ar.concat(acc, b); } done!(self.v(acc)) }
                        // the length of a number out of several input bytes: one path for each
                        if kind == K::Ctlz && w == 64 && !self.ar.has_float[t as usize] && self.ar.varset(t).len() > 1 {
                            let hi = { let r = self.urange(st, t, &mut HashMap::new()); 128 - r.1.leading_zeros() };
                            let mut n = hi;
                            while n > 0 {
                                let k = self.ar.c(1u128 << (n - 1), w);
                                let c = self.ar.ult(t, k);
                                if !self.decide(st, c)? { break; }
                                n -= 1;
                            }
                            done!(Val::C((w - n) as u128))
                        }
                        let mut r = self.ar.c(if kind == K::Ctpop { 0 } else { w as u128 }, w);
                        for j in 0..w {
                            let b = if kind == K::Cttz { w - 1 - j } else { j };
                            let bit = self.ar.extract(t, b, b);
                            if kind == K::Ctpop { let z = self.ar.zext(bit, w); r = self.ar.add(r, z); }
                            else { let v = self.ar.c(if kind == K::Ctlz { (w - 1 - b) as u128 } else { b as u128 }, w); r = self.ar.ite(bit, v, r); }
                        }
                        done!(self.v(r))
                    }
                    _ => Err(Stop::Unsup("vector bit intrinsic".into())),
                }
            }
            K::Fsh(left) => {
                let w = tw(0);
                let s = (num!(2) % w as u128) as u32;
                let (h, l) = (self.t(&args[0], w), self.t(&args[1], w));
                let r = if s == 0 { if left { h } else { l } } else {
                    let s = if left { s } else { w - s };
                    let a = self.ar.extract(h, w - 1 - s, 0); let b = self.ar.extract(l, w - 1, w - s); self.ar.concat(a, b)
                };
                done!(self.v(r))
            }
            K::Abs => { let w = tw(0); let x = self.t(&args[0], w); let n = self.ar.neg(x); let z = self.ar.c(0, w); let c = self.ar.slt(x, z); let r = self.ar.ite(c, n, x); done!(self.v(r)) }
            K::False => done!(Val::C(0)),
            K::Expect | K::ThreadLocal => done!(args[0].clone()),
            K::Un(n) => {
                if tw(0) == 32 && matches!(n, "sqrt" | "trunc" | "floor" | "ceil" | "round" | "rint") && matches!(args[0], Val::S(_)) { let x = self.t(&args[0], 32); let x = self.ar.fext(x); let r = self.ar.fun(n, x); let r = self.ar.ftrunc(r); done!(self.v(r)) }
                if tw(0) == 32 { if matches!(args[0], Val::S(_)) { return Err(Stop::Unsup("f32 math".into())); } if let (Val::C(k), true) = (&args[0], true) { let x = f32::from_bits(*k as u32); let r = match n { "trunc" => x.trunc(), "floor" => x.floor(), "ceil" => x.ceil(), "sqrt" => x.sqrt(), _ => return Err(Stop::Unsup("f32 math".into())) }; done!(Val::C(r.to_bits() as u128)) } }
                let x = self.t(&args[0], 64); let r = self.ar.fun(n, x); done!(self.v(r))
            }
            K::FAbs => { let w = tw(0); let x = self.t(&args[0], w); let m = self.ar.c((1u128 << (w - 1)) - 1, w); let r = self.ar.and(x, m); done!(self.v(r)) }
            K::CopySign => { let (x, y) = (self.t(&args[0], 64), self.t(&args[1], 64)); let x = self.ar.fabs(x); let s = self.ar.c(term::SIGN, 64); let y = self.ar.and(y, s); let r = self.ar.or(x, y); done!(self.v(r)) }
            K::Pow => { let (x, y) = (self.t(&args[0], 64), self.t(&args[1], 64)); let r = self.ar.fpow(x, y); done!(self.v(r)) }
            K::Powi => { let n = num!(1) as i32; match &args[0] { Val::C(k) => done!(Val::C(term::f(*k).powi(n).to_bits() as u128)), v => { let x = self.t(v, 64); let u = self.ar.uf_id(&format!("powi{n}"), 3); let r = self.ar.uf(u, &[x]); done!(self.v(r)) } } }
            K::FMod => { let (x, y) = (self.t(&args[0], 64), self.t(&args[1], 64)); let r = self.ar.frem(x, y); done!(self.v(r)) }
            K::FMin | K::FMax => { let (x, y) = (self.t(&args[0], 64), self.t(&args[1], 64)); let r = self.fminmax(x, y, kind == K::FMin); done!(self.v(r)) }
            K::Bi(n) => { let (x, y) = (self.t(&args[0], 64), self.t(&args[1], 64)); let u = self.ar.uf_id(n, 1); let r = self.ar.uf(u, &[x, y]); done!(self.v(r)) }
            K::Fma => match (&args[0], &args[1], &args[2]) { (Val::C(x), Val::C(y), Val::C(z)) => done!(Val::C(term::f(*x).mul_add(term::f(*y), term::f(*z)).to_bits() as u128)), _ => { let (x, y, z) = (self.t(&args[0], 64), self.t(&args[1], 64), self.t(&args[2], 64)); let u = self.ar.uf_id("fma", 1); let r = self.ar.uf(u, &[x, y, z]); done!(self.v(r)) } },
            K::SatToI(signed) => {
                if tw(0) != 64 { return Err(Stop::Unsup("f32".into())); }
                let w = ci.ret.bits();
                match &args[0] {
                    Val::C(k) => { let x = term::f(*k); let r = if signed { let (lo, hi) = (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)); if x.is_nan() { 0 } else if x <= lo { (1u128 << (w - 1)) as u128 } else if x >= hi { mask(!0, w - 1) } else { mask(x as i128 as u128, w) } } else if x.is_nan() || x <= 0.0 { 0 } else if x >= 2f64.powi(w as i32) { mask(!0, w) } else { x as u128 }; done!(Val::C(r)) }
                    v => {
                        let x = self.t(v, 64);
                        let na = self.ar.fnan(x);
                        let hi = self.ar.c(2f64.powi(if signed { w as i32 - 1 } else { w as i32 }).to_bits() as u128, 64);
                        let lo = self.ar.c(if signed { (-2f64.powi(w as i32 - 1)).to_bits() as u128 } else { 0 }, 64);
                        let big = self.ar.fle(hi, x); let small = self.ar.fle(x, lo);
                        let mx = self.ar.c(if signed { mask(!0, w - 1) } else { mask(!0, w) }, w);
                        let mn = self.ar.c(if signed { 1u128 << (w - 1) } else { 0 }, w);
                        let z = self.ar.c(0, w);
                        let r = if signed { self.ar.ftosi(x, w) } else { self.ar.ftoui(x, w) };
                        let r = self.ar.ite(big, mx, r); let r = self.ar.ite(small, mn, r); let r = self.ar.ite(na, z, r);
                        done!(self.v(r))
                    }
                }
            }
            K::FpClass => {
                let m = num!(1);
                let x = self.t(&args[0], 64);
                let a = &mut self.ar;
                let na = a.fnan(x); let ab = a.fabs(x); let inf = a.c(term::EXPM, 64); let isinf = a.eq(ab, inf); let isz = a.fzero(x);
                let sg = a.extract(x, 63, 63); let ns = a.not(sg);
                let mn = a.c(1 << 52, 64); let lt = a.ult(ab, mn); let nz = a.not(isz); let sub = a.and(lt, nz);
                let fi = a.ffinite(x); let nl = a.not(lt); let nor = a.and(fi, nl);
                let mut acc = a.fls();
                if m & 3 != 0 { acc = a.or(acc, na); }
                for (bit, cl, s) in [(2, isinf, sg), (3, nor, sg), (4, sub, sg), (5, isz, sg), (6, isz, ns), (7, sub, ns), (8, nor, ns), (9, isinf, ns)] { if m >> bit & 1 == 1 { let c = a.and(cl, s); acc = a.or(acc, c); } }
                done!(self.v(acc))
            }
            K::RedOr | K::RedAnd | K::RedAdd => {
                let Val::Agg(x) = &args[0] else { return Err(Stop::Unsup("reduce".into())) };
                let x = x.clone();
                let w = ci.ret.bits();
                let mut acc = self.t(&x[0], w);
                for y in &x[1..] { let y = self.t(y, w); acc = match kind { K::RedOr => self.ar.or(acc, y), K::RedAnd => self.ar.and(acc, y), _ => self.ar.add(acc, y) }; }
                done!(self.v(acc))
            }
            K::PtrMask => { let r = self.bin(st, BinOp::And, 64, &args[0].clone(), &args[1].clone())?; done!(r) }
            K::FloatFmt => unreachable!(),
            // ---------------------------------------------------- harness interface
            K::SParam => { let j = num!(0) as usize; done!(c64(self.sh.jobs[st.job].params.get(j).copied().unwrap_or(0))) }
            K::SIsEngine => done!(Val::C(1)),
            K::SFreeze => { st.frozen = if num!(0) != 0 { st.heap.len() as u32 } else { 0 }; st.locked = false; st.other = None; void!() }
            K::SOther => {
                let (k, i, _) = Self::split(num!(0) as u64);
                if k != K_FUNC { return Err(Stop::Unsup("other".into())); }
                st.other = Some((i as u32, args[1].clone()));
                void!()
            }
            K::SByte | K::SU8 | K::SChoice => {
                let id = num!(0) as u32;
                let mut d = [0u64; 4];
                match kind {
                    K::SByte => { let p = num!(1) as u64; let n = num!(2) as u64; for j in 0..n { let Val::C(b) = self.byte_at(st, p + j)? else { return Err(Stop::Unsup("symbolic alphabet".into())) }; d[(b / 64) as usize] |= 1 << (b % 64); } }
                    K::SU8 => d = FULL,
                    _ => { let n = num!(1) as u64; if n == 0 || n > 256 { return Err(Stop::Unsup("choice size".into())); } for b in 0..n { d[(b / 64) as usize] |= 1 << (b % 64); } }
                }
                if d_empty(&d) { return Err(Stop::Kill); }
                let t = self.ar.var(VKind::Byte, id, 8);
                let ix = self.ar.nodes[t as usize].aux as u32;
                let d = match st.doms.get(ix as usize).copied().flatten() { Some(o) => d_and(&o, &d), None => d };
                if d_empty(&d) { return Err(Stop::Kill); }
                self.set_dom(st, ix, d);
                if kind != K::SChoice { self.alph.insert((st.job, id), d); self.js[st.job].seen.insert((id, 0), d); }
                if kind == K::SChoice { let n = num!(1) as u32; if !st.picks.contains(&(ix, n)) { st.picks.push((ix, n)); } let k = self.force(st, &Val::S(t), 8)?; done!(c64(k as u64)) }
                if d_count(&d) == 1 { done!(Val::C(d_min(&d) as u128)) }
                done!(Val::S(t))
            }
            K::SU64 => { let id = num!(0) as u32; self.js[st.job].seen.insert((id, 1), FULL); let t = self.ar.var(VKind::Bits, id, 64); done!(Val::S(t)) }
            K::SF64 => { let id = num!(0) as u32; self.js[st.job].seen.insert((id, 2), FULL); let t = self.ar.var(VKind::Float, id, 64); done!(Val::S(t)) }
            K::SAssume => {
                let c = self.t(&args[0], 1);
                self.assume(st, c)?;
                void!()
            }
            K::SFinite => { let x = self.t(&args[0], 64); let c = self.ar.ffinite(x); self.assume(st, c)?; void!() }
            K::SCheck | K::SSame | K::SFeq => {
                let (c, tag) = match kind {
                    K::SCheck => (self.t(&args[0], 1), num!(1)),
                    _ => { let (x, y) = (self.t(&args[0], 64), self.t(&args[1], 64)); let tag = num!(2); (self.float_equal(st, x, y, kind == K::SSame)?, tag) }
                };
                self.check(st, c, tag as u64)?;
                void!()
            }
            K::SCover => { let t = num!(0) as u64; st.covers.push(t); void!() }
            K::SOut => { st.outs.push(args[0].clone()); st.outk.push(0); void!() }
            K::SOutF => { st.outs.push(args[0].clone()); st.outk.push(1); void!() }
            K::SUf => {
                let id = num!(0) as u32; let p = num!(1) as u64; let n = num!(2) as u64;
                let mut v = vec![];
                for j in 0..n { let x = self.load_scalar(st, p + 8 * j, 64)?; let x = self.t(&x, 64); let x = self.ar.fcanon(x); v.push(x); }
                if v.iter().all(|x| self.ar.k(*x).is_some()) { let f: Vec<f64> = v.iter().map(|x| term::f(self.ar.k(*x).unwrap())).collect(); done!(Val::C(term::user_fn(id, &f).to_bits() as u128)) }
                let u = self.ar.uf_id(&format!("uf{id}"), 0);
                let r = self.ar.uf(u, &v);
                done!(self.v(r))
            }
            K::SConc => { let v = args[0].clone(); let w = tw(0); let k = self.force(st, &v, w)?; done!(Val::C(k)) }
            K::SHash => done!(c64(0)),
            K::SCatch => {
                let fp = num!(0) as u64;
                let (k, i, _) = Self::split(fp);
                if k != K_FUNC { return Err(Stop::Unsup("catch".into())); }
                if ci.inv.is_none() { st.cur.pc += 1; }
                self.enter(st, i as u32, vec![args[1].clone()], ci.dst, ci.inv, true)
            }
        }
    }

    /// Did the exploration lose anything? Some fixed inputs of every job: each must satisfy the conditions of
    /// some path that was followed to its end (or of an assumption that failed).
    fn audit(&mut self, st: &St, extra: &[T]) {
        let done = self.js[st.job].hit;
        if done == !0 { return; }
        let mut left = !done;
        let kinds = std::mem::take(&mut self.ar.var_kind);
        for (i, d) in st.doms.iter().enumerate() {
            let Some(d) = d else { continue };
            let id = kinds[i].1;
            let full = match st.picks.iter().find(|p| p.0 == i as u32) { Some(p) => audit_first(p.1), None => match self.alph.get(&(st.job, id)) { Some(d) => *d, None => FULL } };
            let mut r = left;
            while r != 0 { let k = r.trailing_zeros(); r &= r - 1; if !d_has(d, audit_byte(k, id, &full)) { left &= !(1 << k); } }
            if left == 0 { break; }
        }
        self.ar.var_kind = kinds;
        while left != 0 {
            let k = left.trailing_zeros(); left &= left - 1;
            let mut m = Model::new();
            for (i, (kind, id, w)) in self.ar.var_kind.iter().enumerate() {
                let v = match kind {
                    VKind::Byte => match st.doms.get(i).copied().flatten() { Some(_) => { let full = match st.picks.iter().find(|p| p.0 == i as u32) { Some(p) => audit_first(p.1), None => match self.alph.get(&(st.job, *id)) { Some(d) => *d, None => FULL } }; audit_byte(k, *id, &full) as u128 } None => continue },
                    VKind::Float => audit_float(k, *id) as u128,
                    VKind::Bits => mask(audit_hash(k, *id) as u128, *w),
                };
                m.insert(i as u32, v);
            }
            let mut memo = HashMap::new();
            if st.cons.iter().chain(extra).all(|c| self.ar.eval(*c, &m, &mut memo) != 0) { self.js[st.job].hit |= 1 << k; }
        }
    }
    fn assume(&mut self, st: &mut St, c: T) -> X<()> {
        if self.ar.k(c) == Some(0) { self.audit(st, &[]); } else if self.ar.k(c).is_none() { let nc = self.ar.not(c); self.audit(st, &[nc]); }
        match self.ar.k(c) { Some(0) => return Err(Stop::Kill), Some(_) => return Ok(()), None => {} }
        if st.cons.contains(&c) { return Ok(()); }
        if let Some(m) = st.model.clone() {
            if self.ar.eval(c, &m, &mut HashMap::new()) != 0 { return if self.push(st, c) { Ok(()) } else { Err(Stop::Kill) }; }
        }
        if self.single_byte(c).is_none() || !st.cons.is_empty() { if self.sat(st, &[c]).0 == Res::Unsat { return Err(Stop::Kill); } }
        if !self.push(st, c) { return Err(Stop::Kill); }
        if let Some(m) = st.model.clone() { if !self.holds(st, &m, &[]) { st.model = None; } }
        Ok(())
    }

    fn inputs(&self, m: &Model) -> Vec<(u32, u32, u128)> {
        let mut v: Vec<(u32, u32, u128)> = m.iter().map(|(k, x)| { let (kind, id, _) = self.ar.var_kind[*k as usize]; (id, kind as u32, *x) }).collect();
        v.sort();
        v
    }
    /// models worth trying concretely: the solver's, then generic float values
    fn confirm(&mut self, st: &St, m: &Model, extra: &[T]) -> Option<Model> {
        if self.holds(st, m, extra) { return Some(m.clone()); }
        let fl: Vec<u32> = (0..self.ar.var_kind.len() as u32).filter(|v| self.ar.var_kind[*v as usize].0 == VKind::Float).collect();
        if fl.is_empty() { return None; }
        const G: [f64; 16] = [1.6875, 2.5, 3.25, 0.375, 7.0, -1.25, -3.0, 0.0, 1.0, 1e300, -1e300, f64::INFINITY, f64::NAN, 12.5, -0.0, 5e-324];
        for r in 0..100u64 {
            let mut n = m.clone();
            if r >= 60 {
                // numbers of similar size with all their digits: roundings differ wherever they can
                for v in &fl { let (a, e) = (self.rnd(), self.rnd() % (if r < 80 { 4 } else { 60 })); n.insert(*v, ((a & ((1 << 52) - 1)) | (if r % 2 == 0 { 0 } else { a & 1 << 63 }) | (1020 + e) << 52) as u128); }
                if self.holds(st, &n, extra) { return Some(n); }
                continue;
            }
            for (i, v) in fl.iter().enumerate() {
                let g = if r < 16 { G[((r as usize) + 3 * i * (r as usize % 3)) % 16] } else { G[(self.rnd() % 16) as usize] };
                if r >= 40 && self.rnd() % 2 == 0 { continue; }
                n.insert(*v, g.to_bits() as u128);
            }
            if self.holds(st, &n, extra) { return Some(n); }
        }
        None
    }
    /// path plus extra constraints: unsat (proved), or a concretely confirmed model, or unknown
    fn settle(&mut self, st: &St, extra: &[T]) -> (Res, Option<Model>, bool) {
        let mut all: Vec<T> = st.cons.clone();
        all.extend_from_slice(extra);
        // first only the relevant slice: unsat there is unsat
        if !extra.is_empty() { if self.sat(st, extra).0 == Res::Unsat { return (Res::Unsat, None, false); } }
        let doms: Vec<(u32, [u64; 4])> = st.doms.iter().enumerate().filter_map(|(i, d)| d.map(|d| (i as u32, d))).collect();
        let vars: Vec<u32> = (0..self.ar.var_kind.len() as u32).filter(|v| { let m = self.ar.var_kind[*v as usize].0; m != VKind::Byte || st.doms.get(*v as usize).copied().flatten().is_some() }).collect();
        let (r, m) = self.z.check(&self.ar, &all, &doms, false, Some(&vars));
        if r == Res::Unsat { return (Res::Unsat, None, false); }
        if let Some(m) = &m { if let Some(c) = self.confirm(st, m, extra) { return (Res::Sat, Some(c), false); } }
        if !all.iter().any(|c| self.ar.has_float[*c as usize]) { return (Res::Unknown, m, false); }
        // what the conditions say about one another, then again
        let mut l = st.clone();
        for c in extra { if !self.push(&mut l, *c) { return (Res::Unsat, None, false); } }
        let mut any = false;
        for _ in 0..3 {
            let mut more = vec![];
            for k in l.cons.clone() { if let Some(n) = self.numeric_cons(&l, k) { if self.ar.k(n) != Some(1) && !l.cons.contains(&n) { more.push(n); } } }
            if more.is_empty() { break; }
            any = true;
            for n in more { if !self.push(&mut l, n) { return (Res::Unsat, None, false); } }
        }
        if any { l.model = None; let cs = l.cons.clone(); if self.sat(&l, &cs).0 == Res::Unsat { return (Res::Unsat, None, false); } }
        // exact floating-point theory on the relevant slice, then on everything; long computations are out of its reach
        if self.ar.fp_size(&all) > 40 || Instant::now() > self.sh.deadline { return (Res::Unknown, m, false); }
        let (sl, sd) = self.slice(st, if extra.is_empty() { &all } else { extra });
        let t0 = std::time::Instant::now();
        let (r, _) = self.z.check(&self.ar, &sl, &sd, true, None);
        if std::env::var("SYMX_CONS").is_ok() { eprintln!("EXACT {r:?} {:.2} {}", t0.elapsed().as_secs_f64(), extra.iter().map(|c| self.ar.show(*c, 10)).collect::<Vec<_>>().join(" ; ")); } if std::env::var("SYMX_CONS").is_ok() { for c in &sl { if !extra.contains(c) { eprintln!("    {}", self.ar.show(*c, 14)); } } }
        if r == Res::Unsat { return (Res::Unsat, None, true); }
        let (r, m2) = self.z.check(&self.ar, &all, &doms, true, Some(&vars));
        if r == Res::Unsat { return (Res::Unsat, None, true); }
        if let Some(m2) = &m2 { if let Some(c) = self.confirm(st, m2, extra) { return (Res::Sat, Some(c), true); } }
        (Res::Unknown, m2.or(m), true)
    }
    /// conditions of the choices inside a float value, innermost first (not those that only bring zeros and NaN into one form)
    fn tables_in(&self, t: T, out: &mut Vec<T>, seen: &mut std::collections::HashSet<T>) {
        if !seen.insert(t) { return; }
        if self.ar.op(t) == term::Op::Table { out.push(t); }
        for a in &self.ar.nodes[t as usize].args { self.tables_in(*a, out, seen); }
    }
    fn ite_conds(&self, t: T, out: &mut Vec<T>, seen: &mut std::collections::HashSet<T>) {
        if self.ar.w(t) != 64 && !self.ar.has_float[t as usize] || !seen.insert(t) { return; }
        for a in self.ar.nodes[t as usize].args.clone() { self.ite_conds(a, out, seen); }
        if self.ar.op(t) == term::Op::Ite && self.ar.w(t) == 64 { let c = self.ar.arg(t, 0); if !out.contains(&c) { out.push(c); } }
    }
    /// a condition of the path on a float's size, with numerically equal parts in one form under the rest of the path
    fn numeric_cons(&mut self, st: &St, k: T) -> Option<T> {
        let (neg, b) = if self.ar.op(k) == term::Op::Not { (true, self.ar.arg(k, 0)) } else { (false, k) };
        // equal to a number that is not zero
        if self.ar.op(b) == term::Op::Eq && self.ar.w(self.ar.arg(b, 0)) == 64 && self.ar.has_float[self.ar.arg(b, 0) as usize] && self.ar.op(self.ar.arg(b, 0)) != term::Op::And {
            let (t, c) = (self.ar.arg(b, 0), self.ar.arg(b, 1));
            if let Some(v) = self.ar.k(c) {
                let f = f64::from_bits(v as u64);
                if f == 0.0 || f.is_nan() { return None; }
                let (n, _) = self.fnum_but(st, t, t, Some(k));
                if n == t { return None; }
                let r = self.ar.eq(n, c);
                return Some(if neg { self.ar.not(r) } else { r });
            }
        }
        let (t, fin) = if let Some(t) = self.ar.finite_of(b) { (t, true) } else if self.ar.op(b) == term::Op::Eq && self.ar.k(self.ar.arg(b, 1)) == Some(0) && self.ar.op(self.ar.arg(b, 0)) == term::Op::And && self.ar.k(self.ar.arg(self.ar.arg(b, 0), 1)) == Some(term::ABSM) { (self.ar.arg(self.ar.arg(b, 0), 0), false) } else { return None };
        if matches!(self.ar.op(t), term::Op::Var) { return None; }
        let (n, _) = self.fnum_but(st, t, t, Some(k));
        if n == t { return None; }
        let r = if fin { self.ar.ffinite(n) } else { self.ar.fzero(n) };
        Some(if neg { self.ar.not(r) } else { r })
    }
    fn fnum_path(&mut self, st: &St, x: T, y: T) -> (T, T) { self.fnum_but(st, x, y, None) }
    fn fnum_but(&mut self, st: &St, x: T, y: T, but: Option<T>) -> (T, T) {
        let cons: std::collections::HashSet<T> = st.cons.iter().copied().filter(|c| Some(*c) != but).collect();
        let nz = |ar: &mut Arena, t: T| { let z = ar.fzero(t); let n = ar.not(z); if ar.k(n) == Some(1) || cons.contains(&n) { Some(false) } else if ar.k(z) == Some(1) || cons.contains(&z) { Some(true) } else { None } };
        let mut m = HashMap::new();
        let p = self.ar.fnum(x, Some(&nz), &mut m); let q = self.ar.fnum(y, Some(&nz), &mut m);
        (p, q)
    }
    /// equality of two floats (bit for bit or numerically) under what the path knows, splitting on few byte values or on signs of zeros
    fn float_equal(&mut self, st: &mut St, mut x: T, mut y: T, bits: bool) -> X<T> {
        let (mut asked, mut splits, mut learn) = (0, 0, 0u32);
        for _ in 0..40 {
            let c = if bits { self.ar.fsame(x, y) } else { (x, y) = self.fnum_path(st, x, y); self.ar.fsim(x, y) };
            if self.ar.k(c).is_some() || !self.ar.has_float[c as usize] { return Ok(c); }
            // what the path knows
            let mut map: HashMap<T, T> = HashMap::new();
            let mut vs: Vec<u32> = self.ar.varset(c).to_vec();
            for t in [x, y] { for v in self.ar.varset(t).to_vec() { if !vs.contains(&v) { vs.push(v); } } }
            let mut split: Vec<(u32, u32)> = vec![];
            let mut zeros: Vec<T> = vec![];
            for v in &vs {
                let t = self.ar.var_term(*v);
                match self.ar.var_kind[*v as usize].0 {
                    VKind::Byte => { let d = self.dom(st, *v); let n = d_count(&d); if n == 1 { let k = self.ar.c(d_min(&d) as u128, 8); map.insert(t, k); } else { split.push((*v, n)); } }
                    VKind::Float => {
                        for k in &st.cons {
                            if self.ar.op(*k) != term::Op::Eq { continue; }
                            let (a, b) = (self.ar.arg(*k, 0), self.ar.arg(*k, 1));
                            if a == t && self.ar.k(b).is_some() { map.insert(t, b); }
                        }
                        if !map.contains_key(&t) { let z = self.ar.fzero(t); if st.cons.contains(&z) { zeros.push(t); } }
                    }
                    _ => {}
                }
            }
            // a table entry the bytes left allow only one value of
            let mut tabs = vec![];
            let mut seen = Default::default();
            self.tables_in(x, &mut tabs, &mut seen); self.tables_in(y, &mut tabs, &mut seen);
            for t in tabs {
                if map.contains_key(&t) { continue; }
                let Some(v) = self.single_byte(t) else { continue };
                let d = self.dom(st, v);
                let mut m = Model::new();
                let mut all: Option<u128> = None;
                let mut one = true;
                for x in 0..256u32 { if d_has(&d, x) { m.insert(v, x as u128); let k = self.ar.eval(t, &m, &mut HashMap::new()); if *all.get_or_insert(k) != k { one = false; break; } } }
                if let (true, Some(k)) = (one, all) { let w = self.ar.w(t); let c = self.ar.c(k, w); map.insert(t, c); }
            }
            for k in &st.cons {
                if self.ar.op(*k) != term::Op::Eq { continue; }
                let (a, b) = (self.ar.arg(*k, 0), self.ar.arg(*k, 1));
                if self.ar.w(a) == 64 && self.ar.k(b).is_some() && (self.ar.has_float[a as usize] || self.ar.op(a) == term::Op::And && self.ar.k(self.ar.arg(a, 1)) == Some(term::SIGN)) && !(self.ar.op(a) == term::Op::And && self.ar.k(self.ar.arg(a, 1)) == Some(term::ABSM)) { map.insert(a, b); }
            }
            // the path's conditions under those values
            if !map.is_empty() {
                let mut memo = HashMap::new();
                let mut never = |_: &mut Arena, _: T| None;
                for k in st.cons.clone() {
                    if map.iter().any(|(v, c)| k == self.ar.eq(*v, *c)) { continue; }
                    let n = self.ar.subst(k, &map, &mut never, &mut memo);
                    if n == k || self.ar.k(n) == Some(1) { continue; }
                    if map.iter().any(|(v, k)| n == self.ar.eq(*v, *k)) { continue; }
                    if !self.push(st, n) { return Err(Stop::Kill); }
                }
            }
            let cons: std::collections::HashSet<T> = st.cons.iter().copied().collect();
            let doms = st.doms.clone();
            let byte: HashMap<u32, u32> = vs.iter().filter(|v| self.ar.var_kind[**v as usize].0 == VKind::Byte).map(|v| (*v, *v)).collect();
            let mut know = |ar: &mut Arena, t: T| -> Option<bool> {
                if cons.contains(&t) { return Some(true); }
                let n = ar.not(t);
                if cons.contains(&n) { return Some(false); }
                if ar.op(t) == term::Op::FNan { let f = ar.ffinite(ar.arg(t, 0)); if cons.contains(&f) { return Some(false); } let z = ar.fzero(ar.arg(t, 0)); if cons.contains(&z) { return Some(false); } }
                if let Some(x) = ar.finite_of(t) { let z = ar.fzero(x); if cons.contains(&z) { return Some(true); } let n = ar.fnan(x); if cons.contains(&n) { return Some(false); } }
                let s = ar.varset(t);
                if s.len() == 1 && byte.contains_key(&s[0]) {
                    let v = s[0];
                    let d = doms.get(v as usize).copied().flatten().unwrap_or(FULL);
                    let tt = ar.truth(t, v);
                    if d_empty(&d_and(&d, &d_not(&tt))) { return Some(true); }
                    if d_empty(&d_and(&d, &tt)) { return Some(false); }
                }
                None
            };
            // the path's conditions under each other
            let mut more = vec![];
            let none = HashMap::new();
            for k in st.cons.clone() {
                if !self.ar.has_float[k as usize] && !self.ar.varset(k).iter().any(|v| vs.contains(v)) { continue; }
                let n = self.ar.subst_inside(k, &none, &mut know);
                if n != k && self.ar.k(n) != Some(1) && !st.cons.contains(&n) { more.push(n); }
                if let Some(n) = self.numeric_cons(st, k) { if self.ar.k(n) != Some(1) && !st.cons.contains(&n) { more.push(n); } }
            }
            let mut memo = HashMap::new();
            let (nx, ny) = (self.ar.subst(x, &map, &mut know, &mut memo), self.ar.subst(y, &map, &mut know, &mut memo));
            let learnt = !more.is_empty() && learn < 6;
            learn += learnt as u32;
            for n in more { if !self.push(st, n) { return Err(Stop::Kill); } }
            if learnt || (nx, ny) != (x, y) { x = nx; y = ny; continue; }
            let prod: u64 = split.iter().fold(1u64, |a, b| a.saturating_mul(b.1 as u64));
            if !split.is_empty() && prod <= 128 {
                for (v, _) in split { let t = self.ar.var_term(v); self.force(st, &Val::S(t), 8)?; }
                continue;
            }
            if !zeros.is_empty() {
                for t in zeros { let z = self.ar.c(0, 64); let e = self.ar.eq(t, z); if !self.decide(st, e)? { let s = self.ar.c(term::SIGN, 64); let e = self.ar.eq(t, s); if !self.push(st, e) { return Err(Stop::Kill); } } }
                continue;
            }
            // numerically different only where a denominator is zero?
            if !bits && asked < 4 {
                let mut d = vec![];
                let mut seen = Default::default();
                self.ar.fzero_sensitive(x, &mut d, &mut seen); self.ar.fzero_sensitive(y, &mut d, &mut seen);
                d.retain(|t| self.ar.fnum0(*t) != *t && { let z = self.ar.fzero(*t); let n = self.ar.not(z); self.ar.k(z).is_none() && !cons.contains(&z) && !cons.contains(&n) || self.ar.k(z) == Some(1) && !map.contains_key(t) });
                asked += 1;
                if !d.is_empty() {
                    for t in d {
                        let z = self.ar.fzero(t);
                        if self.ar.k(z).is_none() { self.decide(st, z)?; continue; }
                        let z = self.ar.c(0, 64); let e = self.ar.eq(t, z);
                        if !self.decide(st, e)? { let s = self.ar.c(term::SIGN, 64); let e = self.ar.eq(t, s); if !self.push(st, e) { return Err(Stop::Kill); } }
                    }
                    continue;
                }
            }
            // a case split on a condition inside the values
            if splits < 6 {
                let mut cs = vec![];
                self.ite_conds(x, &mut cs, &mut Default::default()); self.ite_conds(y, &mut cs, &mut Default::default());
                cs.retain(|c| !cons.contains(c) && { let n = self.ar.not(*c); !cons.contains(&n) });
                if let Some(t) = cs.first() { splits += 1; let t = *t; self.decide(st, t)?; continue; }
            }
            if std::env::var("SYMX_CONS").is_ok() { eprintln!("STUCK asked {asked} splits {splits} learn {learn} {}\n  X {}\n  Y {}", self.ar.show(c, 8), self.ar.show(x, 8), self.ar.show(y, 8)); for c in &st.cons { eprintln!("    {}", self.ar.show(*c, 14)); } }
            return Ok(c);
        }
        Ok(if bits { self.ar.fsame(x, y) } else { let (p, q) = self.fnum_path(st, x, y); self.ar.fsim(p, q) })
    }
    fn check(&mut self, st: &mut St, c: T, tag: u64) -> X<()> {
        self.js[st.job].checks += 1;
        if self.ar.k(c) == Some(1) || st.cons.contains(&c) { self.js[st.job].trivial += 1; return Ok(()); }
        let nc = self.ar.not(c);
        if self.ar.k(c) == Some(0) || true {
            let extra: Vec<T> = if self.ar.k(nc) == Some(1) { vec![] } else { vec![nc] };
            let quick = if extra.is_empty() { Res::Unknown } else if let Some(v) = self.single_byte(c) {
                let tt = self.ar.truth(c, v); let d = self.dom(st, v);
                if d_empty(&d_and(&d, &d_not(&tt))) { Res::Unsat } else { Res::Unknown }
            } else { Res::Unknown };
            if quick != Res::Unsat {
                let (r, m, ex) = self.settle(st, &extra);
                match r {
                    Res::Unsat => {}
                    Res::Sat => self.cand(st, "check", tag, format!("in {}", self.where_(st)), &m.unwrap(), true, ex),
                    Res::Unknown => self.inconclusive(st, &format!("check {tag}: {}", self.ar.show(c, 14))),
                }
            }
        }
        // continue under the assumption that it held
        if self.ar.k(c).is_none() { self.audit(st, &[nc]); } else if self.ar.k(c) == Some(0) { self.audit(st, &[]); }
        if self.ar.k(c) == Some(0) { return Err(Stop::Kill); }
        if !self.push(st, c) { return Err(Stop::Kill); }
        if let Some(m) = st.model.clone() { if self.ar.eval(c, &m, &mut HashMap::new()) == 0 { st.model = None; if self.sat(st, &[c]).0 == Res::Unsat { return Err(Stop::Kill); } } }
        else if self.sat(st, &[c]).0 == Res::Unsat { return Err(Stop::Kill); }
        Ok(())
    }
    fn inconclusive(&mut self, st: &St, msg: &str) {
        self.cut(st, None);
        if std::env::var("SYMX_CONS").is_ok() { eprintln!("INC {msg}"); for c in &st.cons { eprintln!("    {}", self.ar.show(*c, 14)); } }
        let b: Vec<(u32, u8)> = st.doms.iter().enumerate().filter_map(|(i, d)| d.as_ref().map(|d| (self.ar.var_kind[i].1, st.model.as_ref().and_then(|m| m.get(&(i as u32)).map(|x| *x as u8)).unwrap_or(d_min(d) as u8)))).collect();
        let mut b = b; b.sort();
        let msg = &format!("{msg} [{}]", b.iter().map(|x| x.1 as char).collect::<String>());
        let j = &mut self.js[st.job];
        j.ninc += 1;
        if j.inconclusive.len() < 10 { j.inconclusive.push(msg.chars().take(3000).collect()); }
    }
    fn cand(&mut self, st: &St, kind: &str, tag: u64, msg: String, m: &Model, confirmed: bool, exact: bool) {
        let inputs = self.inputs(m);
        let j = &mut self.js[st.job];
        j.ncand += 1;
        if j.cands.iter().filter(|c| c.kind == kind && c.tag == tag.to_string()).count() < 12 { j.cands.push(Cand { kind: kind.into(), tag: tag.to_string(), msg, inputs, confirmed, exact }); }
        if j.ncand >= self.sh.max_cands && !self.sh.stop.load(Ordering::Relaxed) { /* enough evidence: finish early */ self.sh.stop.store(true, Ordering::Relaxed); }
    }
    fn event(&mut self, st: &mut St, kind: String, msg: String) {
        self.js[st.job].events += 1;
        let (r, m, ex) = self.settle(st, &[]);
        if std::env::var("SYMX_DEBUG").is_ok() { eprintln!("event {kind} {msg} {r:?}"); for c in &st.cons { eprintln!("    {}", self.ar.show(*c, 8)); } }
        match r {
            Res::Unsat => self.js[st.job].killed += 1,
            Res::Sat => self.cand(st, &kind, 0, msg, &m.unwrap(), true, ex),
            Res::Unknown => self.inconclusive(st, &format!("{kind}: {msg}")),
        }
    }
    /// some inputs of a path that could not be followed to its end, for the real code
    fn cut(&mut self, st: &St, m: Option<Model>) {
        let cap = 40;
        for k in 0..4 {
            if self.js[st.job].cuts.len() >= cap { let i = (self.rnd() % (self.js[st.job].unsup + 1)) as usize; if i >= cap { continue; } self.js[st.job].cuts.swap_remove(i); }
            let mut b = match &m { Some(m) => m.clone(), None => self.base_model(st) };
            if k > 0 {
                self.vary(st, &mut b);
                if k == 3 { for v in 0..self.ar.var_kind.len() as u32 { if self.ar.var_kind[v as usize].0 == VKind::Float { let g = [0.0, -0.0, 1.0, f64::INFINITY, f64::NAN, 1e308, -1e-308, 3.0, -7.0][(self.rnd() % 9) as usize]; b.insert(v, f64::to_bits(g) as u128); } } }
                if !self.holds(st, &b, &[]) { continue; }
            }
            let i = self.inputs(&b);
            if !self.js[st.job].cuts.contains(&i) { self.js[st.job].cuts.push(i); }
        }
    }
    /// random values: bytes from their domains, floats generic
    fn vary(&mut self, st: &St, m: &mut Model) {
        for (i, d) in st.doms.iter().enumerate() { if let Some(d) = d { let c = d_count(d); let mut k = (self.rnd() % c as u64) as u32; for v in 0..256 { if d_has(d, v) { if k == 0 { m.insert(i as u32, v as u128); break; } k -= 1; } } } }
        for v in 0..self.ar.var_kind.len() as u32 { if self.ar.var_kind[v as usize].0 == VKind::Float { let g = [1.6875, 2.5, 3.25, -0.375, 7.0][(self.rnd() % 5) as usize] + v as f64 * 0.125; m.insert(v, f64::to_bits(g) as u128); } }
    }
    fn sample(&mut self, st: &St) {
        let cap = self.sh.nsamples;
        if cap == 0 { return; }
        let n = self.js[st.job].paths;
        let slot = if self.js[st.job].samples.len() < cap { None } else { let k = (self.rnd() % n.max(1)) as usize; if k >= cap { return; } Some(k) };
        let mut m = self.base_model(st);
        self.vary(st, &mut m);
        if !self.holds(st, &m, &[]) {
            let doms: Vec<(u32, [u64; 4])> = st.doms.iter().enumerate().filter_map(|(i, d)| d.map(|d| (i as u32, d))).collect();
            let vars: Vec<u32> = (0..self.ar.var_kind.len() as u32).filter(|v| { let k = self.ar.var_kind[*v as usize].0; k != VKind::Byte || st.doms.get(*v as usize).copied().flatten().is_some() }).collect();
            let (r, mm) = self.z.check(&self.ar, &st.cons, &doms, false, Some(&vars));
            match (r, mm) { (Res::Sat, Some(x)) => { match self.confirm(st, &x, &[]) { Some(c) => m = c, None => return } } _ => return }
        }
        let mut memo = HashMap::new();
        let outs = st.outs.iter().zip(&st.outk).map(|(v, k)| (*k, match v { Val::C(k) => *k, Val::S(t) => self.ar.eval(*t, &m, &mut memo), _ => 0 })).collect();
        let s = Sample { inputs: self.inputs(&m), outs, covers: st.covers.clone() };
        let v = &mut self.js[st.job].samples;
        match slot { None => v.push(s), Some(k) => v[k] = s }
    }

    // -------------------------------------------------------------- driving
    fn initial(&mut self, job: usize, prefix: Vec<Tr>) -> Result<St, String> {
        let e = &self.sh.jobs[job].entry;
        let f = *self.p.m.fidx.get(e).ok_or(format!("no entry {e}"))?;
        let fu = &self.p.m.funcs[f as usize];
        if fu.decl { return Err(format!("entry is a declaration: {}", fu.name)); }
        Ok(St { job, cur: Frame { f, blk: 0, pc: 0, regs: vec![Val::C(0); fu.nregs as usize], sbase: 0, dst: None, inv: None, catch: false }, stack: vec![], sobjs: vec![], heap: vec![], glob: BTreeMap::new(), cons: vec![], doms: vec![], single: 0, model: Some(Rc::new(Model::new())), trail: vec![], mark: 0, snap: None, picks: vec![], replay: prefix.into(), outs: vec![], outk: vec![], covers: vec![], steps: 0, maybe_spurious: false, frozen: 0, atomic: false, locked: false, other: None, within: None })
    }
    fn to_item(st: &St) -> Item { let mut p = st.trail.clone(); p.extend(st.replay.iter().copied()); Item { job: st.job, prefix: p } }
    fn run_state(&mut self, mut st: St) {
        let p = self.p;
        let mut since = 0u32;
        let mut lastq = self.z.queries;
        loop {
            let f = &p.m.funcs[st.cur.f as usize];
            let ins = &f.blocks[st.cur.blk as usize].ins[st.cur.pc as usize];
            st.mark = st.trail.len();
            st.snap = None;
            st.steps += 1;
            self.steps += 1;
            since += 1;
            if since >= 20000 || self.z.queries != lastq {
                if since >= 20000 { since = 0; }
                lastq = self.z.queries;
                if self.sh.stop.load(Ordering::Relaxed) { self.pend.push(st); return; }
                if Instant::now() > self.sh.deadline { self.sh.stop.store(true, Ordering::Relaxed); self.pend.push(st); return; }
                if since == 0 { self.donate(); }
            }
            let r = self.step(&mut st, ins);
            match r {
                Ok(()) => { if st.steps > self.sh.max_steps { self.audit(&st, &[]); self.cut(&st, None); let w = self.where_(&st); self.js[st.job].unsup += 1; *self.js[st.job].unsups.entry(format!("step limit in {w}")).or_default() += 1; return; } }
                Err(Stop::Kill) => { self.js[st.job].killed += 1; return; }
                Err(Stop::Done) => {
                    self.audit(&st, &[]);
                    let j = &mut self.js[st.job];
                    j.paths += 1; j.steps += st.steps;
                    for c in &st.covers { *j.covers.entry(*c).or_default() += 1; }
                    self.sample(&st);
                    return;
                }
                Err(Stop::Event(k, m)) => { self.audit(&st, &[]); self.event(&mut st, k, m); return; }
                Err(Stop::Unsup(m)) => {
                    self.audit(&st, &[]);
                    // an infeasible path cannot matter
                    let (r, md, _) = self.settle(&st, &[]);
                    if r == Res::Unsat { self.js[st.job].killed += 1; return; }
                    self.cut(&st, md);
                    self.js[st.job].unsup += 1; *self.js[st.job].unsups.entry(m).or_default() += 1; return;
                }
            }
        }
    }
    fn donate(&mut self) {
        if self.pend.is_empty() ||  self.sh.idle.load(Ordering::Relaxed) == 0 { return; }
        let mut q = self.sh.queue.lock().unwrap();
        if q.0.iter().map(|x| x.len()).sum::<usize>() > 16 { return; }
        let n = ((self.pend.len() + 1) / 2).min(8);
        for st in self.pend.drain(..n) { let it = Self::to_item(&st); q.0[it.job].push_back(it); }
        self.sh.cv.notify_all();
    }
    fn flush(&mut self) {
        let mut g = self.sh.stats.lock().unwrap();
        for (a, b) in g.iter_mut().zip(self.js.iter_mut()) {
            let b = std::mem::take(b);
            a.paths += b.paths; a.killed += b.killed; a.forks += b.forks; a.checks += b.checks; a.trivial += b.trivial; a.events += b.events; a.unsup += b.unsup; a.ninc += b.ninc; a.ncand += b.ncand; a.abandoned += b.abandoned; a.steps += b.steps; a.hit |= b.hit;
            for (k, v) in b.seen { a.seen.insert(k, v); }
            for (k, v) in b.covers { *a.covers.entry(k).or_default() += v; }
            for (k, v) in b.unsups { *a.unsups.entry(k).or_default() += v; }
            a.inconclusive.extend(b.inconclusive); a.cands.extend(b.cands); a.samples.extend(b.samples); a.cuts.extend(b.cuts);
        }
    }
    pub fn work(&mut self, api: &'static Api) {
        let dbg = std::env::var("SYMX_DEBUG").is_ok();
        loop {
            // take an item
            let it = {
                let mut q = self.sh.queue.lock().unwrap();
                loop {
                    if self.sh.stop.load(Ordering::Relaxed) { break None; }
                    if let Some(x) = q.0.iter_mut().find_map(|v| v.pop_front()) { q.1 += 1; break Some(x); }
                    if q.1 == 0 { self.sh.cv.notify_all(); break None; }
                    self.sh.idle.fetch_add(1, Ordering::Relaxed);
                    let (g, _) = self.sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap();
                    self.sh.idle.fetch_sub(1, Ordering::Relaxed);
                    q = g;
                    if Instant::now() > self.sh.deadline { self.sh.stop.store(true, Ordering::Relaxed); }
                }
            };
            let Some(it) = it else { break };
            let job = it.job;
            match self.initial(it.job, it.prefix) {
                Ok(s) => self.pend.push(s),
                Err(e) => { self.js[job].unsup += 1; *self.js[job].unsups.entry(e).or_default() += 1; }
            }
            while let Some(s) = self.pend.pop() {
                self.run_state(s);
                if self.sh.stop.load(Ordering::Relaxed) { break; }
                if self.pend.len() > 1 { self.donate(); }
                if self.ar.nodes.len() > 6_000_000 {
                    // start over with fresh terms
                    let items: Vec<Item> = self.pend.drain(..).map(|s| Self::to_item(&s)).collect();
                    self.save_solver();
                    self.ar = Arena::new(); self.qcache.clear(); self.vmask.clear();
                    self.z = Z3::new(api, self.sh.tmo.0, self.sh.tmo.1);
                    if dbg { eprintln!("arena reset, {} states requeued", items.len()); }
                    let mut q = self.sh.queue.lock().unwrap();
                    for it in items { q.0[it.job].push_back(it); }
                }
            }
            let left: Vec<usize> = self.pend.drain(..).map(|s| s.job).collect();
            for j in left { self.js[j].abandoned += 1; }
            let mut q = self.sh.queue.lock().unwrap();
            q.1 -= 1;
            if q.1 == 0 { self.sh.cv.notify_all(); }
        }
        self.flush();
        self.save_solver();
        let mut f = self.sh.funcs_run.lock().unwrap();
        for (i, b) in self.ran.iter().enumerate() { if *b { f.insert(i as u32); } }
    }
    fn save_solver(&mut self) {
        let mut s = self.sh.solver.lock().unwrap();
        s.queries += self.z.queries; s.exact += self.z.exact_queries; s.unknown += self.z.unknowns; s.nanos += self.z.nanos; s.max = s.max.max(self.z.max_nanos); s.cached += self.cached; s.domain += self.domain; s.version = self.z.version.clone(); s.steps += self.steps;
        self.z.queries = 0; self.z.exact_queries = 0; self.z.unknowns = 0; self.z.nanos = 0; self.cached = 0; self.domain = 0; self.steps = 0;
    }
}

pub enum ObjRef<'a> { G(&'a [u8]), O(&'a Obj) }

pub fn first(job: usize) -> Item { Item { job, prefix: vec![] } }
