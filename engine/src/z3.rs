//! z3 through its C API, loaded at run time.
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> P;
    fn dlsym(h: P, s: *const c_char) -> P;
}

macro_rules! api {
    ($($n:ident ( $($a:ty),* ) $(-> $r:ty)? ;)*) => {
        #[allow(non_snake_case)]
        pub struct Api { $( $n: unsafe extern "C" fn($($a),*) $(-> $r)?, )* }
        impl Api {
            unsafe fn load(h: P) -> Result<Api, String> {
                $( let $n = { let s = CString::new(stringify!($n)).unwrap(); let p = dlsym(h, s.as_ptr()); if p.is_null() { return Err(format!("missing {}", stringify!($n))); } p }; )*
                Ok(Api { $( $n: std::mem::transmute::<P, unsafe extern "C" fn($($a),*) $(-> $r)?>($n), )* })
            }
        }
    };
}
api! {
    Z3_mk_config() -> P;
    Z3_set_param_value(P, *const c_char, *const c_char);
    Z3_mk_context(P) -> P;
    Z3_del_context(P);
    Z3_del_config(P);
    Z3_set_error_handler(P, Option<unsafe extern "C" fn(P, c_uint)>);
    Z3_get_full_version() -> *const c_char;
    Z3_mk_string_symbol(P, *const c_char) -> P;
    Z3_mk_bv_sort(P, c_uint) -> P;
    Z3_mk_const(P, P, P) -> P;
    Z3_mk_func_decl(P, P, c_uint, *const P, P) -> P;
    Z3_mk_app(P, P, c_uint, *const P) -> P;
    Z3_mk_numeral(P, *const c_char, P) -> P;
    Z3_mk_true(P) -> P;
    Z3_mk_false(P) -> P;
    Z3_mk_not(P, P) -> P;
    Z3_mk_and(P, c_uint, *const P) -> P;
    Z3_mk_or(P, c_uint, *const P) -> P;
    Z3_mk_xor(P, P, P) -> P;
    Z3_mk_eq(P, P, P) -> P;
    Z3_mk_ite(P, P, P, P) -> P;
    Z3_mk_bvnot(P, P) -> P;
    Z3_mk_bvand(P, P, P) -> P;
    Z3_mk_bvor(P, P, P) -> P;
    Z3_mk_bvxor(P, P, P) -> P;
    Z3_mk_bvadd(P, P, P) -> P;
    Z3_mk_bvmul(P, P, P) -> P;
    Z3_mk_bvudiv(P, P, P) -> P;
    Z3_mk_bvurem(P, P, P) -> P;
    Z3_mk_bvsdiv(P, P, P) -> P;
    Z3_mk_bvsrem(P, P, P) -> P;
    Z3_mk_bvshl(P, P, P) -> P;
    Z3_mk_bvlshr(P, P, P) -> P;
    Z3_mk_bvashr(P, P, P) -> P;
    Z3_mk_bvult(P, P, P) -> P;
    Z3_mk_bvule(P, P, P) -> P;
    Z3_mk_bvslt(P, P, P) -> P;
    Z3_mk_bvsle(P, P, P) -> P;
    Z3_mk_concat(P, P, P) -> P;
    Z3_mk_extract(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext(P, c_uint, P) -> P;
    Z3_mk_sign_ext(P, c_uint, P) -> P;
    Z3_mk_fpa_sort_double(P) -> P;
    Z3_mk_fpa_sort_single(P) -> P;
    Z3_mk_fpa_to_fp_float(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_bv(P, P, P) -> P;
    Z3_mk_fpa_to_ieee_bv(P, P) -> P;
    Z3_mk_fpa_rne(P) -> P;
    Z3_mk_fpa_rtz(P) -> P;
    Z3_mk_fpa_rtp(P) -> P;
    Z3_mk_fpa_rtn(P) -> P;
    Z3_mk_fpa_rna(P) -> P;
    Z3_mk_fpa_add(P, P, P, P) -> P;
    Z3_mk_fpa_mul(P, P, P, P) -> P;
    Z3_mk_fpa_div(P, P, P, P) -> P;
    Z3_mk_fpa_sqrt(P, P, P) -> P;
    Z3_mk_fpa_round_to_integral(P, P, P) -> P;
    Z3_mk_fpa_to_fp_unsigned(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_signed(P, P, P, P) -> P;
    Z3_mk_fpa_to_ubv(P, P, P, c_uint) -> P;
    Z3_mk_fpa_to_sbv(P, P, P, c_uint) -> P;
    Z3_mk_simple_solver(P) -> P;
    Z3_mk_solver(P) -> P;
    Z3_solver_inc_ref(P, P);
    Z3_solver_push(P, P);
    Z3_solver_pop(P, P, c_uint);
    Z3_solver_reset(P, P);
    Z3_solver_assert(P, P, P);
    Z3_solver_check(P, P) -> c_int;
    Z3_solver_get_model(P, P) -> P;
    Z3_model_inc_ref(P, P);
    Z3_model_dec_ref(P, P);
    Z3_model_eval(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_string(P, P) -> *const c_char;
    Z3_mk_params(P) -> P;
    Z3_params_inc_ref(P, P);
    Z3_params_set_uint(P, P, P, c_uint);
    Z3_solver_set_params(P, P, P);
    Z3_solver_to_string(P, P) -> *const c_char;
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Res { Sat, Unsat, Unknown }

pub struct Z3 {
    a: &'static Api,
    c: P,
    s: P,
    sx: P,
    bvs: HashMap<(T, bool), P>,
    bools: HashMap<(T, bool), P>,
    sorts: HashMap<u32, P>,
    decls: HashMap<(String, usize), P>,
    pub queries: u64,
    pub exact_queries: u64,
    pub unknowns: u64,
    pub nanos: u128,
    pub max_nanos: u128,
    pub version: String,
    created: usize,
    tmo: (u32, u32),
    slow: u64,
}

static mut ERR: bool = false;
unsafe extern "C" fn on_err(_c: P, code: c_uint) { ERR = true; eprintln!("z3 error {code}"); }

pub fn load() -> Result<&'static Api, String> {
    let cands = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so", "libz3.so.4", "libz3.so", "/usr/lib/x86_64-linux-gnu/libz3.so"];
    for p in cands {
        let s = CString::new(p).unwrap();
        let h = unsafe { dlopen(s.as_ptr(), 2) };
        if h.is_null() { continue; }
        match unsafe { Api::load(h) } { Ok(a) => return Ok(Box::leak(Box::new(a))), Err(e) => eprintln!("{p}: {e}") }
    }
    Err("no libz3".into())
}

impl Z3 {
    pub fn new(a: &'static Api, tmo: u32, tmo_exact: u32) -> Z3 {
        unsafe {
            let cfg = (a.Z3_mk_config)();
            let c = (a.Z3_mk_context)(cfg);
            (a.Z3_set_error_handler)(c, Some(on_err));
            (a.Z3_del_config)(cfg);
            let version = CStr::from_ptr((a.Z3_get_full_version)()).to_string_lossy().to_string();
            let mut z = Z3 { a, c, s: std::ptr::null_mut(), sx: std::ptr::null_mut(), bvs: HashMap::new(), bools: HashMap::new(), sorts: HashMap::new(), decls: HashMap::new(), queries: 0, exact_queries: 0, unknowns: 0, nanos: 0, max_nanos: 0, version, created: 0, tmo: (tmo, tmo_exact), slow: std::env::var("SYMX_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(0) };
            z.mk_solvers();
            z
        }
    }
    unsafe fn mk_solvers(&mut self) {
        let (a, c) = (self.a, self.c);
        let s = (a.Z3_mk_simple_solver)(c); (a.Z3_solver_inc_ref)(c, s);
        let sx = (a.Z3_mk_solver)(c); (a.Z3_solver_inc_ref)(c, sx);
        self.s = s; self.sx = sx;
        self.set_tmo(s, self.tmo.0); self.set_tmo(sx, self.tmo.1);
    }
    unsafe fn set_tmo(&self, s: P, ms: u32) {
        let p = (self.a.Z3_mk_params)(self.c);
        (self.a.Z3_params_inc_ref)(self.c, p);
        let n = CString::new("timeout").unwrap();
        let sy = (self.a.Z3_mk_string_symbol)(self.c, n.as_ptr());
        (self.a.Z3_params_set_uint)(self.c, p, sy, ms);
        (self.a.Z3_solver_set_params)(self.c, s, p);
    }
    /// drop everything when the context has grown large
    fn recycle(&mut self) {
        unsafe {
            (self.a.Z3_del_context)(self.c);
            let cfg = (self.a.Z3_mk_config)();
            self.c = (self.a.Z3_mk_context)(cfg);
            (self.a.Z3_set_error_handler)(self.c, Some(on_err));
            (self.a.Z3_del_config)(cfg);
            self.bvs.clear(); self.bools.clear(); self.sorts.clear(); self.decls.clear();
            self.created = 0;
            self.mk_solvers();
        }
    }
    fn sort(&mut self, w: u32) -> P { let (a, c) = (self.a, self.c); *self.sorts.entry(w).or_insert_with(|| unsafe { (a.Z3_mk_bv_sort)(c, w) }) }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        let n = CString::new(v.to_string()).unwrap();
        unsafe { (self.a.Z3_mk_numeral)(self.c, n.as_ptr(), s) }
    }
    fn uf(&mut self, name: &str, ws: &[u32], rw: u32, args: &[P]) -> P {
        let k = (name.to_string(), ws.len());
        let d = if let Some(d) = self.decls.get(&k) { *d } else {
            let so: Vec<P> = ws.iter().map(|w| self.sort(*w)).collect();
            let r = self.sort(rw);
            let n = CString::new(format!("{name}_{}", ws.len())).unwrap();
            let d = unsafe { let sy = (self.a.Z3_mk_string_symbol)(self.c, n.as_ptr()); (self.a.Z3_mk_func_decl)(self.c, sy, so.len() as u32, so.as_ptr(), r) };
            self.decls.insert(k, d);
            d
        };
        unsafe { (self.a.Z3_mk_app)(self.c, d, args.len() as u32, args.as_ptr()) }
    }
    fn and(&self, v: &[P]) -> P { unsafe { (self.a.Z3_mk_and)(self.c, v.len() as u32, v.as_ptr()) } }
    fn or(&self, v: &[P]) -> P { unsafe { (self.a.Z3_mk_or)(self.c, v.len() as u32, v.as_ptr()) } }
    fn notp(&self, x: P) -> P { unsafe { (self.a.Z3_mk_not)(self.c, x) } }

    fn nan_p(&mut self, a: P) -> P { let m = self.num(ABSM, 64); let e = self.num(EXPM, 64); unsafe { let x = (self.a.Z3_mk_bvand)(self.c, a, m); (self.a.Z3_mk_bvult)(self.c, e, x) } }
    fn zero_p(&mut self, a: P) -> P { let m = self.num(ABSM, 64); let z = self.num(0, 64); unsafe { let x = (self.a.Z3_mk_bvand)(self.c, a, m); (self.a.Z3_mk_eq)(self.c, x, z) } }
    fn neg_p(&mut self, a: P) -> P { let o = self.num(1, 1); unsafe { let x = (self.a.Z3_mk_extract)(self.c, 63, 63, a); (self.a.Z3_mk_eq)(self.c, x, o) } }
    fn flt_p(&mut self, a: P, b: P) -> P {
        let na = self.nan_p(a); let nb = self.nan_p(b); let za = self.zero_p(a); let zb = self.zero_p(b);
        let sa = self.neg_p(a); let sb = self.neg_p(b);
        unsafe {
            let c = self.c;
            let lt = (self.a.Z3_mk_bvult)(c, a, b); let gt = (self.a.Z3_mk_bvult)(c, b, a);
            let bz = self.and(&[za, zb]);
            let o1 = self.and(&[sa, self.notp(sb)]);
            let o2 = self.and(&[self.notp(sa), self.notp(sb), lt]);
            let o3 = self.and(&[sa, sb, gt]);
            let o = self.or(&[o1, o2, o3]);
            self.and(&[self.notp(na), self.notp(nb), self.notp(bz), o])
        }
    }
    fn feq_p(&mut self, a: P, b: P) -> P {
        let na = self.nan_p(a); let nb = self.nan_p(b); let za = self.zero_p(a); let zb = self.zero_p(b);
        unsafe {
            let e = (self.a.Z3_mk_eq)(self.c, a, b);
            let z = self.and(&[za, zb]);
            let o = self.or(&[e, z]);
            self.and(&[self.notp(na), self.notp(nb), o])
        }
    }

    pub fn boolean(&mut self, ar: &Arena, t: T, ex: bool) -> P {
        if let Some(p) = self.bools.get(&(t, ex)) { return *p; }
        let n = ar.nodes[t as usize].clone();
        assert_eq!(n.w, 1);
        let c = self.c; let a = self.a;
        let r = unsafe {
            match n.op {
                Op::Const => if n.aux != 0 { (a.Z3_mk_true)(c) } else { (a.Z3_mk_false)(c) },
                Op::Not => { let x = self.boolean(ar, n.args[0], ex); (a.Z3_mk_not)(c, x) }
                Op::And => { let x = self.boolean(ar, n.args[0], ex); let y = self.boolean(ar, n.args[1], ex); self.and(&[x, y]) }
                Op::Or => { let x = self.boolean(ar, n.args[0], ex); let y = self.boolean(ar, n.args[1], ex); self.or(&[x, y]) }
                Op::Xor => { let x = self.boolean(ar, n.args[0], ex); let y = self.boolean(ar, n.args[1], ex); (a.Z3_mk_xor)(c, x, y) }
                Op::Ite => { let x = self.boolean(ar, n.args[0], ex); let y = self.boolean(ar, n.args[1], ex); let z = self.boolean(ar, n.args[2], ex); (a.Z3_mk_ite)(c, x, y, z) }
                Op::Eq if ar.w(n.args[0]) == 1 => { let x = self.boolean(ar, n.args[0], ex); let y = self.boolean(ar, n.args[1], ex); (a.Z3_mk_eq)(c, x, y) }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe => {
                    let x = self.bv(ar, n.args[0], ex); let y = self.bv(ar, n.args[1], ex);
                    match n.op {
                        Op::Eq => (a.Z3_mk_eq)(c, x, y), Op::Ult => (a.Z3_mk_bvult)(c, x, y), Op::Ule => (a.Z3_mk_bvule)(c, x, y),
                        Op::Slt => (a.Z3_mk_bvslt)(c, x, y), Op::Sle => (a.Z3_mk_bvsle)(c, x, y),
                        Op::FEq => self.feq_p(x, y), Op::FLt => self.flt_p(x, y),
                        _ => { let l = self.flt_p(x, y); let e = self.feq_p(x, y); self.or(&[l, e]) }
                    }
                }
                Op::FNan => { let x = self.bv(ar, n.args[0], ex); self.nan_p(x) }
                _ => { // a one-bit bit-vector
                    let x = self.bv(ar, t, ex);
                    let o = self.num(1, 1);
                    (a.Z3_mk_eq)(c, x, o)
                }
            }
        };
        self.created += 1;
        self.bools.insert((t, ex), r);
        r
    }
    unsafe fn fp(&self, x: P) -> P { (self.a.Z3_mk_fpa_to_fp_bv)(self.c, x, (self.a.Z3_mk_fpa_sort_double)(self.c)) }
    unsafe fn ieee(&self, x: P) -> P { (self.a.Z3_mk_fpa_to_ieee_bv)(self.c, x) }

    pub fn bv(&mut self, ar: &Arena, t: T, ex: bool) -> P {
        if let Some(p) = self.bvs.get(&(t, ex)) { return *p; }
        let n = ar.nodes[t as usize].clone();
        let c = self.c; let a = self.a;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.aux, n.w),
                Op::Var => {
                    let s = self.sort(n.w);
                    let nm = CString::new(format!("v{}", n.aux)).unwrap();
                    let sy = (a.Z3_mk_string_symbol)(c, nm.as_ptr());
                    (a.Z3_mk_const)(c, sy, s)
                }
                Op::Extract => { let x = self.bv(ar, n.args[0], ex); (a.Z3_mk_extract)(c, n.aux as u32 + n.w - 1, n.aux as u32, x) }
                Op::ZExt => { let iw = ar.w(n.args[0]); let x = self.bv(ar, n.args[0], ex); (a.Z3_mk_zero_ext)(c, n.w - iw, x) }
                Op::SExt => { let iw = ar.w(n.args[0]); let x = self.bv(ar, n.args[0], ex); (a.Z3_mk_sign_ext)(c, n.w - iw, x) }
                Op::Ite if n.w > 1 => { let x = self.boolean(ar, n.args[0], ex); let y = self.bv(ar, n.args[1], ex); let z = self.bv(ar, n.args[2], ex); (a.Z3_mk_ite)(c, x, y, z) }
                Op::Table => {
                    let (ew, vals) = ar.tables[n.aux as usize].clone();
                    let ix = self.bv(ar, n.args[0], ex);
                    let iw = ar.w(n.args[0]);
                    let mut r = self.num(vals[vals.len() - 1], ew);
                    for (i, v) in vals.iter().enumerate().rev().skip(1) {
                        let k = self.num(i as u128, iw);
                        let e = (a.Z3_mk_eq)(c, ix, k);
                        let v = self.num(*v, ew);
                        r = (a.Z3_mk_ite)(c, e, v, r);
                    }
                    r
                }
                _ if n.w == 1 && matches!(n.op, Op::Not | Op::And | Op::Or | Op::Xor | Op::Ite | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FNan) => {
                    let b = self.boolean(ar, t, ex);
                    let o = self.num(1, 1); let z = self.num(0, 1);
                    (a.Z3_mk_ite)(c, b, o, z)
                }
                Op::Not => { let x = self.bv(ar, n.args[0], ex); (a.Z3_mk_bvnot)(c, x) }
                Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr | Op::Concat => {
                    let x = self.bv(ar, n.args[0], ex); let y = self.bv(ar, n.args[1], ex);
                    let fun = match n.op { Op::And => a.Z3_mk_bvand, Op::Or => a.Z3_mk_bvor, Op::Xor => a.Z3_mk_bvxor, Op::Add => a.Z3_mk_bvadd, Op::Mul => a.Z3_mk_bvmul, Op::UDiv => a.Z3_mk_bvudiv, Op::URem => a.Z3_mk_bvurem, Op::SDiv => a.Z3_mk_bvsdiv, Op::SRem => a.Z3_mk_bvsrem, Op::Shl => a.Z3_mk_bvshl, Op::LShr => a.Z3_mk_bvlshr, Op::AShr => a.Z3_mk_bvashr, _ => a.Z3_mk_concat };
                    fun(c, x, y)
                }
                Op::FAdd | Op::FMul | Op::FDiv if ex => {
                    let x = self.bv(ar, n.args[0], ex); let y = self.bv(ar, n.args[1], ex);
                    let fun = match n.op { Op::FAdd => a.Z3_mk_fpa_add, Op::FMul => a.Z3_mk_fpa_mul, _ => a.Z3_mk_fpa_div };
                    let r = fun(c, (a.Z3_mk_fpa_rne)(c), self.fp(x), self.fp(y));
                    self.ieee(r)
                }
                Op::FUn if ex && n.aux <= 4 => {
                    let x = self.bv(ar, n.args[0], ex);
                    let x = self.fp(x);
                    let r = match n.aux { 0 => (a.Z3_mk_fpa_sqrt)(c, (a.Z3_mk_fpa_rne)(c), x), k => { let rm = match k { 1 => (a.Z3_mk_fpa_rtz)(c), 2 => (a.Z3_mk_fpa_rtn)(c), 3 => (a.Z3_mk_fpa_rtp)(c), _ => (a.Z3_mk_fpa_rna)(c) }; (a.Z3_mk_fpa_round_to_integral)(c, rm, x) } };
                    self.ieee(r)
                }
                Op::UiToF if ex => { let x = self.bv(ar, n.args[0], ex); let r = (a.Z3_mk_fpa_to_fp_unsigned)(c, (a.Z3_mk_fpa_rne)(c), x, (a.Z3_mk_fpa_sort_double)(c)); self.ieee(r) }
                Op::SiToF if ex => { let x = self.bv(ar, n.args[0], ex); let r = (a.Z3_mk_fpa_to_fp_signed)(c, (a.Z3_mk_fpa_rne)(c), x, (a.Z3_mk_fpa_sort_double)(c)); self.ieee(r) }
                Op::FTrunc if ex => { let x = self.bv(ar, n.args[0], ex); let r = (a.Z3_mk_fpa_to_fp_float)(c, (a.Z3_mk_fpa_rne)(c), self.fp(x), (a.Z3_mk_fpa_sort_single)(c)); self.ieee(r) }
                Op::FExt if ex => { let x = self.bv(ar, n.args[0], ex); let x = (a.Z3_mk_fpa_to_fp_bv)(c, x, (a.Z3_mk_fpa_sort_single)(c)); let r = (a.Z3_mk_fpa_to_fp_float)(c, (a.Z3_mk_fpa_rne)(c), x, (a.Z3_mk_fpa_sort_double)(c)); self.ieee(r) }
                Op::FToUi if ex => { let x = self.bv(ar, n.args[0], ex); (a.Z3_mk_fpa_to_ubv)(c, (a.Z3_mk_fpa_rtz)(c), self.fp(x), n.w) }
                Op::FToSi if ex => { let x = self.bv(ar, n.args[0], ex); (a.Z3_mk_fpa_to_sbv)(c, (a.Z3_mk_fpa_rtz)(c), self.fp(x), n.w) }
                _ => {
                    let mut ws = vec![]; let mut ps = vec![];
                    for x in &n.args { ws.push(ar.w(*x)); ps.push(self.bv(ar, *x, ex)); }
                    let nm = match n.op { Op::Uf => ar.ufs[n.aux as usize].clone(), Op::FUn => format!("fun_{}", FUN[n.aux as usize]), o => format!("{:?}_{}_{}", o, ws[0], n.w) };
                    self.uf(&nm, &ws, n.w, &ps)
                }
            }
        };
        self.created += 1;
        self.bvs.insert((t, ex), r);
        r
    }

    /// satisfiability of the conjunction; doms restricts byte variables
    pub fn check(&mut self, ar: &Arena, asserts: &[T], doms: &[(u32, [u64; 4])], ex: bool, want: Option<&[u32]>) -> (Res, Option<Model>) {
        if self.created > 3_000_000 { self.recycle(); }
        let t0 = std::time::Instant::now();
        let s = if ex { self.sx } else { self.s };
        let (res, model) = unsafe {
            let a = self.a;
            if ex { (a.Z3_solver_reset)(self.c, s); } else { (a.Z3_solver_push)(self.c, s); }
            for t in asserts { let p = self.boolean(ar, *t, ex); (a.Z3_solver_assert)(self.c, s, p); }
            for (v, m) in doms {
                if m.iter().all(|x| *x == !0) { continue; }
                let p = self.dom(ar, *v, m);
                (a.Z3_solver_assert)(self.c, s, p);
            }
            ERR = false;
            let r = (a.Z3_solver_check)(self.c, s);
            let mut res = match r { 1 => Res::Sat, -1 => Res::Unsat, _ => Res::Unknown };
            if ERR { res = Res::Unknown; }
            if self.slow > 0 && t0.elapsed().as_millis() as u64 > self.slow { eprintln!("SLOW {} ms ex={} {:?}\n{}", t0.elapsed().as_millis(), ex, res, CStr::from_ptr((a.Z3_solver_to_string)(self.c, s)).to_string_lossy()); }
            let mut model = None;
            if res == Res::Sat {
                if let Some(vars) = want {
                    let m = (a.Z3_solver_get_model)(self.c, s);
                    (a.Z3_model_inc_ref)(self.c, m);
                    let mut mm = Model::new();
                    for v in vars {
                        let t = ar.var_term(*v);
                        let p = self.bv(ar, t, ex);
                        let mut o: P = std::ptr::null_mut();
                        if (a.Z3_model_eval)(self.c, m, p, true, &mut o) {
                            let st = CStr::from_ptr((a.Z3_get_numeral_string)(self.c, o)).to_string_lossy().to_string();
                            mm.insert(*v, st.parse().unwrap_or(0));
                        }
                    }
                    (a.Z3_model_dec_ref)(self.c, m);
                    model = Some(mm);
                }
            }
            if !ex { (a.Z3_solver_pop)(self.c, s, 1); }
            (res, model)
        };
        let dt = t0.elapsed().as_nanos();
        self.nanos += dt;
        self.max_nanos = self.max_nanos.max(dt);
        self.queries += 1;
        if ex { self.exact_queries += 1; }
        if res == Res::Unknown { self.unknowns += 1; }
        (res, model)
    }
    fn dom(&mut self, ar: &Arena, v: u32, m: &[u64; 4]) -> P {
        let t = ar.var_term(v);
        let x = self.bv(ar, t, false);
        let mut parts = vec![];
        let bit = |i: u32| m[(i / 64) as usize] >> (i % 64) & 1 == 1;
        let mut i = 0;
        while i < 256 {
            if bit(i) {
                let st = i;
                while i < 256 && bit(i) { i += 1; }
                let lo = self.num(st as u128, 8); let hi = self.num(i as u128 - 1, 8);
                let p = unsafe { if st == i - 1 { (self.a.Z3_mk_eq)(self.c, x, lo) } else { let l = (self.a.Z3_mk_bvule)(self.c, lo, x); let h = (self.a.Z3_mk_bvule)(self.c, x, hi); self.and(&[l, h]) } };
                parts.push(p);
            } else { i += 1; }
        }
        self.or(&parts)
    }
}
