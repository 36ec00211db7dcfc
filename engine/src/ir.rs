//! LLVM textual IR: types, instructions and a parser for the subset rustc emits.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    F16,
    Vec(u64, Arc<Ty>),
    Arr(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Meta,
    Label,
    Fn,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F16 => 2,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F16 => 2,
            Ty::Vec(n, t) => match **t { Ty::Int(w) => (n * w as u64 + 7) / 8, _ => n * t.size() },
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    o += t.size();
                }
                if !*packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off on scalar"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize, _ => 0 }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self { Ty::Struct(f, _) => &f[i], Ty::Arr(_, t) | Ty::Vec(_, t) => t, _ => panic!("field") }
    }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..)) }
    /// bit width of a scalar
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::F16 => 16, _ => panic!("bits of {:?}", self) }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(u32),
    Agg(Arc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opnd { R(u32), C(Val) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, PtrInt, Bitcast, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Opnd,
    pub args: Vec<(Ty, Opnd)>,
    pub inv: Option<(u32, u32)>,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { dst: u32, op: BinOp, ty: Ty, a: Opnd, b: Opnd },
    FBin { dst: u32, op: FOp, ty: Ty, a: Opnd, b: Opnd },
    FNeg { dst: u32, ty: Ty, a: Opnd },
    ICmp { dst: u32, p: Pred, ty: Ty, a: Opnd, b: Opnd },
    FCmp { dst: u32, p: FPred, ty: Ty, a: Opnd, b: Opnd },
    Cast { dst: u32, op: CastOp, from: Ty, to: Ty, a: Opnd },
    Select { dst: u32, cty: Ty, ty: Ty, c: Opnd, a: Opnd, b: Opnd },
    Load { dst: u32, ty: Ty, p: Opnd, at: bool },
    Store { ty: Ty, v: Opnd, p: Opnd, at: bool },
    Gep { dst: u32, base: Opnd, off: i64, idx: Vec<(Opnd, u32, i64)> },
    Alloca { dst: u32, size: u64, align: u64 },
    Call(Box<CallI>),
    ExtractVal { dst: u32, a: Opnd, path: Vec<u32> },
    InsertVal { dst: u32, aty: Ty, a: Opnd, v: Opnd, path: Vec<u32> },
    ExtractElt { dst: u32, a: Opnd, i: Opnd },
    InsertElt { dst: u32, aty: Ty, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { dst: u32, aty: Ty, a: Opnd, b: Opnd, mask: Vec<i64> },
    Freeze { dst: u32, a: Opnd },
    LandingPad { dst: u32 },
    Rmw { dst: u32, op: String, ty: Ty, p: Opnd, v: Opnd },
    CmpXchg { dst: u32, ty: Ty, p: Opnd, c: Opnd, n: Opnd },
    Nop,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { w: u32, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opnd>),
    Resume(Opnd),
    Unreachable,
}

#[derive(Clone, Debug)]
pub struct Phi { pub dst: u32, pub inc: Vec<(u32, Opnd)> }

#[derive(Clone, Debug, Default)]
pub struct Block { pub phis: Vec<Phi>, pub ins: Vec<Ins> }

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nargs: usize,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub decl: bool,
    pub ret: Ty,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub size: u64,
    pub align: u64,
    pub init: Vec<u8>,
    pub constant: bool,
    pub tls: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
}

// address layout
pub const KIND_SHIFT: u32 = 44;
pub const IDX_SHIFT: u32 = 24;
pub const OFF_BASE: u64 = 0x10000;
pub const K_FUNC: u64 = 1;
pub const K_GLOBAL: u64 = 2;
pub const K_HEAP: u64 = 3;
pub const K_STACK: u64 = 4;
pub fn addr(kind: u64, idx: u64, off: u64) -> u64 { (kind << KIND_SHIFT) | (idx << IDX_SHIFT) | (OFF_BASE + off) }
pub fn func_addr(i: u32) -> u64 { addr(K_FUNC, i as u64, 0) }

struct Cur<'a> { s: &'a [u8], i: usize }
type R<T> = Result<T, String>;

impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Self { Cur { s: s.as_bytes(), i: 0 } }
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) { Ok(()) } else { Err(format!("expected '{}' at ...{}", c as char, self.rest())) }
    }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..]).chars().take(120).collect() }
    /// identifier-like word [A-Za-z0-9_.$-]
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' { self.i += 1; } else { break; }
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str { let k = self.i; let w = self.word(); self.i = k; w }
    fn eat_word(&mut self, w: &str) -> bool {
        let k = self.i;
        if self.word() == w { true } else { self.i = k; false }
    }
    /// name after % or @ (maybe quoted)
    fn name(&mut self) -> R<String> {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.i < self.s.len() && self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            return Ok(r);
        }
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' { self.i += 1; } else { break; }
        }
        if st == self.i { return Err(format!("name expected at {}", self.rest())); }
        Ok(String::from_utf8_lossy(&self.s[st..self.i]).to_string())
    }
    fn skip_parens(&mut self) {
        // at '(' : skip the balanced group
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.i += 1; return; } } b'"' => { self.i += 1; while self.i < self.s.len() && self.s[self.i] != b'"' { self.i += 1; } } _ => {} }
            self.i += 1;
        }
    }
}

fn parse_ty(c: &mut Cur, named: &HashMap<String, Ty>) -> R<Ty> {
    let t = match c.peek() {
        b'[' => {
            c.i += 1;
            let n: u64 = c.word().parse().map_err(|e| format!("{e:?}"))?;
            if !c.eat_word("x") { return Err("arr x".into()); }
            let t = parse_ty(c, named)?;
            c.expect(b']')?;
            Ty::Arr(n, Arc::new(t))
        }
        b'{' => { c.i += 1; parse_fields(c, named, b'}', false)? }
        b'<' => {
            c.i += 1;
            if c.peek() == b'{' { c.i += 1; let t = parse_fields(c, named, b'}', true)?; c.expect(b'>')?; t }
            else {
                let n: u64 = c.word().parse().map_err(|e| format!("{e:?} {}", c.rest()))?;
                if !c.eat_word("x") { return Err("vec x".into()); }
                let t = parse_ty(c, named)?;
                c.expect(b'>')?;
                Ty::Vec(n, Arc::new(t))
            }
        }
        b'%' => { c.i += 1; let n = c.name()?; named.get(&n).cloned().ok_or(format!("named type {n}"))? }
        _ => {
            let w = c.word();
            match w {
                "void" => Ty::Void, "ptr" => {
                    if c.peek_word() == "addrspace" { c.word(); c.ws(); c.skip_parens(); }
                    Ty::Ptr
                }
                "double" => Ty::F64, "float" => Ty::F32, "half" => Ty::F16,
                "metadata" => Ty::Meta, "label" => Ty::Label, "token" => Ty::Meta,
                "x86_fp80" | "fp128" => Ty::Int(128),
                _ if w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()) && w.len() > 1 => Ty::Int(w[1..].parse().unwrap()),
                _ => return Err(format!("type? '{w}' {}", c.rest())),
            }
        }
    };
    // function type
    if c.peek() == b'(' { c.skip_parens(); if t == Ty::Void || true { return Ok(FnRet::wrap(t)); } }
    Ok(t)
}
struct FnRet;
impl FnRet { fn wrap(t: Ty) -> Ty { t } }

fn parse_fields(c: &mut Cur, named: &HashMap<String, Ty>, end: u8, packed: bool) -> R<Ty> {
    let mut v = vec![];
    if !c.eat(end) {
        loop { v.push(parse_ty(c, named)?); if c.eat(b',') { continue; } c.expect(end)?; break; }
    }
    Ok(Ty::Struct(Arc::new(v), packed))
}

pub fn zero(ty: &Ty) -> Val {
    match ty {
        Ty::Vec(n, t) | Ty::Arr(n, t) => Val::Agg(Arc::new(vec![zero(t); *n as usize])),
        Ty::Struct(f, _) => Val::Agg(Arc::new(f.iter().map(zero).collect())),
        _ => Val::C(0),
    }
}

pub fn mask(v: u128, w: u32) -> u128 { if w >= 128 { v } else { v & ((1u128 << w) - 1) } }

struct Ctx<'a> {
    named: &'a HashMap<String, Ty>,
    gaddr: &'a HashMap<String, u64>,
}

fn parse_f(s: &str, ty: &Ty) -> Option<u128> {
    let s2 = s.strip_prefix("f").unwrap_or(s);
    if let Some(h) = s2.strip_prefix("0x") {
        let h2 = h.trim_start_matches(|c: char| "HKLMR".contains(c));
        let b = u64::from_str_radix(h2, 16).ok()?;
        return Some(match ty { Ty::F64 => b as u128, Ty::F32 => (f64::from_bits(b) as f32).to_bits() as u128, _ => b as u128 });
    }
    let f: f64 = match s { "+inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "+qnan" => f64::NAN, "-qnan" => -f64::NAN, _ => s.parse().ok()? };
    Some(match ty { Ty::F64 => f.to_bits() as u128, Ty::F32 => (f as f32).to_bits() as u128, _ => return None })
}

enum PV { C(Val), L(String) }

fn parse_const(c: &mut Cur, ty: &Ty, x: &Ctx) -> R<Val> {
    match parse_val(c, ty, x)? { PV::C(v) => Ok(v), PV::L(l) => Err(format!("local {l} in constant")) }
}

fn parse_typed_const(c: &mut Cur, x: &Ctx) -> R<(Ty, Val)> {
    let t = parse_ty(c, x.named)?;
    let v = parse_const(c, &t, x)?;
    Ok((t, v))
}

fn parse_val(c: &mut Cur, ty: &Ty, x: &Ctx) -> R<PV> {
    match c.peek() {
        b'%' => { c.i += 1; return Ok(PV::L(c.name()?)); }
        b'@' => {
            c.i += 1;
            let n = c.name()?;
            return x.gaddr.get(&n).map(|a| PV::C(Val::C(*a as u128))).ok_or(format!("global {n}"));
        }
        b'{' => { c.i += 1; return parse_elems(c, b'}', x).map(PV::C); }
        b'[' => { c.i += 1; return parse_elems(c, b']', x).map(PV::C); }
        b'<' => {
            c.i += 1;
            if c.peek() == b'{' { c.i += 1; let r = parse_elems(c, b'}', x)?; c.expect(b'>')?; return Ok(PV::C(r)); }
            return parse_elems(c, b'>', x).map(PV::C);
        }
        b'!' => { // metadata argument
            c.i += 1; if c.peek() == b'{' { while !c.eat(b'}') { c.i += 1; } } else { c.name()?; if c.i < c.s.len() && c.s[c.i] == b'(' { c.skip_parens(); } }
            return Ok(PV::C(Val::C(0)));
        }
        _ => {}
    }
    if c.peek() == b'c' && c.s.get(c.i + 1) == Some(&b'"') {
        c.i += 2;
        let mut v = vec![];
        while c.s[c.i] != b'"' {
            if c.s[c.i] == b'\\' {
                if c.s[c.i + 1] == b'\\' { v.push(Val::C(b'\\' as u128)); c.i += 2; continue; }
                let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap();
                v.push(Val::C(u8::from_str_radix(h, 16).map_err(|e| format!("{e:?}"))? as u128));
                c.i += 3;
            } else { v.push(Val::C(c.s[c.i] as u128)); c.i += 1; }
        }
        c.i += 1;
        return Ok(PV::C(Val::Agg(Arc::new(v))));
    }
    let mut w = c.word().to_string();
    if w.is_empty() && c.peek() == b'+' { c.i += 1; w = format!("+{}", c.word()); }
    if (w.ends_with("e") || w.ends_with('E')) && c.peek() == b'+' { c.i += 1; w = format!("{}+{}", w, c.word()); }
    let r = match w.as_str() {
        "true" => Val::C(1),
        "false" | "null" | "none" => Val::C(0),
        "zeroinitializer" => zero(ty),
        "undef" | "poison" => undef(ty),
        "splat" => { c.expect(b'(')?; let (_, v) = parse_typed_const(c, x)?; c.expect(b')')?; Val::Agg(Arc::new(vec![v; ty.nfields()])) }
        "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
            c.expect(b'(')?;
            let (_, v) = parse_typed_const(c, x)?;
            if !c.eat_word("to") { return Err("to".into()); }
            let t2 = parse_ty(c, x.named)?;
            c.expect(b')')?;
            match v { Val::C(k) => Val::C(mask(k, t2.bits())), v => v }
        }
        "getelementptr" => {
            while c.peek() != b'(' { c.word(); if c.peek() == b'(' && false { } if c.s[c.i..].starts_with(b"inrange") { c.word(); c.skip_parens(); } }
            c.expect(b'(')?;
            let t = parse_ty(c, x.named)?;
            c.expect(b',')?;
            let (_, b) = parse_typed_const(c, x)?;
            let mut ids = vec![];
            while c.eat(b',') { let (t, v) = parse_typed_const(c, x)?; ids.push((t, v)); }
            c.expect(b')')?;
            let Val::C(base) = b else { return Err("gep base".into()) };
            let mut off = 0i64;
            let mut cur = t;
            for (k, (it, v)) in ids.iter().enumerate() {
                let Val::C(n) = v else { return Err("gep idx".into()) };
                let n = sext(*n, it.bits());
                if k == 0 { off += n * cur.size() as i64; } else { off += match &cur { Ty::Struct(..) => cur.field_off(n as usize) as i64, _ => n * cur.field(0).size() as i64 }; cur = cur.field(if matches!(cur, Ty::Struct(..)) { n as usize } else { 0 }).clone(); }
            }
            Val::C((base as u64).wrapping_add(off as u64) as u128)
        }
        "sub" | "add" | "xor" | "mul" => {
            while c.peek() != b'(' { c.word(); }
            c.expect(b'(')?;
            let (t, a) = parse_typed_const(c, x)?;
            c.expect(b',')?;
            let (_, b) = parse_typed_const(c, x)?;
            c.expect(b')')?;
            let (Val::C(a), Val::C(b)) = (a, b) else { return Err("cexpr".into()) };
            Val::C(mask(match w.as_str() { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "xor" => a ^ b, _ => a.wrapping_mul(b) }, t.bits()))
        }
        _ => match ty {
            Ty::F64 | Ty::F32 | Ty::F16 => Val::C(parse_f(&w, ty).ok_or(format!("float '{w}' {}", c.rest()))?),
            Ty::Int(b) => {
                if let Some(h) = w.strip_prefix("u0x") { Val::C(u128::from_str_radix(h, 16).map_err(|e| e.to_string())?) }
                else if w.starts_with('-') { let v: i128 = w.parse().map_err(|e| format!("int {w} {e}"))?; Val::C(mask(v as u128, *b)) }
                else { let v: u128 = w.parse().map_err(|e| format!("int '{w}' {e} {}", c.rest()))?; Val::C(mask(v, *b)) }
            }
            _ => return Err(format!("value? '{w}' of {:?} {}", ty, c.rest())),
        },
    };
    Ok(PV::C(r))
}

/// undef/poison scalars become a recognisable pattern
pub fn undef(ty: &Ty) -> Val {
    match ty {
        Ty::Vec(n, t) | Ty::Arr(n, t) => Val::Agg(Arc::new(vec![undef(t); *n as usize])),
        Ty::Struct(f, _) => Val::Agg(Arc::new(f.iter().map(undef).collect())),
        Ty::Void | Ty::Meta | Ty::Label | Ty::Fn => Val::C(0),
        _ => Val::C(mask(0xA5A5A5A5_A5A5A5A5_A5A5A5A5_A5A5A5A5, ty.bits())),
    }
}

fn parse_elems(c: &mut Cur, end: u8, x: &Ctx) -> R<Val> {
    let mut v = vec![];
    if !c.eat(end) {
        loop { v.push(parse_typed_const(c, x)?.1); if c.eat(b',') { continue; } c.expect(end)?; break; }
    }
    Ok(Val::Agg(Arc::new(v)))
}

pub fn sext(v: u128, w: u32) -> i64 {
    let v = mask(v, w);
    if w >= 64 { v as u64 as i64 } else { let s = 64 - w; (((v as u64) << s) as i64) >> s }
}

fn emit(ty: &Ty, v: &Val, out: &mut Vec<u8>) {
    match ty {
        Ty::Arr(_, t) | Ty::Vec(_, t) => { if let Val::Agg(a) = v { for e in a.iter() { emit(t, e, out); } } }
        Ty::Struct(f, _) => {
            let st = out.len() as u64;
            if let Val::Agg(a) = v {
                for (i, e) in a.iter().enumerate() {
                    let o = st + ty.field_off(i);
                    while (out.len() as u64) < o { out.push(0); }
                    emit(&f[i], e, out);
                }
            }
            while (out.len() as u64) < st + ty.size() { out.push(0); }
        }
        _ => { if let Val::C(k) = v { for i in 0..ty.size() { out.push((k >> (8 * i)) as u8); } } }
    }
}

struct FB<'a> {
    x: Ctx<'a>,
    regs: HashMap<String, u32>,
    n: u32,
    blocks: HashMap<String, u32>,
}
impl FB<'_> {
    fn reg(&mut self, n: &str) -> u32 { if let Some(r) = self.regs.get(n) { *r } else { let r = self.n; self.n += 1; self.regs.insert(n.to_string(), r); r } }
    fn blk(&mut self, n: &str) -> R<u32> { self.blocks.get(n).copied().ok_or(format!("block {n}")) }
    fn op(&mut self, c: &mut Cur, ty: &Ty) -> R<Opnd> {
        match parse_val(c, ty, &self.x)? { PV::C(v) => Ok(Opnd::C(v)), PV::L(l) => Ok(Opnd::R(self.reg(&l))) }
    }
    fn tyop(&mut self, c: &mut Cur) -> R<(Ty, Opnd)> { let t = parse_ty(c, self.x.named)?; skip_attrs(c); let o = self.op(c, &t)?; Ok((t, o)) }
    fn label(&mut self, c: &mut Cur) -> R<u32> { if !c.eat_word("label") { return Err(format!("label {}", c.rest())); } c.expect(b'%')?; let n = c.name()?; self.blk(&n) }
}

const FLAGS: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "atomic", "weak", "cleanup"];
fn skip_flags(c: &mut Cur) {
    loop {
        let k = c.i;
        let w = c.word();
        if FLAGS.contains(&w) { continue; }
        if w == "inrange" { c.ws(); c.skip_parens(); continue; }
        c.i = k;
        return;
    }
}
/// parameter / return attributes between a type and its value (or before a type)
const ATTRS: &[&str] = &["noundef", "nonnull", "noalias", "readonly", "writeonly", "readnone", "signext", "zeroext", "inreg", "returned", "nofree", "nest", "swiftself", "immarg", "writable", "dead_on_unwind", "dead_on_return", "noext", "allocalign", "allocptr", "nocapture", "noinline", "inalloca", "unnamed_addr", "local_unnamed_addr", "dso_local", "fastcc", "coldcc", "ccc", "tailcc", "cold", "nofpclass", "noreturn", "hidden", "internal", "private", "protected", "external", "weak", "linkonce_odr", "extern_weak", "default", "available_externally", "linkonce", "weak_odr", "common", "appending"];
fn skip_attrs(c: &mut Cur) {
    loop {
        let k = c.i;
        let w = c.word();
        match w {
            "align" | "captures" | "dereferenceable" | "dereferenceable_or_null" | "range" | "initializes" | "nofpclass" | "sret" | "byval" | "elementtype" | "preallocated" | "memory" | "allockind" | "allocsize" | "vscale_range" | "dead_on_return" => {
                c.ws();
                if c.i < c.s.len() && c.s[c.i] == b'(' { c.skip_parens(); } else if w == "align" { c.word(); }
                continue;
            }
            _ if ATTRS.contains(&w) => continue,
            _ => {}
        }
        c.i = k;
        if c.peek() == b'"' { c.i += 1; while c.i < c.s.len() && c.s[c.i] != b'"' { c.i += 1; } c.i += 1; if c.peek() == b'=' { c.i += 1; c.ws(); c.i += 1; while c.i < c.s.len() && c.s[c.i] != b'"' { c.i += 1; } c.i += 1; } continue; }
        return;
    }
}

fn strip_comment(l: &str) -> &str {
    // comments only matter on label lines; strings may contain ';'
    if l.starts_with(' ') { l } else if let Some(p) = l.find(';') { &l[..p] } else { l }
}

pub fn parse_module(text: &str) -> R<Module> {
    let mut named: HashMap<String, Ty> = HashMap::new();
    let mut gaddr: HashMap<String, u64> = HashMap::new();
    let mut glines: Vec<(String, &str)> = vec![];
    let mut flines: Vec<(String, bool, Vec<&str>)> = vec![];
    let mut aliases: Vec<(String, String)> = vec![];
    let mut cur: Option<(String, Vec<&str>)> = None;
    for l in text.lines() {
        if let Some((n, ls)) = cur.as_mut() {
            ls.push(l);
            if l == "}" { let (n, ls) = (n.clone(), std::mem::take(ls)); flines.push((n, false, ls)); cur = None; }
            continue;
        }
        if l.starts_with("define ") {
            cur = Some((fname(l)?, vec![l]));
        } else if l.starts_with("declare ") {
            flines.push((fname(l)?, true, vec![l]));
        } else if l.starts_with('@') {
            let mut c = Cur::new(l); c.i = 1;
            let n = c.name()?;
            if l.contains(" alias ") {
                let p = l.rfind('@').ok_or("alias")?;
                let mut c2 = Cur::new(l); c2.i = p + 1;
                aliases.push((n, c2.name()?));
            } else { glines.push((n, l)); }
        } else if l.starts_with('%') && l.contains(" = type ") {
            let mut c = Cur::new(l); c.i = 1;
            let n = c.name()?;
            let p = l.find(" = type ").unwrap();
            let body = &l[p + 8..];
            if body.trim() == "opaque" { continue; }
            let mut c = Cur::new(body);
            let t = parse_ty(&mut c, &named)?;
            named.insert(n, t);
        }
    }
    let mut fidx = HashMap::new();
    for (i, (n, _, _)) in flines.iter().enumerate() {
        let weak_undef = flines[i].1 && flines[i].2[0].contains("extern_weak");
        gaddr.insert(n.clone(), if weak_undef { 0 } else { func_addr(i as u32) });
        fidx.insert(n.clone(), i as u32);
    }
    let mut gidx = HashMap::new();
    for (i, (n, l)) in glines.iter().enumerate() {
        let weak = l.contains(" extern_weak ");
        gaddr.insert(n.clone(), if weak { 0 } else { addr(K_GLOBAL, i as u64, 0) });
        gidx.insert(n.clone(), i as u32);
    }
    for (a, t) in &aliases { if let Some(x) = gaddr.get(t).copied() { gaddr.insert(a.clone(), x); if let Some(f) = fidx.get(t).copied() { fidx.insert(a.clone(), f); } } }
    let mut globals = vec![];
    for (n, l) in &glines {
        let x = Ctx { named: &named, gaddr: &gaddr };
        let g = parse_global(n, l, &x).map_err(|e| format!("{e}\n in {}", l.chars().take(300).collect::<String>()))?;
        globals.push(g);
    }
    let mut funcs = vec![];
    for (n, decl, ls) in &flines {
        if *decl { funcs.push(Func { name: n.clone(), nargs: 0, nregs: 0, blocks: vec![], decl: true, ret: Ty::Void }); continue; }
        funcs.push(match parse_func(n, ls, &named, &gaddr) {
            Ok(f) => f,
            // only an error if it is ever executed
            Err(e) => Func { name: format!("{n} [unparsed: {e}]"), nargs: 0, nregs: 0, blocks: vec![], decl: true, ret: Ty::Void },
        });
    }
    Ok(Module { funcs, fidx, globals, gidx })
}

fn fname(l: &str) -> R<String> {
    let p = l.find('@').ok_or("no @")?;
    let mut c = Cur::new(l); c.i = p + 1;
    c.name()
}

fn parse_global(n: &str, l: &str, x: &Ctx) -> R<Global> {
    let mut c = Cur::new(l);
    c.i = 1; c.name()?;
    c.expect(b'=')?;
    let mut external = false;
    let mut tls = false;
    let constant;
    loop {
        let w = c.word();
        match w {
            "external" | "extern_weak" => external = true,
            "constant" => { constant = true; break; }
            "global" => { constant = false; break; }
            "" => { if c.peek() == b'(' { c.skip_parens(); } else { return Err("global".into()); } }
            "thread_local" | "addrspace" => { tls |= w == "thread_local"; if c.peek() == b'(' { c.skip_parens(); } }
            _ => {}
        }
    }
    let t = parse_ty(&mut c, x.named)?;
    let init = if external { vec![0; t.size() as usize] } else {
        let v = parse_const(&mut c, &t, x)?;
        let mut o = vec![];
        emit(&t, &v, &mut o);
        o
    };
    let align = l.rfind(", align ").and_then(|p| l[p + 8..].split(|c: char| !c.is_ascii_digit()).next().and_then(|s| s.parse().ok())).unwrap_or(t.align());
    Ok(Global { name: n.to_string(), size: t.size(), align, init, constant, tls })
}

fn parse_func(n: &str, ls: &[&str], named: &HashMap<String, Ty>, gaddr: &HashMap<String, u64>) -> R<Func> {
    let mut fb = FB { x: Ctx { named, gaddr }, regs: HashMap::new(), n: 0, blocks: HashMap::new() };
    // header
    let l = ls[0];
    let mut c = Cur::new(l);
    c.word(); // define
    let ret;
    loop {
        skip_attrs(&mut c);
        ret = parse_ty(&mut c, named)?;
        break;
    }
    c.ws();
    c.expect(b'@')?;
    c.name()?;
    c.expect(b'(')?;
    let mut nargs = 0usize;
    if !c.eat(b')') {
        loop {
            if c.peek() == b'.' { c.i += 3; c.expect(b')')?; break; }
            parse_ty(&mut c, named)?;
            skip_attrs(&mut c);
            c.expect(b'%').map_err(|e| format!("arg: {e}"))?;
            let a = c.name()?;
            let r = fb.reg(&a);
            debug_assert_eq!(r as usize, nargs);
            nargs += 1;
            if c.eat(b',') { continue; }
            c.expect(b')')?;
            break;
        }
    }
    // blocks
    let mut bl: Vec<(String, Vec<String>)> = vec![];
    let mut it = ls[1..].iter().peekable();
    while let Some(raw) = it.next() {
        let raw = *raw;
        if raw == "}" { break; }
        if raw.trim().is_empty() { continue; }
        if !raw.starts_with(' ') {
            let s = strip_comment(raw);
            if s.trim().is_empty() { continue; }
            let s = s.trim_end().trim_end_matches(':').trim_matches('"');
            bl.push((s.to_string(), vec![]));
            continue;
        }
        if bl.is_empty() { bl.push((format!("{}", nargs), vec![])); }
        let t = raw.trim_start();
        if t.starts_with(';') { continue; }
        let mut s = t.to_string();
        // multi-line: invoke / landingpad / switch
        if s.starts_with("switch ") {
            while !s.trim_end().ends_with(']') && !s.contains("], !") { s.push(' '); s.push_str(it.next().ok_or("switch eof")?.trim()); }
        } else if s.contains("invoke ") && !s.contains(" unwind label ") && (s.starts_with("invoke") || s.contains("= invoke")) {
            s.push(' '); s.push_str(it.next().ok_or("invoke eof")?.trim());
        } else if s.contains("= landingpad") {
            while let Some(nx) = it.peek() { let tt = nx.trim_start(); if tt.starts_with("cleanup") || tt.starts_with("catch ") || tt.starts_with("filter ") { it.next(); } else { break; } }
        }
        bl.last_mut().unwrap().1.push(s);
    }
    for (i, (n, _)) in bl.iter().enumerate() { fb.blocks.insert(n.clone(), i as u32); }
    let mut blocks = vec![];
    for (_, ss) in &bl {
        let mut b = Block::default();
        for s in ss {
            parse_ins(&mut fb, s, &mut b).map_err(|e| format!("{e}\n  in: {}", s.chars().take(400).collect::<String>()))?;
        }
        blocks.push(b);
    }
    Ok(Func { name: n.to_string(), nargs, nregs: fb.n, blocks, decl: false, ret })
}

fn pred(s: &str) -> R<Pred> {
    Ok(match s { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => return Err(format!("pred {s}")) })
}
fn fpred(s: &str) -> R<FPred> {
    Ok(match s { "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, "true" => FPred::True, _ => return Err(format!("fpred {s}")) })
}

fn parse_call(fb: &mut FB, c: &mut Cur, dst: Option<u32>) -> R<CallI> {
    loop { let k = c.i; skip_flags(c); skip_attrs(c); if c.i == k { break; } }
    let ret = parse_ty(c, fb.x.named)?;
    skip_attrs(c);
    let callee = if c.peek_word() == "asm" { return Err("inline asm".into()); } else { fb.op(c, &Ty::Ptr)? };
    c.expect(b'(')?;
    let mut args = vec![];
    if !c.eat(b')') {
        loop { args.push(fb.tyop(c)?); if c.eat(b',') { continue; } c.expect(b')')?; break; }
    }
    // function attributes, operand bundles
    loop {
        let p = c.peek();
        if p == b'#' { c.i += 1; c.word(); continue; }
        if p == b'[' { while c.i < c.s.len() && c.s[c.i] != b']' { c.i += 1; } c.i += 1; continue; }
        let k = c.i;
        skip_attrs(c);
        if c.i == k { break; }
    }
    Ok(CallI { dst, ret, callee, args, inv: None })
}

fn parse_ins(fb: &mut FB, s: &str, b: &mut Block) -> R<()> {
    let mut cc = Cur::new(s);
    let c = &mut cc;
    let mut dst = None;
    if c.peek() == b'%' {
        c.i += 1;
        let n = c.name()?;
        dst = Some(fb.reg(&n));
        c.expect(b'=')?;
    }
    let d = dst.unwrap_or(u32::MAX);
    let w = c.word();
    let ins = match w {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            skip_flags(c);
            let ty = parse_ty(c, fb.x.named)?;
            let a = fb.op(c, &ty)?; c.expect(b',')?; let bb = fb.op(c, &ty)?;
            let op = match w { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, _ => BinOp::Xor };
            Ins::Bin { dst: d, op, ty, a, b: bb }
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            skip_flags(c);
            let ty = parse_ty(c, fb.x.named)?;
            let a = fb.op(c, &ty)?; c.expect(b',')?; let bb = fb.op(c, &ty)?;
            let op = match w { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, _ => FOp::Rem };
            Ins::FBin { dst: d, op, ty, a, b: bb }
        }
        "fneg" => { skip_flags(c); let (ty, a) = fb.tyop(c)?; Ins::FNeg { dst: d, ty, a } }
        "icmp" => {
            skip_flags(c);
            let p = pred(c.word())?;
            let ty = parse_ty(c, fb.x.named)?;
            let a = fb.op(c, &ty)?; c.expect(b',')?; let bb = fb.op(c, &ty)?;
            Ins::ICmp { dst: d, p, ty, a, b: bb }
        }
        "fcmp" => {
            skip_flags(c);
            let p = fpred(c.word())?;
            let ty = parse_ty(c, fb.x.named)?;
            let a = fb.op(c, &ty)?; c.expect(b',')?; let bb = fb.op(c, &ty)?;
            Ins::FCmp { dst: d, p, ty, a, b: bb }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
            skip_flags(c);
            let (from, a) = fb.tyop(c)?;
            if !c.eat_word("to") { return Err("cast to".into()); }
            let to = parse_ty(c, fb.x.named)?;
            let op = match w { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "ptrtoint" | "inttoptr" | "ptrtoaddr" => CastOp::PtrInt, "bitcast" => CastOp::Bitcast, "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi, "uitofp" => CastOp::UiToFp, "sitofp" => CastOp::SiToFp, "fpext" => CastOp::FpExt, _ => CastOp::FpTrunc };
            Ins::Cast { dst: d, op, from, to, a }
        }
        "select" => {
            skip_flags(c);
            let (cty, cond) = fb.tyop(c)?; c.expect(b',')?;
            let (ty, a) = fb.tyop(c)?; c.expect(b',')?;
            let (_, bb) = fb.tyop(c)?;
            Ins::Select { dst: d, cty, ty, c: cond, a, b: bb }
        }
        "load" => {
            let at = { let k = c.i; let a = c.word() == "atomic"; c.i = k; a };
            skip_flags(c);
            let ty = parse_ty(c, fb.x.named)?; c.expect(b',')?;
            let (_, p) = fb.tyop(c)?;
            Ins::Load { dst: d, ty, p, at }
        }
        "store" => {
            let at = { let k = c.i; let a = c.word() == "atomic"; c.i = k; a };
            skip_flags(c);
            let (ty, v) = fb.tyop(c)?; c.expect(b',')?;
            let (_, p) = fb.tyop(c)?;
            Ins::Store { ty, v, p, at }
        }
        "getelementptr" => {
            skip_flags(c);
            let ty = parse_ty(c, fb.x.named)?; c.expect(b',')?;
            let (_, base) = fb.tyop(c)?;
            let mut off = 0i64;
            let mut idx = vec![];
            let mut cur = ty;
            let mut k = 0;
            while c.eat(b',') {
                if c.peek() == b'!' { break; }
                let (it, v) = fb.tyop(c)?;
                let scale = if k == 0 { cur.size() as i64 } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let Opnd::C(Val::C(n)) = v else { return Err("struct idx".into()) };
                            off += cur.field_off(n as usize) as i64;
                            cur = cur.field(n as usize).clone();
                            k += 1;
                            continue;
                        }
                        _ => { cur = cur.field(0).clone(); cur.size() as i64 }
                    }
                };
                k += 1;
                match v { Opnd::C(Val::C(n)) => off += sext(n, it.bits()) * scale, o => idx.push((o, it.bits(), scale)) }
            }
            Ins::Gep { dst: d, base, off, idx }
        }
        "alloca" => {
            let ty = parse_ty(c, fb.x.named)?;
            let mut size = ty.size();
            let mut align = ty.align();
            while c.eat(b',') {
                if c.peek() == b'!' { break; }
                if c.eat_word("align") { align = c.word().parse().map_err(|_| "align")?; }
                else { let (_, n) = fb.tyop(c)?; if let Opnd::C(Val::C(n)) = n { size *= n as u64; } else { return Err("dynamic alloca".into()); } }
            }
            Ins::Alloca { dst: d, size, align }
        }
        "tail" | "musttail" | "notail" => { c.word(); Ins::Call(Box::new(parse_call(fb, c, dst)?)) }
        "call" => Ins::Call(Box::new(parse_call(fb, c, dst)?)),
        "invoke" => {
            let mut ci = parse_call(fb, c, dst)?;
            if !c.eat_word("to") { return Err(format!("invoke to: {}", c.rest())); }
            let n = fb.label(c)?;
            if !c.eat_word("unwind") { return Err("unwind".into()); }
            let u = fb.label(c)?;
            ci.inv = Some((n, u));
            Ins::Call(Box::new(ci))
        }
        "extractvalue" => {
            let (_, a) = fb.tyop(c)?;
            let mut path = vec![];
            while c.eat(b',') { if c.peek() == b'!' { break; } path.push(c.word().parse().map_err(|_| "idx")?); }
            Ins::ExtractVal { dst: d, a, path }
        }
        "insertvalue" => {
            let (aty, a) = fb.tyop(c)?; c.expect(b',')?;
            let (_, v) = fb.tyop(c)?;
            let mut path = vec![];
            while c.eat(b',') { if c.peek() == b'!' { break; } path.push(c.word().parse().map_err(|_| "idx")?); }
            Ins::InsertVal { dst: d, aty, a, v, path }
        }
        "extractelement" => { let (_, a) = fb.tyop(c)?; c.expect(b',')?; let (_, i) = fb.tyop(c)?; Ins::ExtractElt { dst: d, a, i } }
        "insertelement" => { let (aty, a) = fb.tyop(c)?; c.expect(b',')?; let (_, v) = fb.tyop(c)?; c.expect(b',')?; let (_, i) = fb.tyop(c)?; Ins::InsertElt { dst: d, aty, a, v, i } }
        "shufflevector" => {
            let (aty, a) = fb.tyop(c)?; c.expect(b',')?;
            let (_, bb) = fb.tyop(c)?; c.expect(b',')?;
            let mt = parse_ty(c, fb.x.named)?;
            let m = parse_const(c, &mt, &fb.x)?;
            let Val::Agg(m) = m else { return Err("mask".into()) };
            let mask = m.iter().map(|v| if let Val::C(k) = v { *k as i64 } else { -1 }).collect();
            Ins::Shuffle { dst: d, aty, a, b: bb, mask }
        }
        "freeze" => { let (_, a) = fb.tyop(c)?; Ins::Freeze { dst: d, a } }
        "landingpad" => Ins::LandingPad { dst: d },
        "atomicrmw" => {
            skip_flags(c);
            let op = c.word().to_string();
            let (_, p) = fb.tyop(c)?; c.expect(b',')?;
            let (ty, v) = fb.tyop(c)?;
            Ins::Rmw { dst: d, op, ty, p, v }
        }
        "cmpxchg" => {
            skip_flags(c);
            let (_, p) = fb.tyop(c)?; c.expect(b',')?;
            let (ty, cv) = fb.tyop(c)?; c.expect(b',')?;
            let (_, n) = fb.tyop(c)?;
            Ins::CmpXchg { dst: d, ty, p, c: cv, n }
        }
        "fence" => Ins::Nop,
        "phi" => {
            skip_flags(c);
            let ty = parse_ty(c, fb.x.named)?;
            let mut inc = vec![];
            loop {
                c.expect(b'[')?;
                let v = fb.op(c, &ty)?;
                c.expect(b',')?;
                c.expect(b'%')?;
                let n = c.name()?;
                let k = fb.blk(&n)?;
                c.expect(b']')?;
                inc.push((k, v));
                if c.eat(b',') { if c.peek() == b'!' { break; } continue; }
                break;
            }
            b.phis.push(Phi { dst: d, inc });
            return Ok(());
        }
        "br" => {
            if c.peek_word() == "label" { Ins::Br(fb.label(c)?) }
            else { let (_, cond) = fb.tyop(c)?; c.expect(b',')?; let a = fb.label(c)?; c.expect(b',')?; let bb = fb.label(c)?; Ins::CondBr(cond, a, bb) }
        }
        "switch" => {
            let (ty, v) = fb.tyop(c)?; c.expect(b',')?;
            let def = fb.label(c)?;
            c.expect(b'[')?;
            let mut cases = vec![];
            while !c.eat(b']') {
                let (_, k) = parse_typed_const(c, &fb.x)?;
                c.expect(b',')?;
                let l = fb.label(c)?;
                if let Val::C(k) = k { cases.push((k, l)); }
            }
            Ins::Switch { w: ty.bits(), v, def, cases }
        }
        "ret" => { if c.eat_word("void") { Ins::Ret(None) } else { let (_, v) = fb.tyop(c)?; Ins::Ret(Some(v)) } }
        "resume" => { let (_, v) = fb.tyop(c)?; Ins::Resume(v) }
        "unreachable" => Ins::Unreachable,
        _ => return Err(format!("instruction '{w}'")),
    };
    b.ins.push(ins);
    Ok(())
}
