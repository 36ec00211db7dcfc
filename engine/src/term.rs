//! Hash-consed bit-vector / float terms with construction-time simplification and a concrete evaluator.
use crate::ir::mask;
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Const, Var,
    Not, And, Or, Xor, Add, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Concat, Extract, ZExt, SExt, Ite, Table,
    // floats: operands are 64-bit patterns
    FAdd, FMul, FDiv, FRem, FPow, FUn, FEq, FLt, FLe, FNan, UiToF, SiToF, FToUi, FToSi, FTrunc, FExt,
    Uf,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node { pub op: Op, pub w: u32, pub aux: u128, pub args: Vec<T> }

pub const SIGN: u128 = 1 << 63;
pub const NAN: u128 = 0x7ff8_0000_0000_0000;
pub const EXPM: u128 = 0x7ff0_0000_0000_0000;
pub const ABSM: u128 = 0x7fff_ffff_ffff_ffff;
pub const ONE: u128 = 0x3ff0_0000_0000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum VKind { Byte, Bits, Float }

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    /// sorted list of variables under the term
    pub vars: Vec<u32>, // index into varsets
    pub varsets: Vec<Vec<u32>>,
    vsmap: HashMap<Vec<u32>, u32>,
    uncache: HashMap<(u32, u32), u32>,
    pub var_kind: Vec<(VKind, u32, u32)>, // kind, user id, width
    var_ids: HashMap<u32, T>,
    pub tables: Vec<(u32, Vec<u128>)>, // element width, values
    tabmap: HashMap<(u32, Vec<u128>), u32>,
    pub ufs: Vec<String>,
    ufmap: HashMap<String, u32>,
    pub uf_native: Vec<u8>, // 0: user function (fixed formula), 1.. libm
    pub tt: HashMap<T, [u64; 4]>,
    pub has_float: Vec<bool>,
    has_uf: Vec<bool>,
    fnum_memo: HashMap<T, T>,
}

pub type Model = HashMap<u32, u128>; // var index -> bits

impl Arena {
    pub fn new() -> Self {
        Arena { nodes: vec![], map: HashMap::new(), vars: vec![], varsets: vec![vec![]], vsmap: [(vec![], 0)].into(), uncache: HashMap::new(), var_kind: vec![], var_ids: HashMap::new(), tables: vec![], tabmap: HashMap::new(), ufs: vec![], ufmap: HashMap::new(), uf_native: vec![], tt: HashMap::new(), has_float: vec![], has_uf: vec![], fnum_memo: HashMap::new() }
    }
    pub fn w(&self, t: T) -> u32 { self.nodes[t as usize].w }
    pub fn op(&self, t: T) -> Op { self.nodes[t as usize].op }
    pub fn arg(&self, t: T, i: usize) -> T { self.nodes[t as usize].args[i] }
    pub fn k(&self, t: T) -> Option<u128> { let n = &self.nodes[t as usize]; if n.op == Op::Const { Some(n.aux) } else { None } }
    pub fn has_uf(&self, t: T) -> bool { self.has_uf[t as usize] }
    pub fn varset(&self, t: T) -> &[u32] { &self.varsets[self.vars[t as usize] as usize] }

    fn vs_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.uncache.get(&key) { return *r; }
        let mut v = self.varsets[a as usize].clone();
        v.extend_from_slice(&self.varsets[b as usize]);
        v.sort(); v.dedup();
        let r = self.vs_intern(v);
        self.uncache.insert(key, r);
        r
    }
    fn vs_intern(&mut self, v: Vec<u32>) -> u32 {
        if let Some(r) = self.vsmap.get(&v) { return *r; }
        let r = self.varsets.len() as u32;
        self.varsets.push(v.clone());
        self.vsmap.insert(v, r);
        r
    }

    fn mk(&mut self, op: Op, w: u32, aux: u128, args: &[T]) -> T {
        let n = Node { op, w, aux, args: args.to_vec() };
        if let Some(t) = self.map.get(&n) { return *t; }
        let t = self.nodes.len() as T;
        let mut vs = 0;
        let mut fl = matches!(op, Op::FAdd | Op::FMul | Op::FDiv | Op::FRem | Op::FPow | Op::FUn | Op::UiToF | Op::SiToF | Op::FToUi | Op::FToSi | Op::FTrunc | Op::FExt | Op::Uf);
        for a in args { vs = self.vs_union(vs, self.vars[*a as usize]); fl |= self.has_float[*a as usize]; }
        if op == Op::Var { vs = self.vs_intern(vec![aux as u32]); }
        self.nodes.push(n.clone());
        self.vars.push(vs);
        self.has_float.push(fl);
        let u = op == Op::Uf || args.iter().any(|a| self.has_uf[*a as usize]);
        self.has_uf.push(u);
        self.map.insert(n, t);
        t
    }
    /// a disjunction that is always true but mentions the variables of its operands
    pub fn mk_or_raw(&mut self, a: T, b: T) -> T { self.mk(Op::Or, 1, 0, &[a, b]) }
    pub fn raw_f(&mut self, op: Op, a: T, b: T) -> T { self.mk(op, 64, 0, &[a, b]) }
    pub fn c(&mut self, v: u128, w: u32) -> T { self.mk(Op::Const, w, mask(v, w), &[]) }
    pub fn tru(&mut self) -> T { self.c(1, 1) }
    pub fn fls(&mut self) -> T { self.c(0, 1) }
    pub fn var(&mut self, kind: VKind, id: u32, w: u32) -> T {
        if let Some(t) = self.var_ids.get(&id) { return *t; }
        let ix = self.var_kind.len() as u32;
        self.var_kind.push((kind, id, w));
        let t = self.mk(Op::Var, w, ix as u128, &[]);
        self.var_ids.insert(id, t);
        t
    }
    pub fn var_term(&self, ix: u32) -> T { self.var_ids[&self.var_kind[ix as usize].1] }
    pub fn uf_id(&mut self, name: &str, native: u8) -> u32 {
        if let Some(i) = self.ufmap.get(name) { return *i; }
        let i = self.ufs.len() as u32;
        self.ufs.push(name.to_string());
        self.uf_native.push(native);
        self.ufmap.insert(name.to_string(), i);
        i
    }

    // ---------- booleans and bit-vectors
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.k(a) { return self.c(!k, w); }
        if self.op(a) == Op::Not { return self.arg(a, 0); }
        self.mk(Op::Not, w, 0, &[a])
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return a; }
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.c(x & y, w),
            (Some(_), None) => return self.and(b, a),
            (None, Some(y)) => {
                if y == 0 { return b; }
                if y == mask(!0, w) { return a; }
                if w == 64 && y == SIGN && self.op(a) == Op::UiToF { return self.c(0, 64); }
                let n = self.nodes[a as usize].clone();
                match n.op {
                    Op::And => if let Some(z) = self.k(n.args[1]) { let k = self.c(y & z, w); return self.and(n.args[0], k); },
                    Op::ZExt => {
                        let iw = self.w(n.args[0]);
                        let yk = mask(y, iw);
                        let k = self.c(yk, iw);
                        let x = self.and(n.args[0], k);
                        return self.zext(x, w);
                    }
                    _ => {}
                }
                // contiguous low mask: extract
                if (y & (y + 1)) == 0 && y != 0 && w > 1 {
                    let lw = 128 - y.leading_zeros();
                    if lw % 8 == 0 && self.op(a) == Op::Concat { let x = self.extract(a, lw - 1, 0); return self.zext(x, w); }
                }
                return self.mk(Op::And, w, 0, &[a, b]);
            }
            _ => {}
        }
        if w == 1 && (self.op(a) == Op::Not && self.arg(a, 0) == b || self.op(b) == Op::Not && self.arg(b, 0) == a) { return self.fls(); }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::And, w, 0, &[a, b])
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return a; }
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.c(x | y, w),
            (Some(_), None) => return self.or(b, a),
            (None, Some(y)) => { if y == 0 { return a; } if y == mask(!0, w) { return b; } return self.mk(Op::Or, w, 0, &[a, b]); }
            _ => {}
        }
        if w == 1 && (self.op(a) == Op::Not && self.arg(a, 0) == b || self.op(b) == Op::Not && self.arg(b, 0) == a) { return self.tru(); }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Or, w, 0, &[a, b])
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.c(x ^ y, w),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(y)) => {
                if y == 0 { return a; }
                if y == mask(!0, w) { return self.not(a); }
                if self.op(a) == Op::Xor { if let Some(z) = self.k(self.arg(a, 1)) { let x = self.arg(a, 0); let k = self.c(y ^ z, w); return self.xor(x, k); } }
                return self.mk(Op::Xor, w, 0, &[a, b]);
            }
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Xor, w, 0, &[a, b])
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_add(y), w),
            (Some(_), None) => return self.add(b, a),
            (None, Some(y)) => {
                if y == 0 { return a; }
                if self.op(a) == Op::Add { if let Some(z) = self.k(self.arg(a, 1)) { let x = self.arg(a, 0); let k = self.c(y.wrapping_add(z), w); return self.add(x, k); } }
                return self.mk(Op::Add, w, 0, &[a, b]);
            }
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Add, w, 0, &[a, b])
    }
    pub fn neg(&mut self, a: T) -> T { let w = self.w(a); let k = self.c(!0, w); self.mul(a, k) }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        if let Some(y) = self.k(b) { let k = self.c(y.wrapping_neg(), w); return self.add(a, k); }
        let n = self.neg(b);
        self.add(a, n)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_mul(y), w),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(y)) => {
                if y == 0 { return b; }
                if y == 1 { return a; }
                if self.op(a) == Op::Mul { if let Some(z) = self.k(self.arg(a, 1)) { let x = self.arg(a, 0); let k = self.c(y.wrapping_mul(z), w); return self.mul(x, k); } }
                return self.mk(Op::Mul, w, 0, &[a, b]);
            }
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Mul, w, 0, &[a, b])
    }
    pub fn bin2(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { let r = ev_bin(op, x, y, w); return self.c(r, w); }
        if let Some(y) = self.k(b) {
            if y == 0 && matches!(op, Op::Shl | Op::LShr | Op::AShr) { return a; }
            if op == Op::UDiv && y == 1 { return a; }
            if op == Op::LShr && y < w as u128 { let e = self.extract(a, w - 1, y as u32); return self.zext(e, w); }
            if op == Op::Shl && y < w as u128 { let e = self.extract(a, w - 1 - y as u32, 0); let z = self.c(0, y as u32); return self.concat(e, z); }
        }
        self.mk(op, w, 0, &[a, b])
    }
    pub fn extract(&mut self, a: T, hi: u32, lo: u32) -> T {
        let w = hi - lo + 1;
        if w == self.w(a) { return a; }
        let n = self.nodes[a as usize].clone();
        match n.op {
            Op::Const => return self.c(n.aux >> lo, w),
            Op::Extract => { let l0 = n.aux as u32; return self.extract(n.args[0], hi + l0, lo + l0); }
            Op::Concat => {
                let lw = self.w(n.args[1]);
                if hi < lw { return self.extract(n.args[1], hi, lo); }
                if lo >= lw { return self.extract(n.args[0], hi - lw, lo - lw); }
                let h = self.extract(n.args[0], hi - lw, 0);
                let l = self.extract(n.args[1], lw - 1, lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.args[0]);
                if lo >= iw { return self.c(0, w); }
                if hi < iw { return self.extract(n.args[0], hi, lo); }
                let e = self.extract(n.args[0], iw - 1, lo);
                return self.zext(e, w);
            }
            Op::SExt => { let iw = self.w(n.args[0]); if hi < iw { return self.extract(n.args[0], hi, lo); } }
            Op::Ite => {
                if self.k(n.args[1]).is_some() || self.k(n.args[2]).is_some() {
                    let x = self.extract(n.args[1], hi, lo); let y = self.extract(n.args[2], hi, lo);
                    return self.ite(n.args[0], x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.k(n.args[1]).is_some() {
                    let x = self.extract(n.args[0], hi, lo); let y = self.extract(n.args[1], hi, lo);
                    return match n.op { Op::And => self.and(x, y), Op::Or => self.or(x, y), _ => self.xor(x, y) };
                }
            }
            _ => {}
        }
        self.mk(Op::Extract, w, lo as u128, &[a])
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.k(h), self.k(l)) { return self.c((x << lw) | y, w); }
        if self.k(h) == Some(0) { return self.zext(l, w); }
        // adjacent extracts
        if self.op(h) == Op::Extract && self.op(l) == Op::Extract && self.arg(h, 0) == self.arg(l, 0) {
            let (hl, ll) = (self.nodes[h as usize].aux as u32, self.nodes[l as usize].aux as u32);
            if hl == ll + lw { let a = self.arg(h, 0); return self.extract(a, hl + hw - 1, ll); }
        }
        if self.op(l) == Op::Concat {
            // right-assoc merge: concat(h, concat(a,b)) where concat(h,a) simplifies
            let (a, b) = (self.arg(l, 0), self.arg(l, 1));
            if self.op(h) == Op::Extract && self.op(a) == Op::Extract && self.arg(h, 0) == self.arg(a, 0) {
                let ha = self.concat(h, a);
                if self.op(ha) != Op::Concat { return self.concat(ha, b); }
            }
        }
        self.mk(Op::Concat, w, 0, &[h, l])
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w { return a; }
        if aw > w { return self.extract(a, w - 1, 0); }
        if let Some(k) = self.k(a) { return self.c(k, w); }
        if self.op(a) == Op::ZExt { let x = self.arg(a, 0); return self.zext(x, w); }
        self.mk(Op::ZExt, w, 0, &[a])
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(k) = self.k(a) { return self.c(sx(k, aw) as u128, w); }
        if self.op(a) == Op::ZExt { let x = self.arg(a, 0); return self.zext(x, w); }
        self.mk(Op::SExt, w, 0, &[a])
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.k(c) { return if k != 0 { a } else { b }; }
        if a == b { return a; }
        if self.op(c) == Op::Not { let x = self.arg(c, 0); return self.ite(x, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.k(a), self.k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        if self.op(a) == Op::Ite && self.arg(a, 0) == c { let x = self.arg(a, 1); return self.ite(c, x, b); }
        if self.op(b) == Op::Ite && self.arg(b, 0) == c { let x = self.arg(b, 2); return self.ite(c, a, x); }
        self.mk(Op::Ite, w, 0, &[c, a, b])
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b { return self.tru(); }
        let w = self.w(a);
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => { return if x == y { self.tru() } else { self.fls() }; }
            (Some(_), None) => return self.eq(b, a),
            (None, Some(y)) => {
                if w == 1 { return if y == 1 { a } else { self.not(a) }; }
                let n = self.nodes[a as usize].clone();
                match n.op {
                    Op::ZExt => {
                        let iw = self.w(n.args[0]);
                        if y >> iw != 0 { return self.fls(); }
                        let k = self.c(y, iw); return self.eq(n.args[0], k);
                    }
                    Op::Xor => if let Some(z) = self.k(n.args[1]) { let k = self.c(y ^ z, w); return self.eq(n.args[0], k); },
                    Op::Add => if let Some(z) = self.k(n.args[1]) { let k = self.c(y.wrapping_sub(z), w); return self.eq(n.args[0], k); },
                    Op::Not => { let k = self.c(!y, w); return self.eq(n.args[0], k); }
                    Op::And if y == 0 && w == 64 && self.k(n.args[1]) == Some(ABSM) && self.has_float[n.args[0] as usize] => {
                        let x = self.fnum0(n.args[0]);
                        if x != n.args[0] { return self.fzero(x); }
                    }
                    Op::Ite => {
                        let (p, q) = (self.k(n.args[1]), self.k(n.args[2]));
                        if p.is_some() || q.is_some() {
                            let x = self.eq(n.args[1], b); let z = self.eq(n.args[2], b);
                            return self.ite(n.args[0], x, z);
                        }
                    }
                    Op::Concat => {
                        let lw = self.w(n.args[1]);
                        let kh = self.c(y >> lw, w - lw); let kl = self.c(y, lw);
                        let x = self.eq(n.args[0], kh); let z = self.eq(n.args[1], kl);
                        return self.and(x, z);
                    }
                    _ => {}
                }
                return self.mk(Op::Eq, 1, 0, &[a, b]);
            }
            _ => {}
        }
        if self.op(a) == Op::ZExt && self.op(b) == Op::ZExt {
            let (x, y) = (self.arg(a, 0), self.arg(b, 0));
            if self.w(x) == self.w(y) { return self.eq(x, y); }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Eq, 1, 0, &[a, b])
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b { return self.fls(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return if x < y { self.tru() } else { self.fls() }; }
        if let Some(y) = self.k(b) {
            if y == 0 { return self.fls(); }
            if y == 1 { let z = self.c(0, w); return self.eq(a, z); }
            if y == EXPM && w == 64 && self.op(a) == Op::And && self.k(self.arg(a, 1)) == Some(ABSM) && self.has_float[a as usize] {
                let x = self.arg(a, 0);
                let n = self.fnum0(x);
                if n != x || matches!(self.op(n), Op::Ite | Op::FRem) { return self.ffinite(n); }
            }
            if self.ubits(a) < 128 && (1u128 << self.ubits(a)) <= y { return self.tru(); }
            if self.op(a) == Op::ZExt { let x = self.arg(a, 0); let iw = self.w(x); let k = self.c(y, iw); return self.ult(x, k); }
        }
        if let Some(x) = self.k(a) {
            if x == mask(!0, w) { return self.fls(); }
            if self.ubits(b) < 128 && (1u128 << self.ubits(b)) <= x { return self.fls(); }
            if self.op(b) == Op::ZExt { let y = self.arg(b, 0); let iw = self.w(y); let k = self.c(x, iw); return self.ult(k, y); }
        }
        if self.op(a) == Op::ZExt && self.op(b) == Op::ZExt {
            let (x, y) = (self.arg(a, 0), self.arg(b, 0));
            if self.w(x) == self.w(y) { return self.ult(x, y); }
        }
        self.mk(Op::Ult, 1, 0, &[a, b])
    }
    pub fn ule(&mut self, a: T, b: T) -> T { let x = self.ult(b, a); self.not(x) }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b { return self.fls(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return if sx(x, w) < sx(y, w) { self.tru() } else { self.fls() }; }
        // both known non-negative
        if self.ubits(a) < w && self.ubits(b) < w { return self.ult(a, b); }
        self.mk(Op::Slt, 1, 0, &[a, b])
    }
    pub fn sle(&mut self, a: T, b: T) -> T { let x = self.slt(b, a); self.not(x) }
    /// upper bound on the number of significant bits
    pub fn ubits(&self, t: T) -> u32 { self.ubits_d(t, 12) }
    fn ubits_d(&self, t: T, d: u32) -> u32 {
        let n = &self.nodes[t as usize];
        if d == 0 { return n.w; }
        let r = match n.op {
            Op::Const => 128 - n.aux.leading_zeros(),
            Op::ZExt => self.ubits_d(n.args[0], d - 1),
            Op::And => self.ubits_d(n.args[0], d - 1).min(self.ubits_d(n.args[1], d - 1)),
            Op::Or | Op::Xor => self.ubits_d(n.args[0], d - 1).max(self.ubits_d(n.args[1], d - 1)),
            Op::Add => self.ubits_d(n.args[0], d - 1).max(self.ubits_d(n.args[1], d - 1)) + 1,
            Op::Mul => self.ubits_d(n.args[0], d - 1) + self.ubits_d(n.args[1], d - 1),
            Op::Ite => self.ubits_d(n.args[1], d - 1).max(self.ubits_d(n.args[2], d - 1)),
            Op::UDiv => self.ubits_d(n.args[0], d - 1),
            Op::URem => self.ubits_d(n.args[1], d - 1),
            Op::Concat => { let h = self.ubits_d(n.args[0], d - 1); if h == 0 { self.ubits_d(n.args[1], d - 1) } else { h + self.w(n.args[1]) } }
            _ => n.w,
        };
        r.min(n.w)
    }
    pub fn table(&mut self, ew: u32, vals: Vec<u128>, idx: T) -> T {
        if let Some(k) = self.k(idx) { if (k as usize) < vals.len() { return self.c(vals[k as usize], ew); } }
        if vals.iter().all(|v| *v == vals[0]) { return self.c(vals[0], ew); }
        let key = (ew, vals);
        let id = if let Some(i) = self.tabmap.get(&key) { *i } else { let i = self.tables.len() as u32; self.tables.push(key.clone()); self.tabmap.insert(key, i); i };
        self.mk(Op::Table, ew, id as u128, &[idx])
    }

    // ---------- floats (64-bit patterns)
    pub fn fneg(&mut self, a: T) -> T {
        if self.op(a) == Op::Ite && (self.k(self.arg(a, 1)).is_some() || self.k(self.arg(a, 2)).is_some()) {
            let (c, x, y) = (self.arg(a, 0), self.arg(a, 1), self.arg(a, 2));
            let x = self.fneg(x); let y = self.fneg(y);
            return self.ite(c, x, y);
        }
        let s = self.c(SIGN, 64); self.xor(a, s) }
    pub fn fabs(&mut self, a: T) -> T { let (a, _) = self.unneg(a); let s = self.c(ABSM, 64); self.and(a, s) }
    pub fn fnan(&mut self, a: T) -> T {
        if let Some(k) = self.k(a) { return if f64::from_bits(k as u64).is_nan() { self.tru() } else { self.fls() }; }
        let a = self.fnum0(a);
        if self.k(a).is_some() { return self.fnan(a); }
        let n = self.nodes[a as usize].clone();
        match n.op {
            Op::UiToF | Op::SiToF => return self.fls(),
            Op::And if self.k(n.args[1]) == Some(SIGN) => return self.fls(),
            Op::Or if self.k(n.args[1]) == Some(EXPM) && self.op(n.args[0]) == Op::And && self.k(self.arg(n.args[0], 1)) == Some(SIGN) => return self.fls(),
            Op::Xor | Op::And if matches!(self.k(n.args[1]), Some(SIGN)) && n.op == Op::Xor || matches!(self.k(n.args[1]), Some(ABSM)) && n.op == Op::And => return self.fnan(n.args[0]),
            Op::FRem => { let x = self.ffinite(a); return self.not(x); }
            Op::Ite => { let x = self.fnan(n.args[1]); let y = self.fnan(n.args[2]); return self.ite(n.args[0], x, y); }
            Op::Table => { if self.tables[n.aux as usize].1.iter().all(|v| !f64::from_bits(*v as u64).is_nan()) { return self.fls(); } }
            _ => {}
        }
        self.mk(Op::FNan, 1, 0, &[a])
    }
    /// |a| == 0
    pub fn fzero(&mut self, a: T) -> T { let a = self.fnum0(a); let b = self.fabs(a); let z = self.c(0, 64); self.eq(b, z) }
    pub fn ffinite(&mut self, a: T) -> T {
        if let Some(k) = self.k(a) { return if f64::from_bits(k as u64).is_finite() { self.tru() } else { self.fls() }; }
        let a = self.fnum0(a);
        if self.k(a).is_some() { return self.ffinite(a); }
        if matches!(self.op(a), Op::UiToF | Op::SiToF) { return self.tru(); }
        let n = self.nodes[a as usize].clone();
        match n.op {
            Op::Ite => { let x = self.ffinite(n.args[1]); let y = self.ffinite(n.args[2]); return self.ite(n.args[0], x, y); }
            Op::Or if self.k(n.args[1]) == Some(EXPM) => return self.fls(),
            // a remainder is finite just where it is not NaN
            Op::FRem => { let x = self.ffinite(n.args[0]); let y = self.fnan(n.args[1]); let z = self.fzero(n.args[1]); let y = self.not(y); let z = self.not(z); let r = self.and(x, y); return self.and(r, z); }
            Op::And if self.k(n.args[1]) == Some(SIGN) => return self.tru(),
            Op::Xor if self.k(n.args[1]) == Some(SIGN) => return self.ffinite(n.args[0]),
            Op::And if self.k(n.args[1]) == Some(ABSM) => return self.ffinite(n.args[0]),
            _ => {}
        }
        let b = self.fabs(a); let z = self.c(EXPM, 64); self.ult(b, z)
    }
    pub fn feq(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return if f(x) == f(y) { self.tru() } else { self.fls() }; }
        if a == b { let n = self.fnan(a); return self.not(n); }
        if self.k(a).is_some() { return self.feq(b, a); }
        if let Some(y) = self.k(b) {
            if f(y).is_nan() { return self.fls(); }
            let op = self.op(a);
            if op == Op::UiToF {
                let x = self.arg(a, 0);
                if self.ubits(x) <= 53 {
                    let w = self.w(x);
                    let v = f(y);
                    if v >= 0.0 && v.trunc() == v && v < 9007199254740992.0 && (w >= 53 || v < (1u64 << w) as f64) { let k = self.c(v as u128, w); return self.eq(x, k); }
                    return self.fls();
                }
            }
            if f(y) == 0.0 { return self.fzero(a); }
            if op == Op::Xor && self.k(self.arg(a, 1)) == Some(SIGN) { let x = self.arg(a, 0); let k = self.c(y ^ SIGN, 64); return self.feq(x, k); }
            if op == Op::Ite {
                let (c, p, q) = (self.arg(a, 0), self.arg(a, 1), self.arg(a, 2));
                if self.k(p).is_some() || self.k(q).is_some() { let x = self.feq(p, b); let z = self.feq(q, b); return self.ite(c, x, z); }
            }
            // non-zero, non-NaN constant: plain equality
            return self.eq(a, b);
        }
        if self.op(a) == Op::UiToF && self.op(b) == Op::UiToF {
            let (x, y) = (self.arg(a, 0), self.arg(b, 0));
            if self.ubits(x) <= 53 && self.ubits(y) <= 53 { let w = self.w(x).max(self.w(y)); let x = self.zext(x, w); let y = self.zext(y, w); return self.eq(x, y); }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::FEq, 1, 0, &[a, b])
    }
    pub fn flt(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return if f(x) < f(y) { self.tru() } else { self.fls() }; }
        if a == b { return self.fls(); }
        if let Some(y) = self.k(b) { if f(y).is_nan() || f(y) == f64::NEG_INFINITY { return self.fls(); } if self.op(a) == Op::UiToF { let x = self.arg(a, 0); if let Some(r) = self.ulim(x, f(y), false, false) { return r; } } }
        if let Some(x) = self.k(a) { if f(x).is_nan() || f(x) == f64::INFINITY { return self.fls(); } if self.op(b) == Op::UiToF { let z = self.arg(b, 0); if let Some(r) = self.ulim(z, f(x), false, true) { return r; } } }
        self.mk(Op::FLt, 1, 0, &[a, b])
    }
    pub fn fle(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return if f(x) <= f(y) { self.tru() } else { self.fls() }; }
        if a == b { let n = self.fnan(a); return self.not(n); }
        if let Some(y) = self.k(b) { if f(y).is_nan() { return self.fls(); } if self.op(a) == Op::UiToF { let x = self.arg(a, 0); if let Some(r) = self.ulim(x, f(y), true, false) { return r; } } }
        if let Some(x) = self.k(a) { if f(x).is_nan() { return self.fls(); } if self.op(b) == Op::UiToF { let z = self.arg(b, 0); if let Some(r) = self.ulim(z, f(x), true, true) { return r; } } }
        self.mk(Op::FLe, 1, 0, &[a, b])
    }
    /// x < k (or x <= k) for an exactly converted unsigned integer x
    fn ulim(&mut self, x: T, k: f64, incl: bool, flip: bool) -> Option<T> {
        // flip: k < x (k <= x) instead
        let w = self.w(x);
        if self.ubits(x) > 53 || k.is_nan() || w > 64 { return None; }
        // number of values below the limit: x in [0, lim) satisfies
        let (c, on) = if !flip { (if incl { k.floor() + 1.0 } else { k.ceil() }, true) } else { (if incl { k.ceil() } else { k.floor() + 1.0 }, false) };
        let lim = if c <= 0.0 { 0u128 } else if c >= 9.1e15 { return Some(if on { self.tru() } else { self.fls() }) } else { c as u128 };
        let r = if lim == 0 { self.fls() } else if w < 64 && lim >= 1u128 << w { self.tru() } else { let l = self.c(lim, w); self.ult(x, l) };
        Some(if on { r } else { self.not(r) })
    }
    /// the value a term says is finite
    pub fn finite_of(&self, c: T) -> Option<T> {
        if self.op(c) != Op::Ult || self.k(self.arg(c, 1)) != Some(EXPM) || self.w(self.arg(c, 1)) != 64 { return None; }
        let a = self.arg(c, 0);
        if self.op(a) == Op::And && self.k(self.arg(a, 1)) == Some(ABSM) { Some(self.arg(a, 0)) } else { None }
    }
    fn fsgn(&mut self, a: T) -> T { let s = self.c(SIGN, 64); self.and(a, s) }
    fn fc(&mut self, v: f64) -> T { self.c(v.to_bits() as u128, 64) }
    /// strip a sign flip: (x, negated?)
    fn unneg(&self, a: T) -> (T, bool) {
        if self.op(a) == Op::Xor && self.k(self.arg(a, 1)) == Some(SIGN) { (self.arg(a, 0), true) }
        else { (a, false) }
    }
    pub fn fadd(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return self.fc(f(x) + f(y)); }
        if self.k(a).is_some() { return self.fadd(b, a); }
        if let Some(y) = self.k(b) {
            if f(y).is_nan() { return self.c(NAN, 64); }
            if y == SIGN { return a; } // x + -0
        }
        let (x, nx) = self.unneg(a); let (y, ny) = self.unneg(b);
        if x == y && nx != ny { // x + -x
            let fi = self.ffinite(x); let z = self.c(0, 64); let n = self.c(NAN, 64);
            return self.ite(fi, z, n);
        }
        // a sum of two negated values: factor the sign (round to nearest is symmetric), except exact zeros which both give -0+ -0 = -0 too
        let (a, b) = if a <= b || self.k(b).is_some() { (a, b) } else { (b, a) };
        self.mk(Op::FAdd, 64, 0, &[a, b])
    }
    pub fn fsub(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return self.fc(f(x) - f(y)); }
        let n = self.fneg(b); self.fadd(a, n)
    }
    pub fn fmul(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return self.fc(f(x) * f(y)); }
        if self.k(a).is_some() { return self.fmul(b, a); }
        let (x, nx) = self.unneg(a);
        if let Some(y) = self.k(b) {
            if f(y).is_nan() { return self.c(NAN, 64); }
            let ny = y & SIGN != 0;
            let ay = y & ABSM;
            if ny { let k = self.c(ay, 64); let r = self.fmul(x, k); return if nx { r } else { self.fneg(r) }; }
            if nx { let r = self.fmul(x, b); return self.fneg(r); }
            if ay == ONE { return x; }
            if ay == 0 { let fi = self.ffinite(x); let s = self.fsgn(x); let n = self.c(NAN, 64); return self.ite(fi, s, n); }
            return self.mk(Op::FMul, 64, 0, &[x, b]);
        }
        let (y, ny) = self.unneg(b);
        let (p, q) = if x <= y { (x, y) } else { (y, x) };
        let r = self.mk(Op::FMul, 64, 0, &[p, q]);
        if nx != ny { self.fneg(r) } else { r }
    }
    pub fn fdiv(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return self.fc(f(x) / f(y)); }
        let (mut x, mut nx) = self.unneg(a);
        let (mut y, mut ny) = self.unneg(b);
        if let Some(k) = self.k(x) { if f(k).is_nan() { return self.c(NAN, 64); } if k & SIGN != 0 { nx = !nx; x = self.c(k & ABSM, 64); } }
        if let Some(k) = self.k(y) { if f(k).is_nan() { return self.c(NAN, 64); } if k & SIGN != 0 { ny = !ny; y = self.c(k & ABSM, 64); } }
        let neg = nx != ny;
        let nan = self.c(NAN, 64);
        let r = if self.k(y) == Some(ONE) { x }
        else if x == y {
            let fi = self.ffinite(x); let z = self.fzero(x); let nz = self.not(z); let c = self.and(fi, nz); let one = self.c(ONE, 64);
            self.ite(c, one, nan)
        } else if self.k(x) == Some(0) { // 0 / y
            let na = self.fnan(y); let z = self.fzero(y); let bad = self.or(na, z); let s = self.fsgn(y);
            self.ite(bad, nan, s)
        } else if self.k(y) == Some(0) { // x / 0
            let na = self.fnan(x); let z = self.fzero(x); let bad = self.or(na, z); let s = self.fsgn(x); let e = self.c(EXPM, 64); let i = self.or(s, e);
            self.ite(bad, nan, i)
        } else { self.mk(Op::FDiv, 64, 0, &[x, y]) };
        if neg { self.fneg(r) } else { r }
    }
    pub fn frem(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return self.fc(f(x) % f(y)); }
        // result takes the sign of a, sign of b is irrelevant
        let (mut x, mut nx) = self.unneg(a);
        let (mut y, _) = self.unneg(b);
        let nan = self.c(NAN, 64);
        if let Some(k) = self.k(y) { if f(k).is_nan() || k & ABSM == 0 { return nan; } y = self.c(k & ABSM, 64); }
        if let Some(k) = self.k(x) { if !f(k).is_finite() { return nan; } if k & SIGN != 0 { nx = !nx; x = self.c(k & ABSM, 64); } }
        let r = if x == y {
            let fi = self.ffinite(x); let z = self.fzero(x); let nz = self.not(z); let c = self.and(fi, nz); let s = self.fsgn(x);
            self.ite(c, s, nan)
        } else if self.k(x) == Some(0) {
            let na = self.fnan(y); let z = self.fzero(y); let bad = self.or(na, z); let zero = self.c(0, 64);
            self.ite(bad, nan, zero)
        } else { self.mk(Op::FRem, 64, 0, &[x, y]) };
        if nx { self.fneg(r) } else { r }
    }
    pub fn fpow(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) { return self.fc(f(x).powf(f(y))); }
        if let Some(y) = self.k(b) {
            if y & ABSM == 0 { return self.c(ONE, 64); }
            if y == ONE { return a; }
        }
        if self.k(a) == Some(ONE) { return a; }
        { let z0 = self.fnum0(a); let z = self.k(a).unwrap_or(1); if self.k(z0) == Some(0) {
            // a zero to the y: NaN, 1, a zero or an infinity
            let (na, ze, zero) = (self.fnan(b), self.fzero(b), self.c(0, 64));
            let pos = self.flt(zero, b);
            let s = if z == 0 { zero } else { let r = self.mk(Op::FPow, 64, 0, &[a, b]); self.fsgn(r) };
            let (nan, one, inf) = (self.c(NAN, 64), self.c(ONE, 64), self.c(EXPM, 64));
            let i = self.or(s, inf);
            let x = self.ite(pos, s, i); let x = self.ite(ze, one, x);
            return self.ite(na, nan, x);
        } }
        self.mk(Op::FPow, 64, 0, &[a, b])
    }
    pub fn fun(&mut self, name: &'static str, a: T) -> T {
        if name == "fabs" { return self.fabs(a); }
        let code = FUN.iter().position(|x| *x == name).expect("fun") as u128;
        if let Some(k) = self.k(a) { return self.fc(ev_fun(code as usize, f(k))); }
        if self.op(a) == Op::UiToF && matches!(name, "trunc" | "floor" | "ceil" | "round" | "rint") && self.ubits(self.arg(a, 0)) <= 53 { return a; }
        self.mk(Op::FUn, 64, code, &[a])
    }
    pub fn uitof(&mut self, a: T) -> T {
        if let Some(k) = self.k(a) { return self.fc(k as f64); }
        if self.op(a) == Op::ZExt { let x = self.arg(a, 0); return self.uitof(x); }
        self.mk(Op::UiToF, 64, 0, &[a])
    }
    pub fn sitof(&mut self, a: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.k(a) { return self.fc(sx(k, w) as f64); }
        if self.ubits(a) < w { return self.uitof(a); }
        self.mk(Op::SiToF, 64, 0, &[a])
    }
    pub fn ftoui(&mut self, a: T, w: u32) -> T {
        if let Some(k) = self.k(a) { return self.c(f(k) as u128, w); }
        if self.op(a) == Op::UiToF { let x = self.arg(a, 0); if self.ubits(x) <= 53.min(w) { return self.zext(x, w); } }
        self.mk(Op::FToUi, w, 0, &[a])
    }
    pub fn ftosi(&mut self, a: T, w: u32) -> T {
        if let Some(k) = self.k(a) { return self.c(f(k) as i128 as u128, w); }
        self.mk(Op::FToSi, w, 0, &[a])
    }
    /// 64-bit float to 32-bit float, and back
    pub fn ftrunc(&mut self, a: T) -> T {
        if let Some(k) = self.k(a) { return self.c(ev_trunc(k), 32); }
        self.mk(Op::FTrunc, 32, 0, &[a])
    }
    pub fn fext(&mut self, a: T) -> T {
        if let Some(k) = self.k(a) { return self.c(ev_ext(k), 64); }
        self.mk(Op::FExt, 64, 0, &[a])
    }
    pub fn uf(&mut self, id: u32, args: &[T]) -> T {
        // user functions and the factorial do not tell the zeros apart
        let own: Vec<T>;
        let args = if matches!(self.uf_native[id as usize], 0 | 2) { own = args.iter().map(|a| self.fnum0(*a)).collect(); &own[..] } else { args };
        if args.iter().all(|a| self.k(*a).is_some()) {
            let v: Vec<f64> = args.iter().map(|a| f(self.k(*a).unwrap())).collect();
            let r = ev_uf(&self.ufs[id as usize], self.uf_native[id as usize], &v);
            return self.fc(r);
        }
        self.mk(Op::Uf, 64, id as u128, args)
    }
    /// zero-sign and NaN-payload insensitive form of an argument
    pub fn fcanon(&mut self, a: T) -> T {
        if let Some(k) = self.k(a) { let v = f(k); return if v == 0.0 { self.c(0, 64) } else if v.is_nan() { self.c(NAN, 64) } else { a }; }
        if matches!(self.op(a), Op::UiToF) { return a; }
        let a = self.fnum0(a);
        if let Some(k) = self.k(a) { return if f(k).is_nan() { self.c(NAN, 64) } else { a }; }
        let z = self.fzero(a); let n = self.fnan(a);
        let k0 = self.c(0, 64); let kn = self.c(NAN, 64);
        let x = self.ite(n, kn, a);
        self.ite(z, k0, x)
    }
    /// bit-equal, or both NaN
    pub fn fsame(&mut self, a: T, b: T) -> T {
        if a == b { return self.tru(); }
        let e = self.eq(a, b);
        let na = self.fnan(a); let nb = self.fnan(b);
        let both = self.and(na, nb);
        self.or(e, both)
    }
    /// numerically equal (zeros equal), or both NaN
    pub fn fsim(&mut self, a: T, b: T) -> T {
        if a == b { return self.tru(); }
        let e = self.feq(a, b);
        let na = self.fnan(a); let nb = self.fnan(b);
        let both = self.and(na, nb);
        self.or(e, both)
    }

    /// the same term under known facts: values of variables, and booleans known to be true or false
    pub fn subst(&mut self, t: T, map: &HashMap<T, T>, know: &mut dyn FnMut(&mut Arena, T) -> Option<bool>, memo: &mut HashMap<T, T>) -> T {
        self.subst_(t, map, know, memo, false)
    }
    /// the same without asking what is known about the term itself
    pub fn subst_inside(&mut self, t: T, map: &HashMap<T, T>, know: &mut dyn FnMut(&mut Arena, T) -> Option<bool>) -> T { self.subst_(t, map, know, &mut HashMap::new(), true) }
    fn subst_(&mut self, t: T, map: &HashMap<T, T>, know: &mut dyn FnMut(&mut Arena, T) -> Option<bool>, memo: &mut HashMap<T, T>, root: bool) -> T {
        if self.op(t) == Op::Const { return t; }
        if let Some(r) = map.get(&t) { return *r; }
        if let Some(r) = memo.get(&t) { return *r; }
        let w = self.w(t);
        let n = self.nodes[t as usize].clone();
        if root && n.op == Op::Not { let a = self.subst_(n.args[0], map, know, memo, true); return self.not(a); }
        if w == 1 && !root { if let Some(b) = know(self, t) { let r = self.c(b as u128, 1); memo.insert(t, r); return r; } }
        let mut a = Vec::with_capacity(n.args.len());
        for x in &n.args { let y = self.subst(*x, map, know, memo); a.push(y); }
        let r = if a == n.args { t } else {
            match n.op {
                Op::Const | Op::Var => t,
                Op::Not => self.not(a[0]), Op::And => self.and(a[0], a[1]), Op::Or => self.or(a[0], a[1]), Op::Xor => self.xor(a[0], a[1]),
                Op::Add => self.add(a[0], a[1]), Op::Mul => self.mul(a[0], a[1]),
                Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr => self.bin2(n.op, a[0], a[1]),
                Op::Eq => self.eq(a[0], a[1]), Op::Ult => self.ult(a[0], a[1]), Op::Ule => self.ule(a[0], a[1]), Op::Slt => self.slt(a[0], a[1]), Op::Sle => self.sle(a[0], a[1]),
                Op::Concat => self.concat(a[0], a[1]), Op::Extract => self.extract(a[0], n.aux as u32 + w - 1, n.aux as u32),
                Op::ZExt => self.zext(a[0], w), Op::SExt => self.sext(a[0], w), Op::Ite => self.ite(a[0], a[1], a[2]),
                Op::Table => { let (ew, v) = self.tables[n.aux as usize].clone(); self.table(ew, v, a[0]) }
                Op::FAdd => self.fadd(a[0], a[1]), Op::FMul => self.fmul(a[0], a[1]), Op::FDiv => self.fdiv(a[0], a[1]), Op::FRem => self.frem(a[0], a[1]), Op::FPow => self.fpow(a[0], a[1]),
                Op::FUn => self.fun(FUN[n.aux as usize], a[0]),
                Op::FEq => self.feq(a[0], a[1]), Op::FLt => self.flt(a[0], a[1]), Op::FLe => self.fle(a[0], a[1]), Op::FNan => self.fnan(a[0]),
                Op::UiToF => self.uitof(a[0]), Op::SiToF => self.sitof(a[0]), Op::FToUi => self.ftoui(a[0], w), Op::FToSi => self.ftosi(a[0], w), Op::FTrunc => self.ftrunc(a[0]), Op::FExt => self.fext(a[0]),
                Op::Uf => self.uf(n.aux as u32, &a),
            }
        };
        memo.insert(t, r);
        r
    }
    /// a term that is numerically the same (zeros equal whatever their sign, NaN alike)
    pub fn fnum0(&mut self, t: T) -> T { self.fnum(t, None, &mut HashMap::new()) }
    /// the same, given which terms are known to be zero (true) or not (false)
    pub fn fnum(&mut self, t: T, nz: Option<&dyn Fn(&mut Arena, T) -> Option<bool>>, memo: &mut HashMap<T, T>) -> T {
        if let Some(k) = self.k(t) { return if k & ABSM == 0 { self.c(0, 64) } else { t }; }
        if let Some(r) = if nz.is_none() { self.fnum_memo.get(&t) } else { memo.get(&t) } { return *r; }
        if let Some(f) = nz { if self.w(t) == 64 && f(self, t) == Some(true) { let r = self.c(0, 64); memo.insert(t, r); return r; } }
        let n = self.nodes[t as usize].clone();
        let r = match n.op {
            Op::FAdd => {
                let a = self.fnum(n.args[0], nz, memo); let b = self.fnum(n.args[1], nz, memo);
                if self.k(b) == Some(0) { a } else if self.k(a) == Some(0) { b } else { let r = self.fadd(a, b); if self.k(r) == Some(SIGN) { self.c(0, 64) } else { r } }
            }
            Op::FMul => { let a = self.fnum(n.args[0], nz, memo); let b = self.fnum(n.args[1], nz, memo); self.fmul(a, b) }
            // the sign of a zero denominator or base decides which infinity results
            Op::FDiv => { let a = self.fnum(n.args[0], nz, memo); let b = if nz.is_some_and(|f| f(self, n.args[1]) == Some(false)) { self.fnum(n.args[1], nz, memo) } else { n.args[1] }; self.fdiv(a, b) }
            Op::FPow => { let b = self.fnum(n.args[1], nz, memo); let a = if nz.is_some_and(|f| f(self, n.args[0]) == Some(false)) { self.fnum(n.args[0], nz, memo) } else { n.args[0] }; self.fpow(a, b) }
            Op::FRem => { let a = self.fnum(n.args[0], nz, memo); let b = self.fnum(n.args[1], nz, memo); self.frem(a, b) }
            Op::FUn if !matches!(FUN[n.aux as usize], "tgamma") => { let a = self.fnum(n.args[0], nz, memo); self.fun(FUN[n.aux as usize], a) }
            Op::Uf if matches!(self.uf_native[n.aux as usize], 0 | 2) => { let a: Vec<T> = n.args.iter().map(|x| self.fnum(*x, nz, memo)).collect(); self.uf(n.aux as u32, &a) }
            Op::Xor if self.k(n.args[1]) == Some(SIGN) => { let a = self.fnum(n.args[0], nz, memo); if self.k(a) == Some(0) { a } else { self.fneg(a) } }
            Op::And if self.k(n.args[1]) == Some(ABSM) => { let a = self.fnum(n.args[0], nz, memo); self.fabs(a) }
            Op::Ite => { let a = self.fnum(n.args[1], nz, memo); let b = self.fnum(n.args[2], nz, memo); self.ite(n.args[0], a, b) }
            // the sign of a value, alone: a zero
            Op::And if self.k(n.args[1]) == Some(SIGN) => self.c(0, 64),
            _ => t,
        };
        let r = if n.op != Op::Ite && self.op(r) == Op::Ite { self.fnum(r, nz, memo) } else { r };
        if nz.is_none() { self.fnum_memo.insert(t, r); self.fnum_memo.insert(r, r); } else { memo.insert(t, r); }
        r
    }
    /// the denominators and bases under a term that a sign of zero could matter for
    pub fn fzero_sensitive(&self, t: T, out: &mut Vec<T>, seen: &mut std::collections::HashSet<T>) {
        if !self.has_float[t as usize] || !seen.insert(t) { return; }
        let n = &self.nodes[t as usize];
        match n.op { Op::FDiv if self.k(n.args[1]).is_none() => out.push(n.args[1]), Op::FPow if self.k(n.args[0]).is_none() => out.push(n.args[0]), _ => {} }
        for a in &n.args { self.fzero_sensitive(*a, out, seen); }
    }

    // ---------- evaluation
    /// number of float operations in these terms
    pub fn fp_size(&self, ts: &[T]) -> usize {
        let mut seen = std::collections::HashSet::new();
        let mut todo: Vec<T> = ts.to_vec();
        let mut n = 0;
        while let Some(t) = todo.pop() {
            if !self.has_float[t as usize] || !seen.insert(t) { continue; }
            let x = &self.nodes[t as usize];
            if matches!(x.op, Op::FAdd | Op::FMul | Op::FDiv | Op::FRem) { n += 1; }
            todo.extend(&x.args);
        }
        n
    }
    pub fn eval(&self, t: T, m: &Model, memo: &mut HashMap<T, u128>) -> u128 {
        let n = &self.nodes[t as usize];
        match n.op { Op::Const => return n.aux, Op::Var => return m.get(&(n.aux as u32)).copied().unwrap_or(0), _ => {} }
        if let Some(v) = memo.get(&t) { return *v; }
        let r = match n.op {
            Op::Ite => { if self.eval(n.args[0], m, memo) != 0 { self.eval(n.args[1], m, memo) } else { self.eval(n.args[2], m, memo) } }
            _ => {
                let mut a = [0u128; 3];
                let mut many = vec![];
                if n.args.len() > 3 { many = n.args.iter().map(|x| self.eval(*x, m, memo)).collect(); }
                else { for (i, x) in n.args.iter().enumerate() { a[i] = self.eval(*x, m, memo); } }
                let aw = n.args.first().map(|x| self.w(*x)).unwrap_or(0);
                let fb = |v: f64| v.to_bits() as u128;
                match n.op {
                    Op::Not => mask(!a[0], n.w),
                    Op::And => a[0] & a[1],
                    Op::Or => a[0] | a[1],
                    Op::Xor => a[0] ^ a[1],
                    Op::Add => mask(a[0].wrapping_add(a[1]), n.w),
                    Op::Mul => mask(a[0].wrapping_mul(a[1]), n.w),
                    Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr => ev_bin(n.op, a[0], a[1], n.w),
                    Op::Eq => (a[0] == a[1]) as u128,
                    Op::Ult => (a[0] < a[1]) as u128,
                    Op::Ule => (a[0] <= a[1]) as u128,
                    Op::Slt => (sx(a[0], aw) < sx(a[1], aw)) as u128,
                    Op::Sle => (sx(a[0], aw) <= sx(a[1], aw)) as u128,
                    Op::Concat => (a[0] << self.w(n.args[1])) | a[1],
                    Op::Extract => mask(a[0] >> n.aux, n.w),
                    Op::ZExt => a[0],
                    Op::SExt => mask(sx(a[0], aw) as u128, n.w),
                    Op::Table => { let v = &self.tables[n.aux as usize].1; v.get(a[0] as usize).copied().unwrap_or(0) }
                    Op::FAdd => fb(f(a[0]) + f(a[1])),
                    Op::FMul => fb(f(a[0]) * f(a[1])),
                    Op::FDiv => fb(f(a[0]) / f(a[1])),
                    Op::FRem => fb(f(a[0]) % f(a[1])),
                    Op::FPow => fb(f(a[0]).powf(f(a[1]))),
                    Op::FUn => fb(ev_fun(n.aux as usize, f(a[0]))),
                    Op::FEq => (f(a[0]) == f(a[1])) as u128,
                    Op::FLt => (f(a[0]) < f(a[1])) as u128,
                    Op::FLe => (f(a[0]) <= f(a[1])) as u128,
                    Op::FNan => f(a[0]).is_nan() as u128,
                    Op::UiToF => fb(a[0] as f64),
                    Op::SiToF => fb(sx(a[0], aw) as f64),
                    Op::FTrunc => ev_trunc(a[0]),
                    Op::FExt => ev_ext(a[0]),
                    Op::FToUi => mask(f(a[0]) as u128, n.w),
                    Op::FToSi => mask(f(a[0]) as i128 as u128, n.w),
                    Op::Uf => {
                        let v: Vec<f64> = if n.args.len() > 3 { many.iter().map(|x| f(*x)).collect() } else { a[..n.args.len()].iter().map(|x| f(*x)).collect() };
                        fb(ev_uf(&self.ufs[n.aux as usize], self.uf_native[n.aux as usize], &v))
                    }
                    Op::Const | Op::Var | Op::Ite => unreachable!(),
                }
            }
        };
        // canonical NaN for every float-producing node
        let r = if matches!(n.op, Op::FAdd | Op::FMul | Op::FDiv | Op::FRem | Op::FPow | Op::FUn | Op::Uf) && f(r).is_nan() { NAN } else { r };
        memo.insert(t, r);
        r
    }
    /// truth table of a boolean term over one byte variable
    pub fn truth(&mut self, t: T, var: u32) -> [u64; 4] {
        if let Some(x) = self.tt.get(&t) { return *x; }
        let mut r = [0u64; 4];
        let mut m = Model::new();
        let mut memo = HashMap::new();
        for v in 0..256u32 {
            m.insert(var, v as u128);
            memo.clear();
            if self.eval(t, &m, &mut memo) != 0 { r[(v / 64) as usize] |= 1 << (v % 64); }
        }
        self.tt.insert(t, r);
        r
    }
    pub fn show(&self, t: T, d: u32) -> String {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Const => if n.w == 64 && n.aux > 0xffff_ffff { format!("{:#x}", n.aux) } else { format!("{}", n.aux) },
            Op::Var => format!("v{}", self.var_kind[n.aux as usize].1),
            _ if d == 0 => "..".into(),
            _ => {
                let a: Vec<String> = n.args.iter().map(|x| self.show(*x, d - 1)).collect();
                let nm = match n.op { Op::Uf => self.ufs[n.aux as usize].clone(), Op::FUn => FUN[n.aux as usize].into(), o => format!("{:?}", o) };
                let x = if n.op == Op::Extract { format!("[{}+{}]", n.aux, n.w) } else { String::new() };
                format!("{nm}{x}({})", a.join(","))
            }
        }
    }
}

pub const FUN: &[&str] = &["sqrt", "trunc", "floor", "ceil", "round", "exp", "log", "log10", "sin", "cos", "rint", "log2", "exp2", "tgamma", "cbrt", "log1p", "atan", "tan", "tanh", "acos", "acosh", "asin", "asinh", "cosh", "sinh", "expm1", "atanh", "lgamma"];

extern "C" { fn tgamma(x: f64) -> f64; fn lgamma(x: f64) -> f64; }

pub fn ev_fun(code: usize, x: f64) -> f64 {
    match FUN[code] {
        "sqrt" => x.sqrt(), "trunc" => x.trunc(), "floor" => x.floor(), "ceil" => x.ceil(), "round" => x.round(),
        "exp" => x.exp(), "log" => x.ln(), "log10" => x.log10(), "sin" => x.sin(), "cos" => x.cos(), "rint" => x.round_ties_even(),
        "log2" => x.log2(), "exp2" => x.exp2(), "tgamma" => unsafe { tgamma(x) }, "cbrt" => x.cbrt(), "log1p" => x.ln_1p(),
        "atan" => x.atan(), "tan" => x.tan(), "tanh" => x.tanh(), "acos" => x.acos(), "acosh" => x.acosh(), "asin" => x.asin(),
        "asinh" => x.asinh(), "cosh" => x.cosh(), "sinh" => x.sinh(), "expm1" => x.exp_m1(), "atanh" => x.atanh(), "lgamma" => unsafe { lgamma(x) },
        _ => unreachable!(),
    }
}
/// native meaning of uninterpreted functions. kind 0: user function; the harness' native build uses the same formula
pub fn ev_uf(name: &str, kind: u8, v: &[f64]) -> f64 {
    match kind {
        1 => match name { "hypot" => v[0].hypot(v[1]), "atan2" => v[0].atan2(v[1]), "fmin" => v[0].min(v[1]), "fmax" => v[0].max(v[1]), "fma" => v[0].mul_add(v[1], v[2]), _ => panic!("uf {name}") },
        2 => fact(v[0]),
        3 => v[0].powi(name.trim_start_matches("powi").parse().unwrap_or(0)),
        _ => { let id: u32 = name.trim_start_matches("uf").parse().unwrap_or(0); user_fn(id, v) }
    }
}
pub fn user_fn(id: u32, v: &[f64]) -> f64 {
    let mut acc = 0.5 + id as f64 * 0.25;
    for (i, x) in v.iter().enumerate() {
        let x = if *x == 0.0 { 0.0 } else { *x };
        acc = acc * 1.25 + x * (1.375 + 0.5 * i as f64 + 0.125 * id as f64);
    }
    if acc.is_nan() { f64::NAN } else { acc }
}
pub fn fact(x: f64) -> f64 {
    if x.is_nan() || x < 0.0 || (x.is_finite() && x.fract() != 0.0) { return f64::NAN; }
    if x > 170.0 { return f64::INFINITY; }
    let mut r = 1.0f64; let mut i = 2.0; while i <= x { r *= i; i += 1.0; } r
}

pub fn ev_trunc(k: u128) -> u128 { let v = f(k); if v.is_nan() { 0x7fc0_0000 } else { (v as f32).to_bits() as u128 } }
pub fn ev_ext(k: u128) -> u128 { let v = f32::from_bits(k as u32); if v.is_nan() { NAN } else { (v as f64).to_bits() as u128 } }
pub fn f(x: u128) -> f64 { f64::from_bits(x as u64) }
pub fn sx(v: u128, w: u32) -> i128 { let v = mask(v, w); if w >= 128 { v as i128 } else { let s = 128 - w; ((v << s) as i128) >> s } }
pub fn ev_bin(op: Op, a: u128, b: u128, w: u32) -> u128 {
    mask(match op {
        Op::UDiv => if b == 0 { !0 } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { !0 } else { x.wrapping_div(y) as u128 } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => if b >= w as u128 { (sx(a, w) >> 127) as u128 } else { (sx(a, w) >> b) as u128 },
        _ => unreachable!(),
    }, w)
}
