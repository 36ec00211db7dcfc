//! Reference reading of an expression: a layered grammar and an evaluator, written from the documentation
//! and sharing no code with the implementation.
use crate::sym;

/// what a name of the context stands for
#[derive(Clone, Copy)]
pub enum Sym { Const(f64), Fun(&'static str, fn(&[f64]) -> f64, Option<u8>) }

pub enum R<'a> {
    Num(f64),
    Var(&'a str),
    Neg(Box<R<'a>>),
    Pos(Box<R<'a>>),
    Fact(Box<R<'a>>),
    Bin(u8, Box<R<'a>>, Box<R<'a>>),
    Call(fn(&[f64]) -> f64, Vec<R<'a>>),
}

pub struct P<'a, 'c> { s: &'a [u8], i: usize, ctx: &'c [(&'c str, Sym)], jux_tight: bool, last_num: bool }

fn letter(c: u8) -> bool { (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') }
fn digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
fn blank(c: u8) -> bool { c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' || c == 12 }

impl<'a> P<'a, '_> {
    fn peek(&mut self) -> Option<u8> {
        while self.i < self.s.len() && blank(self.s[self.i]) { self.i += 1; }
        if self.i < self.s.len() { Some(self.s[self.i]) } else { None }
    }
    fn at(&self, k: usize) -> u8 { if self.i + k < self.s.len() { self.s[self.i + k] } else { 0 } }
    fn sum(&mut self) -> Option<R<'a>> {
        let mut l = self.product()?;
        loop {
            match self.peek() {
                Some(o) if o == b'+' || o == b'-' => { self.i += 1; let r = self.product()?; l = R::Bin(o, Box::new(l), Box::new(r)); }
                _ => return Some(l),
            }
        }
    }
    /// may a juxtaposed factor start here?
    fn jux(&mut self) -> bool {
        match self.peek() { Some(c) => letter(c) || c == b'(' || (digit(c) && !self.last_num), None => false }
    }
    fn product(&mut self) -> Option<R<'a>> {
        let mut l = if self.jux_tight { self.group()? } else { self.power()? };
        loop {
            match self.peek() {
                Some(o) if o == b'*' || o == b'/' || o == b'%' => {
                    self.i += 1;
                    let r = if self.jux_tight { self.group()? } else { self.power()? };
                    l = R::Bin(o, Box::new(l), Box::new(r));
                }
                _ if !self.jux_tight && self.jux() => { let r = self.power()?; l = R::Bin(b'*', Box::new(l), Box::new(r)); }
                _ => return Some(l),
            }
        }
    }
    /// juxtaposed factors that bind tighter than explicit products
    fn group(&mut self) -> Option<R<'a>> {
        let mut l = self.power()?;
        while self.jux() { let r = self.power()?; l = R::Bin(b'*', Box::new(l), Box::new(r)); }
        Some(l)
    }
    fn power(&mut self) -> Option<R<'a>> {
        let mut l = self.operand()?;
        while self.peek() == Some(b'^') { self.i += 1; let r = self.operand()?; l = R::Bin(b'^', Box::new(l), Box::new(r)); }
        Some(l)
    }
    fn operand(&mut self) -> Option<R<'a>> {
        let mut x = self.atom()?;
        if self.peek() == Some(b'!') { self.i += 1; x = R::Fact(Box::new(x)); self.last_num = false; }
        Some(x)
    }
    fn atom(&mut self) -> Option<R<'a>> {
        let c = self.peek()?;
        if c == b'(' {
            self.i += 1;
            let x = self.sum()?;
            if self.peek() != Some(b')') { return None; }
            self.i += 1;
            // a parenthesised number is still a number
            self.last_num = matches!(x, R::Num(_));
            return Some(x);
        }
        if c == b'+' || c == b'-' {
            self.i += 1;
            let x = self.power()?;
            self.last_num = false;
            return Some(if c == b'-' { R::Neg(Box::new(x)) } else { R::Pos(Box::new(x)) });
        }
        if digit(c) || c == b'.' { let v = self.number()?; self.last_num = true; return Some(R::Num(v)); }
        if letter(c) { return self.name(); }
        None
    }
    fn number(&mut self) -> Option<f64> {
        let mut t: Vec<u8> = Vec::with_capacity(self.s.len());
        while digit(self.at(0)) || self.at(0) == b'.' || self.at(0) == b'_' { if self.at(0) != b'_' { t.push(self.at(0)); } self.i += 1; }
        if self.at(0) == b'e' || self.at(0) == b'E' {
            let signed = self.at(1) == b'+' || self.at(1) == b'-';
            if digit(self.at(1)) || signed && digit(self.at(2)) {
                t.push(b'e'); self.i += 1;
                if signed { t.push(self.at(0)); self.i += 1; }
                while digit(self.at(0)) { t.push(self.at(0)); self.i += 1; }
            }
        }
        decimal(&t)
    }
    fn name(&mut self) -> Option<R<'a>> {
        let st = self.i;
        while letter(self.at(0)) || digit(self.at(0)) || self.at(0) == b'_' || self.at(0) == b'\'' { self.i += 1; }
        let n: &'a [u8] = &self.s[st..self.i];
        let n: &'a str = unsafe { std::str::from_utf8_unchecked(n) };
        let mut s = None;
        for (k, v) in self.ctx { if *k == n { s = Some(*v); } }
        if s.is_none() { s = builtin(n); }
        match s {
            None => { self.last_num = false; Some(R::Var(n)) }
            Some(Sym::Const(v)) => { self.last_num = true; Some(R::Num(v)) }
            Some(Sym::Fun(_, f, n)) => {
                if self.peek() != Some(b'(') { return None; }
                self.i += 1;
                let mut args = vec![];
                loop {
                    args.push(self.sum()?);
                    match self.peek() { Some(b',') => self.i += 1, Some(b')') => { self.i += 1; break; } _ => return None }
                }
                if let Some(n) = n { if n as usize != args.len() { return None; } }
                self.last_num = false;
                Some(R::Call(f, args))
            }
        }
    }
}

/// the number a decimal text denotes; None if it is not a decimal number
pub fn decimal(t: &[u8]) -> Option<f64> {
    let mut i = 0;
    let mut m: u64 = 0;
    let mut nd = 0;
    let mut scale: i64 = 0;
    let mut dot = false;
    let mut big = false;
    while i < t.len() && t[i] != b'e' {
        if t[i] == b'.' { if dot { return None; } dot = true; }
        else { nd += 1; if nd > 15 { big = true; } else { m = m * 10 + (t[i] - b'0') as u64; } if dot { scale -= 1; } }
        i += 1;
    }
    if nd == 0 { return None; }
    if i < t.len() {
        i += 1;
        let neg = t[i] == b'-';
        if neg || t[i] == b'+' { i += 1; }
        let mut e: i64 = 0;
        while i < t.len() { if e < 10000 { e = e * 10 + (t[i] - b'0') as i64; } i += 1; }
        scale += if neg { -e } else { e };
    }
    const TEN: [f64; 23] = [1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22];
    // up to 15 digits and powers up to 10^22 are exact: one correctly rounded operation
    if !big && scale >= -22 && scale <= 22 {
        let v = m as f64;
        return Some(if scale == 0 { v } else if scale < 0 { v / TEN[(-scale) as usize] } else { v * TEN[scale as usize] });
    }
    if !big && m == 0 { return Some(0.0); }
    // outside: the standard library's reading
    unsafe { std::str::from_utf8_unchecked(t) }.parse().ok()
}

include!("fact_table.rs");
pub fn fact(x: f64) -> f64 {
    if x < 0.0 { return f64::NAN; }
    if x.is_infinite() { return f64::INFINITY; }
    if x.fract() != 0.0 { return f64::NAN; }
    if x > 170.0 { return f64::INFINITY; }
    FACT[unsafe { x.to_int_unchecked::<usize>() }]
}
extern "C" { fn tgamma(x: f64) -> f64; }

pub fn builtin(n: &str) -> Option<Sym> {
    macro_rules! f1 { ($n:literal, $f:expr) => { Some(Sym::Fun($n, |a| $f(a[0]), Some(1))) } }
    macro_rules! f2 { ($n:literal, $f:expr) => { Some(Sym::Fun($n, |a| $f(a[0], a[1]), Some(2))) } }
    match n {
        "pi" => Some(Sym::Const(std::f64::consts::PI)),
        "e" => Some(Sym::Const(std::f64::consts::E)),
        "sin" => f1!("sin", f64::sin), "cos" => f1!("cos", f64::cos), "tan" => f1!("tan", f64::tan),
        "asin" => f1!("asin", f64::asin), "acos" => f1!("acos", f64::acos), "atan" => f1!("atan", f64::atan),
        "sinh" => f1!("sinh", f64::sinh), "cosh" => f1!("cosh", f64::cosh), "tanh" => f1!("tanh", f64::tanh),
        "asinh" => f1!("asinh", f64::asinh), "acosh" => f1!("acosh", f64::acosh), "atanh" => f1!("atanh", f64::atanh),
        "atan2" => f2!("atan2", f64::atan2), "hypot" => f2!("hypot", f64::hypot), "logn" => f2!("logn", f64::log),
        "ln" => f1!("ln", f64::ln), "log" => f1!("log", f64::log10),
        "sqrt" => f1!("sqrt", f64::sqrt), "cbrt" => f1!("cbrt", f64::cbrt), "exp" => f1!("exp", f64::exp),
        "floor" => f1!("floor", f64::floor), "ceil" => f1!("ceil", f64::ceil), "round" => f1!("round", f64::round), "trunc" => f1!("trunc", f64::trunc),
        "abs" => f1!("abs", f64::abs), "fract" => f1!("fract", f64::fract),
        "recip" => f1!("recip", |x: f64| 1.0 / x), "invert" => f1!("invert", |x: f64| 1.0 / x),
        "factorial" => f1!("factorial", fact), "gamma" => f1!("gamma", |x: f64| unsafe { tgamma(x) }),
        "sum" => Some(Sym::Fun("sum", all_sum, None)),
        "mean" => Some(Sym::Fun("mean", all_mean, None)),
        "min" => Some(Sym::Fun("min", all_min, None)),
        "max" => Some(Sym::Fun("max", all_max, None)),
        _ => None,
    }
}

/// None: not an expression
pub fn read<'a>(s: &'a str, ctx: &[(&str, Sym)]) -> Option<R<'a>> {
    let mut p = P { s: s.as_bytes(), i: 0, ctx, jux_tight: cfg!(feature = "pejmdas"), last_num: false };
    let r = p.sum()?;
    if p.peek().is_some() { return None; }
    Some(r)
}

impl<'a> R<'a> {
    /// the value; with `fin`, only for assignments that keep every intermediate result finite
    pub fn value(&self, env: &dyn Fn(&str) -> f64, fin: bool) -> f64 {
        let v = match self {
            R::Num(x) => *x,
            R::Var(n) => env(n),
            R::Neg(x) => -x.value(env, fin),
            R::Pos(x) => x.value(env, fin),
            R::Fact(x) => fact(x.value(env, fin)),
            R::Bin(o, l, r) => {
                let a = l.value(env, fin);
                let b = r.value(env, fin);
                if *o == b'+' { a + b } else if *o == b'-' { a - b } else if *o == b'*' { a * b } else if *o == b'/' { a / b } else if *o == b'%' { a % b } else { a.powf(b) }
            }
            R::Call(f, args) => {
                let mut v = Vec::with_capacity(args.len());
                for a in args { v.push(a.value(env, fin)); }
                f(&v)
            }
        };
        if fin { sym::finite(v); }
        v
    }
    /// distinct variables in order of appearance
    pub fn vars(&self, out: &mut Vec<&'a str>) {
        match self {
            R::Num(_) => {}
            R::Var(n) => if !out.iter().any(|x| x == n) { out.push(n) },
            R::Neg(x) | R::Pos(x) | R::Fact(x) => x.vars(out),
            R::Bin(_, l, r) => { l.vars(out); r.vars(out); }
            R::Call(_, a) => for x in a { x.vars(out) },
        }
    }
}
fn all_sum(a: &[f64]) -> f64 { let mut s = a[0]; for x in &a[1..] { s += *x; } s }
fn all_mean(a: &[f64]) -> f64 { let mut s = a[0]; for x in &a[1..] { s += *x; } s / a.len() as f64 }
fn all_min(a: &[f64]) -> f64 { let mut s = f64::INFINITY; for x in a { s = s.min(*x); } s }
fn all_max(a: &[f64]) -> f64 { let mut s = f64::NEG_INFINITY; for x in a { s = s.max(*x); } s }
impl R<'_> {
    /// does it use a function whose zero may have either sign?
    pub fn loose(&self) -> bool {
        match self {
            R::Num(_) | R::Var(_) => false,
            R::Neg(a) | R::Pos(a) | R::Fact(a) => a.loose(),
            R::Bin(_, a, b) => a.loose() || b.loose(),
            R::Call(f, v) => { let f = *f as usize; let all: [fn(&[f64]) -> f64; 4] = [all_sum, all_mean, all_min, all_max]; for g in all { if g as usize == f { return true; } } for a in v { if a.loose() { return true; } } false }
        }
    }
}
