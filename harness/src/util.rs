use crate::refm::{Sym, R};
use crate::sym;
use std::collections::HashMap;
use xprs::{xprs_fn, Context, Parser, Xprs};

/// Alphabets of the placeholders in a text template (byte 0x80+i stands for "any byte of AL[i]").
pub const AL: &[&[u8]] = &[
    b"",                                   // 0: any byte at all
    b"xy12()+-*/%^! ",                     // 1 expressions
    b"xyfk2()+-*^!, ",                     // 2 expressions with functions and constants
    b"+-*/%^",                             // 3 binary operators
    b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'", // 4 inside a name
    b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ",             // 5 start of a name
    b"0123456789._eE+-",                   // 6 literals
    b"0123456789",                         // 7 digits
    b"xy201k",                             // 8 operands
    b" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~", // 9 printable
    b" \t\n\x0b\x0c\r",                    // 10 blanks and a near-blank
    b"+-*/%^ ",                            // 11 operators or nothing
    b"\xc3",                               // 12
    b"\xa9\xa0\xbf",                       // 13
    b"xyz",                                // 14 variables
    b"+- ",                                // 15 sign or nothing
    b"! ",                                 // 16 factorial or nothing
    b"abcdefghiz",                         // 17 bind names
    b"(x2-",                               // 18 start of an operand
    b"kmn",                                // 19 constants of the context
    b"x210",                               // 20 a variable or a small literal
    b"+-*/%^! ()x2",                       // 21
    b"fgh",                                // 22 functions of the context
    b"km02",                               // 23 constants and literals
    b"sincotahrglpemx1' (",                // 24 letters of the built-ins
    b"0123456789.eE+-_ x",                 // 25 literals and what may follow
    b"xy",                                 // 26
    b"*/%",                                // 27
    b"+-",                                 // 28
    b"xX2 (",                              // 29
    b") ",                                 // 30 close or nothing
    b"xkm2FG()+,",                         // 31 pieces of calls
    b"FGH",                                // 32 functions of h_calls
    b"xykm2",                              // 33 arguments
    b"x012",                               // 34
    b",+ ",                                // 35 separators
    b"xX1'_ ",                             // 36 ends of names like x
    b"abcdi",                              // 37
    b"4567890.",                           // 38
    b"exit \t",                            // 39
];

pub struct In { pub at: u64, pub id: u32 }
impl In {
    pub fn new() -> In { In { at: 0, id: 0 } }
    pub fn next(&mut self) -> u64 { let v = sym::param(self.at); self.at += 1; v }
    /// A text from the template in the parameters (length, then 8 bytes per parameter), in an
    /// allocation of exactly its size so that any read outside it is a memory error.
    pub fn text(&mut self) -> Option<&'static str> {
        let n = self.next() as usize;
        let mut b = vec![0u8; n].into_boxed_slice();
        let mut ascii = true;
        for i in 0..n {
            let t = (sym::param(self.at + i as u64 / 8) >> (i % 8 * 8)) as u8;
            b[i] = if t < 0x80 { t } else {
                let a = (t & 0x7f) as usize;
                self.id += 1;
                if a == 0 { ascii = false; any(self.id - 1) } else { if a == 12 || a == 13 { ascii = false; } sym::byte(self.id - 1, AL[a]) }
            };
        }
        self.at += (n as u64 + 7) / 8;
        let b: &'static [u8] = Box::leak(b);
        if ascii { Some(unsafe { std::str::from_utf8_unchecked(b) }) } else { std::str::from_utf8(b).ok() }
    }
}
fn any(id: u32) -> u8 {
    const ALL: [u8; 256] = { let mut a = [0; 256]; let mut i = 0; while i < 256 { a[i] = i as u8; i += 1; } a };
    sym::byte(id, &ALL)
}

pub fn f1(a: &[f64]) -> f64 { sym::uf(1, a) }
pub fn f2(a: &[f64]) -> f64 { sym::uf(2, a) }
pub fn f3(a: &[f64]) -> f64 { sym::uf(3, a) }
fn o1(a: &[f64]) -> f64 { sym::uf(21, a) }
fn o2(a: &[f64]) -> f64 { sym::uf(22, a) }
fn o3(a: &[f64]) -> f64 { sym::uf(23, a) }
/// contexts: what the parser gets and what the reference gets
pub fn context(k: u64) -> (Context<'static>, Vec<(&'static str, Sym)>) {
    let n = |i: u32| sym::num(2000 + i);
    match k {
        1 => {
            let c = n(0);
            (Context::default().with_var("k", c).with_fn(xprs_fn!("f", |x| f1(&[x]), 1)).with_fn(xprs_fn!("g", |x, y| f2(&[x, y]), 2)).with_fn(xprs_fn!("h", f3)),
             vec![("k", Sym::Const(c)), ("f", Sym::Fun("f", f1, Some(1))), ("g", Sym::Fun("g", f2, Some(2))), ("h", Sym::Fun("h", f3, None))])
        }
        // shadows built-ins
        2 => {
            let (a, b, c) = (n(0), n(1), n(2));
            (Context::default().with_var("pi", a).with_var("sin", b).with_var("x", c).with_fn(xprs_fn!("e", |x| f1(&[x]), 1)).with_fn(xprs_fn!("cos", |x, y| f2(&[x, y]), 2)).with_var("a'", b),
             vec![("pi", Sym::Const(a)), ("sin", Sym::Const(b)), ("x", Sym::Const(c)), ("e", Sym::Fun("e", f1, Some(1))), ("cos", Sym::Fun("cos", f2, Some(2))), ("a'", Sym::Const(b))])
        }
        // constants only
        3 => {
            let (a, b, c) = (n(0), n(1), n(2));
            (Context::default().with_var("k", a).with_var("m", b).with_var("n", c).with_fn(xprs_fn!("f", |x| f1(&[x]), 1)).with_fn(xprs_fn!("g", dyn |x, y| f2(&[x, y]), 2)),
             vec![("k", Sym::Const(a)), ("m", Sym::Const(b)), ("n", Sym::Const(c)), ("f", Sym::Fun("f", f1, Some(1))), ("g", Sym::Fun("g", f2, Some(2)))])
        }
        // as 1, with a constant that can be displayed
        4 => {
            let c = 2.5;
            (Context::default().with_var("k", c).with_fn(xprs_fn!("f", |x| f1(&[x]), 1)).with_fn(xprs_fn!("g", |x, y| f2(&[x, y]), 2)).with_fn(xprs_fn!("h", f3)),
             vec![("k", Sym::Const(c)), ("f", Sym::Fun("f", f1, Some(1))), ("g", Sym::Fun("g", f2, Some(2))), ("h", Sym::Fun("h", f3, None))])
        }
        // every built-in function's name has another meaning
        5 => {
            let (mut c, mut r) = (Context::default(), Vec::with_capacity(40));
            macro_rules! one { ($($n:literal $i:literal),*) => { $( c.set_fn(xprs_fn!($n, |x| sym::uf($i, &[x]), 1)); r.push(($n, Sym::Fun($n, |a: &[f64]| sym::uf($i, a), Some(1)))); )* } }
            macro_rules! two { ($($n:literal $i:literal),*) => { $( c.set_fn(xprs_fn!($n, |x, y| sym::uf($i, &[x, y]), 2)); r.push(($n, Sym::Fun($n, |a: &[f64]| sym::uf($i, a), Some(2)))); )* } }
            macro_rules! many { ($($n:literal $i:literal),*) => { $( c.set_fn(xprs_fn!($n, |a| sym::uf($i, a))); r.push(($n, Sym::Fun($n, |a: &[f64]| sym::uf($i, a), None))); )* } }
            one!("sin" 40, "cos" 41, "tan" 42, "asin" 43, "acos" 44, "atan" 45, "sinh" 46, "cosh" 47, "tanh" 48, "asinh" 49, "acosh" 50, "atanh" 51, "ln" 52, "log" 53, "sqrt" 54, "cbrt" 55, "exp" 56, "floor" 57, "ceil" 58, "round" 59, "trunc" 60, "abs" 61, "fract" 62, "recip" 63, "invert" 64, "factorial" 65, "gamma" 66);
            two!("atan2" 67, "hypot" 68, "logn" 69);
            many!("sum" 70, "mean" 71, "min" 72, "max" 73);
            (c, r)
        }
        _ => (Context::default(), vec![]),
    }
}
/// a context that gives other meanings to the names of all the others
pub fn other() -> Context<'static> {
    let n = |i: u32| sym::num(2100 + i);
    Context::default().with_var("k", n(0)).with_var("m", n(1)).with_var("pi", n(2)).with_var("sin", n(3)).with_var("x", n(4)).with_fn(xprs_fn!("f", |x| o1(&[x]), 1)).with_fn(xprs_fn!("g", |x, y| o2(&[x, y]), 2)).with_fn(xprs_fn!("h", o3)).with_fn(xprs_fn!("max", o3))
}
pub fn parser(k: u64) -> (Parser<'static>, Vec<(&'static str, Sym)>) { let (c, r) = context(k); (Parser::new_with_ctx(c), r) }

/// the values of variables: one free number for each distinct variable of the reference tree
pub struct Vars<'a> { pub names: Vec<&'a str>, pub vals: Vec<f64> }
impl<'a> Vars<'a> {
    pub fn of(r: &R<'a>) -> Vars<'a> {
        let mut names = vec![];
        r.vars(&mut names);
        let vals = (0..names.len()).map(|i| sym::num(1000 + i as u32)).collect();
        Vars { names, vals }
    }
    pub fn get(&self, n: &str) -> f64 {
        for i in 0..self.names.len() { if self.names[i] == n { return self.vals[i]; } }
        0.0
    }
    pub fn map(&self) -> HashMap<&'a str, f64> {
        let mut m = HashMap::new();
        for i in 0..self.names.len() { m.insert(self.names[i], self.vals[i]); }
        m
    }
    pub fn value(&self, r: &R<'a>, fin: bool) -> f64 { r.value(&|n| self.get(n), fin) }
}
/// the reported variables, in a fixed order
pub fn sorted<'a>(x: &Xprs<'a>) -> Vec<&'a str> {
    let mut v: Vec<&'a str> = Vec::new();
    for n in &x.vars {
        let mut i = 0;
        while i < v.len() && v[i] < *n { i += 1; }
        v.insert(i, n);
    }
    v
}
pub fn has(v: &[&str], n: &str) -> bool { for x in v { if *x == n { return true; } } false }
pub fn same_set(a: &[&str], b: &[&str]) -> bool {
    if a.len() != b.len() { return false; }
    for x in a { if !has(b, x) { return false; } }
    true
}
pub fn contains(hay: &str, needle: &str) -> bool {
    let (h, n) = (hay.as_bytes(), needle.as_bytes());
    let mut i = 0;
    while i + n.len() <= h.len() {
        let mut k = 0;
        while k < n.len() && h[i + k] == n[k] { k += 1; }
        if k == n.len() { return true; }
        i += 1;
    }
    false
}
