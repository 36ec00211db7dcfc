//! The REPL's own code over a stand-in terminal: what it prints is collected, what it reads comes from the harness.
use std::fmt::Write as _;
pub struct Term {
    /// the lines not yet read
    pub lines: Vec<String>,
    pub next: usize,
    /// everything printed
    pub out: String,
    /// where the output stood at each reading, and what was read (None: end of input)
    pub reads: Vec<(usize, Option<usize>)>,
    pub exit: Option<i32>,
}
pub static mut TERM: Term = Term { lines: vec![], next: 0, out: String::new(), reads: vec![], exit: None };
#[allow(static_mut_refs)]
pub fn term() -> &'static mut Term { unsafe { &mut TERM } }
pub fn put(a: std::fmt::Arguments) { let _ = term().out.write_fmt(a); }
fn line() -> Option<&'static str> {
    let t = term();
    let at = t.out.len();
    // a program that goes on reading for ever does not end
    if t.reads.len() > t.lines.len() + 3 { panic!("reads on after the end of its input"); }
    if t.next < t.lines.len() { t.next += 1; t.reads.push((at, Some(t.next - 1))); Some(&term().lines[t.next - 1]) } else { t.reads.push((at, None)); None }
}
pub mod io_stub {
    use std::io::{BufRead, Read, Result, Write};
    #[derive(Debug)] pub struct Stdin;
    #[derive(Debug)] pub struct StdinLock { buf: &'static [u8] }
    #[derive(Debug)] pub struct Stdout;
    pub fn stdin() -> Stdin { Stdin }
    pub fn stdout() -> Stdout { Stdout }
    pub fn stderr() -> Stdout { Stdout }
    impl Stdin {
        pub fn lock(&self) -> StdinLock { StdinLock { buf: b"" } }
        pub fn read_line(&self, s: &mut String) -> Result<usize> { match super::line() { Some(l) => { s.push_str(l); Ok(l.len()) } None => Ok(0) } }
        pub fn lines(self) -> std::io::Lines<StdinLock> { self.lock().lines() }
    }
    impl Read for StdinLock { fn read(&mut self, b: &mut [u8]) -> Result<usize> { let s = self.fill_buf()?; let n = s.len().min(b.len()); b[..n].copy_from_slice(&s[..n]); self.consume(n); Ok(n) } }
    impl BufRead for StdinLock {
        fn fill_buf(&mut self) -> Result<&[u8]> { if self.buf.is_empty() { self.buf = super::line().unwrap_or("").as_bytes(); } Ok(self.buf) }
        fn consume(&mut self, n: usize) { self.buf = &self.buf[n..]; }
        fn read_line(&mut self, s: &mut String) -> Result<usize> { if self.buf.is_empty() { Stdin.read_line(s) } else { let b = std::str::from_utf8(self.buf).unwrap_or(""); let n = b.len(); s.push_str(b); self.buf = b""; Ok(n) } }
    }
    impl Stdout { pub fn lock(&self) -> Stdout { Stdout } }
    impl Write for Stdout {
        fn write(&mut self, b: &[u8]) -> Result<usize> { super::term().out.push_str(std::str::from_utf8(b).unwrap_or("?")); Ok(b.len()) }
        fn flush(&mut self) -> Result<()> { Ok(()) }
    }
}
/// what main may return
pub trait Ended { fn ok(self) -> bool; }
impl Ended for () { fn ok(self) -> bool { true } }
impl<E> Ended for Result<(), E> { fn ok(self) -> bool { self.is_ok() } }
impl Ended for std::process::ExitCode { fn ok(self) -> bool { self == std::process::ExitCode::SUCCESS } }
macro_rules! print { ($($a:tt)*) => { crate::repl::put(format_args!($($a)*)) } }
macro_rules! println { () => { crate::repl::put(format_args!("\n")) }; ($($a:tt)*) => {{ crate::repl::put(format_args!($($a)*)); crate::repl::put(format_args!("\n")) }} }
macro_rules! eprint { ($($a:tt)*) => { crate::repl::put(format_args!($($a)*)) } }
macro_rules! eprintln { () => { crate::repl::put(format_args!("\n")) }; ($($a:tt)*) => {{ crate::repl::put(format_args!($($a)*)); crate::repl::put(format_args!("\n")) }} }
#[allow(warnings, clippy::all)]
mod code {
    /// the standard library with another terminal
    mod std {
        pub use ::std::*;
        pub mod io { pub use ::std::io::*; pub use crate::repl::io_stub::{stderr, stdin, stdout, Stdin, StdinLock, Stdout}; }
        pub mod process { pub use ::std::process::*; pub fn exit(c: i32) -> ! { crate::repl::term().exit = Some(c); panic!("exit") } }
    }
    /// miette's graphical report reads the environment and the terminal: the message stands for it
    mod miette {
        pub use ::miette::*;
        pub struct Report(::std::string::String);
        impl Report { pub fn new<E: Diagnostic + Send + Sync + 'static>(e: E) -> Report { Report(e.to_string()) } pub fn with_source_code<S>(self, _s: S) -> Report { self } }
        impl<E: Diagnostic + Send + Sync + 'static> From<E> for Report { fn from(e: E) -> Report { Report::new(e) } }
        impl ::std::fmt::Debug for Report { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str(&self.0) } }
        impl ::std::fmt::Display for Report { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str(&self.0) } }
    }
    include!(concat!(env!("OUT_DIR"), "/repl.rs"));
    pub fn run() -> bool { super::Ended::ok(main()) }
}
/// runs a session; did it end well? (None: it panicked)
pub fn session(lines: Vec<String>) -> Option<bool> {
    let t = term();
    t.lines = lines; t.next = 0; t.out = String::new(); t.reads = vec![]; t.exit = None;
    let mut ok = false;
    if crate::sym::panics(|| ok = code::run()) { return term().exit.map(|c| c == 0); }
    Some(ok)
}
