mod exec;
mod ir;
mod term;
mod z3;
use exec::*;
use std::collections::{HashSet, VecDeque};
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, AtomicUsize};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || c as u32 == 127 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn list<A>(v: impl IntoIterator<Item = A>, f: impl Fn(A) -> String) -> String { format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(",")) }

fn main() {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut out = String::new();
    let mut jobs = vec![];
    let (mut threads, mut budget, mut maxc, mut maxsteps, mut samples, mut tmo, mut tmox, mut fact) = (8usize, 60f64, 200u64, 20_000_000u64, 3usize, 5000u32, 10000u32, false);
    while let Some(a) = args.next() {
        let mut nx = || args.next().expect("argument value");
        match a.as_str() {
            "--threads" => threads = nx().parse().unwrap(),
            "--budget" => budget = nx().parse().unwrap(),
            "--max-cands" => maxc = nx().parse().unwrap(),
            "--max-steps" => maxsteps = nx().parse().unwrap(),
            "--samples" => samples = nx().parse().unwrap(),
            "--timeout" => tmo = nx().parse().unwrap(),
            "--timeout-exact" => tmox = nx().parse().unwrap(),
            "--fact-uf" => fact = true,
            "--out" => out = nx(),
            "--selftest" => { std::process::exit(selftest()); }
            // name=entry(:p0,p1,..)
            "--job" => {
                let s = nx();
                let (name, rest) = s.split_once('=').expect("name=entry:params");
                let (entry, ps) = rest.split_once(':').unwrap_or((rest, ""));
                jobs.push(Job { name: name.into(), entry: entry.into(), params: ps.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(), min: false });
            }
            _ => ll = a,
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ir");
    let m = match ir::parse_module(&text) { Ok(m) => m, Err(e) => { eprintln!("IR: {e}"); std::process::exit(3) } };
    drop(text);
    let api = match z3::load() { Ok(a) => a, Err(e) => { eprintln!("{e}"); std::process::exit(3) } };
    let nj = jobs.len();
    let sh = Shared {
        prog: Prog::new(m, fact), jobs, stats: Mutex::new(vec![JobStat::default(); nj]),
        queue: Mutex::new(((0..nj).map(|_| VecDeque::new()).collect(), 0)), cv: Condvar::new(), idle: AtomicUsize::new(0), outstanding: vec![],
        stop: AtomicBool::new(false), deadline: t0 + Duration::from_secs_f64(budget), funcs_run: Mutex::new(HashSet::new()), solver: Mutex::new(SolverStat::default()),
        max_cands: maxc, max_steps: maxsteps, nsamples: samples, tmo: (tmo, tmox), mem_limit: 0,
    };
    { let mut q = sh.queue.lock().unwrap(); for j in 0..nj { q.0[j].push_back(first(j)); } }
    let load = t0.elapsed().as_secs_f64();
    std::thread::scope(|s| {
        for i in 0..threads {
            let sh = &sh;
            std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, move || { let mut e = Ex::new(sh, api, 0x9E3779B97F4A7C15u64.wrapping_mul(i as u64 + 1)); e.work(api); }).unwrap();
        }
    });
    // jobs with queued items left are incomplete
    let q = sh.queue.lock().unwrap();
    let st = sh.stats.lock().unwrap();
    let so = sh.solver.lock().unwrap();
    let fr = sh.funcs_run.lock().unwrap();
    let inp = |v: &Vec<(u32, u32, u128)>| list(v, |(id, k, x)| format!("[{id},{k},\"{x}\"]"));
    let mut o = String::new();
    let _ = write!(o, "{{\"seconds\":{:.3},\"load_seconds\":{:.3},\"threads\":{},\"stopped\":{},\n\"solver\":{{\"version\":{},\"queries\":{},\"exact_queries\":{},\"unknown\":{},\"seconds\":{:.3},\"max_seconds\":{:.3},\"cache_hits\":{},\"domain_decisions\":{},\"instructions\":{}}},\n", t0.elapsed().as_secs_f64(), load, threads, sh.stop.load(std::sync::atomic::Ordering::Relaxed), js(&so.version), so.queries, so.exact, so.unknown, so.nanos as f64 / 1e9, so.max as f64 / 1e9, so.cached, so.domain, so.steps);
    let mut names: Vec<String> = fr.iter().map(|i| sh.prog.m.funcs[*i as usize].name.clone()).filter(|n| n.contains("4xprs")).collect();
    names.sort(); names.dedup();
    let _ = write!(o, "\"functions_total\":{},\"functions\":{},\n\"jobs\":[\n", fr.len(), list(&names, |n| js(n)));
    for (i, j) in sh.jobs.iter().enumerate() {
        let s = &st[i];
        let complete = q.0[i].is_empty() && s.abandoned == 0;
        let _ = write!(o, "{}{{\"name\":{},\"complete\":{},\"paths\":{},\"killed\":{},\"forks\":{},\"checks\":{},\"trivial\":{},\"events\":{},\"instructions\":{},\"pending\":{},\"inconclusive\":{},\"inconclusive_msgs\":{},\"unsupported\":{},\"unsupported_msgs\":{},\"covers\":{{{}}},\"ncand\":{},\"cands\":{},\"cuts\":{},\"audited\":{},\"lost\":{},\"samples\":{}}}\n",
            if i > 0 { "," } else { "" }, js(&j.name), complete, s.paths, s.killed, s.forks, s.checks, s.trivial, s.events, s.steps, q.0[i].len() as u64 + s.abandoned, s.ninc, list(&s.inconclusive, |x| js(x)), s.unsup,
            format!("{{{}}}", s.unsups.iter().take(20).map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")),
            s.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","), s.ncand,
            list(&s.cands, |c| format!("\n {{\"kind\":{},\"tag\":{},\"msg\":{},\"confirmed\":{},\"exact\":{},\"inputs\":{}}}", js(&c.kind), js(&c.tag), js(&c.msg), c.confirmed, c.exact, inp(&c.inputs))),
            list(&s.cuts, |c| inp(c)), s.hit.count_ones(),
            // inputs no path was followed for
            list(&(0..64u32).filter(|k| complete && s.hit >> k & 1 == 0).take(4).collect::<Vec<_>>(), |k| inp(&s.seen.iter().map(|((id, kind), d)| (*id, *kind, match kind { 0 => exec::audit_byte(*k, *id, d) as u128, 2 => exec::audit_float(*k, *id) as u128, _ => exec::audit_hash(*k, *id) as u128 })).collect::<Vec<_>>())),
            list(&s.samples, |c| format!("\n {{\"inputs\":{},\"outs\":{},\"covers\":{}}}", inp(&c.inputs), list(&c.outs, |(k, v)| format!("[{k},\"{v}\"]")), list(&c.covers, |x| x.to_string()))));
    }
    o.push_str("]}\n");
    if out.is_empty() { print!("{o}"); } else { std::fs::write(&out, o).expect("write result"); }
}

/// the rewrite rules of term.rs against z3's own floating-point theory
fn selftest() -> i32 {
    use term::*;
    let api = match z3::load() { Ok(a) => a, Err(e) => { eprintln!("{e}"); return 3 } };
    let mut z = z3::Z3::new(api, 60000, 60000);
    let mut ar = Arena::new();
    let mut bad = 0;
    let x = ar.var(VKind::Float, 1, 64);
    let y = ar.var(VKind::Float, 2, 64);
    let specials: Vec<u128> = [0.0, -0.0, 1.0, -1.0, 2.0, -2.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN].iter().map(|v: &f64| v.to_bits() as u128).collect();
    let mut ps: Vec<(String, T, T)> = vec![];
    let nx = ar.fneg(x);
    let mut xs = vec![("x".to_string(), x), ("-x".to_string(), nx)];
    for s in &specials { let c = ar.c(*s, 64); xs.push((format!("{:?}", f64::from_bits(*s as u64)), c)); }
    let ny = ar.fneg(y);
    xs.push(("y".into(), y)); xs.push(("-y".into(), ny));
    for (n1, a) in xs.clone() { for (n2, b) in xs.clone() {
        if ar.k(a).is_some() && ar.k(b).is_some() { continue; }
        let r = ar.fadd(a, b); let e = ar.raw_f(Op::FAdd, a, b); ps.push((format!("{n1} + {n2}"), r, e));
        let nb = ar.fneg(b); let r = ar.fsub(a, b); let e = ar.raw_f(Op::FAdd, a, nb); ps.push((format!("{n1} - {n2}"), r, e));
        let r = ar.fmul(a, b); let e = ar.raw_f(Op::FMul, a, b); ps.push((format!("{n1} * {n2}"), r, e));
        let r = ar.fdiv(a, b); let e = ar.raw_f(Op::FDiv, a, b); ps.push((format!("{n1} / {n2}"), r, e));
    } }
    let mut n = 0;
    for (name, r, e) in ps {
        if r == e { continue; }
        let s = ar.fsame(r, e); let ns = ar.not(s);
        if ar.k(ns) == Some(0) { continue; }
        n += 1;
        let (res, _) = z.check(&ar, &[ns], &[], true, None);
        if res != z3::Res::Unsat { println!("rule {name}: {res:?}"); bad += 1; }
    }
    // comparison predicates against z3 floating point
    println!("{n} float rewrite rules checked with z3 FP theory, {bad} not proved");
    if bad == 0 { 0 } else { 1 }
}
