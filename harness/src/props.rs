use crate::refm::{self, Sym};
use crate::sym::{self, *};
use crate::util::*;
use miette::Diagnostic;
use std::collections::{HashMap, HashSet};
use xprs::{xprs_fn, BindError, Context, Function, ParseError, Parser, Symbol, Xprs};

macro_rules! entries { ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
    $($(#[$m])* #[no_mangle] pub extern "C-unwind" fn $n() $b)*
    pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($n), $n)),*];
} }

entries! {
/// C01. params: context, display?, text
fn h_robust() {
    let mut i = In::new();
    let (c, show) = (i.next(), i.next());
    let Some(t) = i.text() else { return };
    let (p, _) = parser(c);
    match p.parse(t) {
        Ok(x) => {
            out(1);
            cover(1);
            let names = sorted(&x);
            let mut m = HashMap::new();
            for (k, n) in names.iter().enumerate() { m.insert(*n, num(1000 + k as u32)); }
            let v = x.eval(&m);
            check(v.is_ok(), 101);
            if let Ok(v) = v { outf(v); }
            if show != 0 { let s = x.to_string(); check(!s.is_empty(), 102); }
        }
        Err(_) => { cover(2); out(0); }
    }
}
/// C02, C03, C04, C06, C09, C10. params: flags, context, text
/// flags: 1 same acceptance, 2 same value bit for bit, 4 same number when all intermediates are finite, 8 same variables
fn h_sem() {
    let mut i = In::new();
    let (fl, c) = (i.next(), i.next());
    let Some(t) = i.text() else { return };
    let (p, rc) = parser(c);
    let x = p.parse(t);
    let r = refm::read(t, &rc);
    out(x.is_ok() as u64);
    if fl & 1 != 0 { check(x.is_ok() == r.is_some(), 301); }
    let (Ok(x), Some(r)) = (x, r) else { cover(2); return };
    cover(1);
    if fl & 14 == 0 { return; }
    let vs = Vars::of(&r);
    if fl & 8 != 0 { check(same_set(&sorted(&x), &vs.names), 601); }
    let v = x.eval(&vs.map());
    check(v.is_ok(), 201);
    let Ok(v) = v else { return };
    outf(v);
    if fl & 2 != 0 { let w = vs.value(&r, false); if r.loose() { feq(v, w, 202) } else { same(v, w, 202) } }
    if fl & 4 != 0 { let w = vs.value(&r, true); cover(3); feq(v, w, 901); }
}
/// C05. params: context, text
fn h_err() {
    let mut i = In::new();
    let c = i.next();
    let Some(t) = i.text() else { return };
    let (p, rc) = parser(c);
    let Err(e) = p.parse(t) else { cover(2); out(1); return };
    cover(1);
    error_ok(t, &e, &rc);
}
/// C07. params: arity of the declared function (255 variadic), dynamic?, number of written arguments, constants instead of variables?
fn h_arity() {
    let mut i = In::new();
    let (ar, dynamic, n, cst) = (i.next(), i.next(), i.next() as usize, i.next() != 0);
    let f = function(ar as u8, dynamic != 0);
    const N: [&str; 11] = ["a", "b", "c", "d", "j", "k", "m", "n", "o", "p", "q"];
    let mut ctx = Context::default().with_fn(f);
    let mut vals = vec![];
    let mut map = HashMap::new();
    let mut s = String::from("F(");
    for k in 0..n {
        vals.push(num(1000 + k as u32));
        if cst { ctx.set_var(N[k], vals[k]); } else { map.insert(N[k], vals[k]); }
        if k > 0 { s.push(','); }
        // where each argument goes is symbolic: every argument may be written as the name of any position
        s.push_str(N[k]);
    }
    s.push(')');
    let p = Parser::new_with_ctx(ctx);
    let x = p.parse(&s);
    let ok = n >= 1 && (ar == 255 || ar as usize == n);
    out(x.is_ok() as u64);
    check(x.is_ok() == ok, 701);
    match x {
        Ok(x) => { let v = x.eval(&map); check(v.is_ok(), 702); if let Ok(v) = v { outf(v); let w = sym::uf(7, &vals); same(v, w, 703); same(x.eval_unchecked(&map), w, 704); } }
        Err(e) => if n >= 1 {
            let m = e.to_string();
            check(contains(&m, if (ar as usize) > n { "few" } else { "many" }), 705);
            check(contains(&m, &format!("expected {ar} got {n}")), 706);
        }
    }
}
/// C07. many arguments. params: arity of the declared function (255 variadic), dynamic?, lowest number of arguments, how many above it
fn h_arity_many() {
    let mut i = In::new();
    let (ar, dynamic, lo, up) = (i.next(), i.next(), i.next(), i.next());
    let n = (lo + choice(3000, up)) as usize;
    let p = Parser::new_with_ctx(Context::default().with_fn(function(ar as u8, dynamic != 0)));
    let (x, y) = (num(1000), num(1001));
    let mut m = HashMap::new();
    m.insert("x", x);
    m.insert("y", y);
    let mut s = String::from("F(");
    let mut vals = vec![];
    for k in 0..n { let o = k % 3 == 1 || k + 1 == n; if k > 0 { s.push(','); } s.push_str(if o { "y" } else { "x" }); vals.push(if o { y } else { x }); }
    s.push(')');
    let r = p.parse(&s);
    out(r.is_ok() as u64);
    check(r.is_ok() == (n >= 1 && (ar == 255 || ar as usize == n)), 721);
    cover(1);
    match r {
        Ok(r) => { let Ok(v) = r.eval(&m) else { check(false, 722); return }; outf(v); same(v, sym::uf(7, &vals), 723); same(r.eval_unchecked(&m), v, 724); }
        Err(e) => if n >= 1 { check(contains(&e.to_string(), &format!("expected {ar} got {n}")), 725) }
    }
}
/// C07. params: context, text with calls of F (arity 2), G (arity 3), H (variadic)
fn h_calls() {
    let mut i = In::new();
    let Some(t) = i.text() else { return };
    let (a, b) = (num(2000), num(2001));
    let ctx = Context::default().with_var("k", a).with_var("m", b).with_fn(xprs_fn!("F", |x, y| sym::uf(2, &[x, y]), 2)).with_fn(xprs_fn!("G", dyn |x, y, z| sym::uf(4, &[x, y, z]), 3)).with_fn(xprs_fn!("H", f3));
    let rc = [("k", Sym::Const(a)), ("m", Sym::Const(b)), ("F", Sym::Fun("F", f2, Some(2))), ("G", Sym::Fun("G", |a| sym::uf(4, a), Some(3))), ("H", Sym::Fun("H", f3, None))];
    let x = Parser::new_with_ctx(ctx).parse(t);
    let r = refm::read(t, &rc);
    out(x.is_ok() as u64);
    check(x.is_ok() == r.is_some(), 711);
    let (Ok(x), Some(r)) = (x, r) else { cover(2); return };
    cover(1);
    let vs = Vars::of(&r);
    let Ok(v) = x.eval(&vs.map()) else { check(false, 712); return };
    outf(v);
    // optimised: the same number where nothing overflows
    if cfg!(feature = "opt") { let w = vs.value(&r, true); feq(v, w, 713) } else { same(v, vs.value(&r, false), 713) }
    same(x.eval_unchecked(&vs.map()), v, 714);
}
/// C08. params: context, text
fn h_eval() {
    let mut i = In::new();
    let c = i.next();
    let Some(t) = i.text() else { return };
    let (p, _) = parser(c);
    let Ok(x) = p.parse(t) else { return };
    let names = sorted(&x);
    let mut m: HashMap<&str, f64> = HashMap::new();
    let mut missing: Vec<&str> = vec![];
    for (k, n) in names.iter().enumerate() {
        if choice(3000 + k as u32, 2) == 1 { m.insert(n, num(1000 + k as u32)); } else { missing.push(n); }
    }
    if choice(3100, 2) == 1 { m.insert("zz", num(1900)); m.insert("w", num(1901)); }
    let before = x.clone();
    let r = x.eval(&m);
    out(r.is_ok() as u64);
    check(r.is_ok() == missing.is_empty(), 801);
    match r {
        Ok(v) => {
            cover(1);
            outf(v);
            let mut u = 0.0;
            let pn = panics(|| u = x.eval_unchecked(&m));
            check(!pn, 802);
            if !pn { same(u, v, 803); }
            let Ok(v2) = x.eval(&m) else { check(false, 804); return };
            same(v2, v, 805);
        }
        Err(e) => {
            cover(2);
            let s = e.to_string();
            let mut named = false;
            for n in &missing { named |= contains(&s, &format!("'{n}'")); }
            check(named, 806);
            for n in &names { if !has(&missing, n) { check(!contains(&s, &format!("'{n}'")), 807); } }
            check(panics(|| { let _ = x.eval_unchecked(&m); }), 808);
        }
    }
    if names.is_empty() {
        let Ok(v) = x.eval_no_vars() else { check(false, 809); return };
        let Ok(w) = x.eval(&m) else { return };
        same(v, w, 810);
        same(x.eval_no_vars_unchecked(), w, 811);
    } else { check(x.eval_no_vars().is_err(), 812); }
    check(same_set(&sorted(&x), &sorted(&before)), 813);
    // a literal that is not a number equals nothing
    if c == 0 && before == before.clone() { check(x == before, 814); }
}
/// C11. params: context, number of substitutions (1 or 2), text
fn h_subst() {
    let mut i = In::new();
    let (c, n) = (i.next(), i.next());
    let Some(t) = i.text() else { return };
    let (p, rc) = parser(c);
    let (Ok(x), Some(r)) = (p.parse(t), refm::read(t, &rc)) else { return };
    let mut vs = Vars::of(&r);
    if vs.names.is_empty() { return; }
    let pool: Vec<&str> = vs.names.iter().copied().chain(["absent"]).collect();
    let mut subs: Vec<(&str, f64)> = vec![];
    for k in 0..n as u32 { subs.push((pool[choice(3000 + k, pool.len() as u64) as usize], num(1500 + k))); }
    let a = { let mut a = x.clone(); for s in &subs { a = a.simplify_for(*s); } a };
    let b = { let mut b = x.clone(); for s in &subs { b.simplify_for_in_place(*s); } b };
    let d = x.clone().simplify_for_multiple(&subs);
    let e = { let mut e = x.clone(); e.simplify_for_multiple_in_place(&subs); e };
    // the first substitution of a name binds it
    for s in subs.iter().rev() { for k in 0..vs.names.len() { if vs.names[k] == s.0 { vs.vals[k] = s.1; } } }
    let mut m = vs.map();
    for s in &subs { m.remove(s.0); }
    let mut v = vec![];
    for (k, y) in [&a, &b, &d, &e].into_iter().enumerate() {
        let w = y.eval(&m);
        check(w.is_ok(), 1101 + k as u64);
        let Ok(w) = w else { return };
        v.push(w);
        let names = sorted(y);
        for s in &subs { check(!has(&names, s.0), 1111 + k as u64); }
        for q in &names { check(has(&vs.names, q), 1121 + k as u64); }
        check(same_set(&names, &sorted(&a)), 1131 + k as u64);
    }
    outf(v[0]);
    same(v[1], v[0], 1141);
    same(v[2], v[0], 1142);
    same(v[3], v[0], 1143);
    let w = vs.value(&r, true);
    cover(1);
    feq(v[0], w, 1150);
}
/// C12. params: context, number of substitutions, form, text
fn h_vars() {
    let mut i = In::new();
    let (c, n, form) = (i.next(), i.next(), i.next());
    let Some(t) = i.text() else { return };
    let (p, rc) = parser(c);
    let (Ok(mut x), Some(r)) = (p.parse(t), refm::read(t, &rc)) else { return };
    let vs = Vars::of(&r);
    if n == 0 && cfg!(not(feature = "opt")) { check(same_set(&sorted(&x), &vs.names), 1201); }
    let mut subs: Vec<(&str, f64)> = vec![];
    for k in 0..n as u32 {
        if vs.names.is_empty() { return; }
        let s = (vs.names[choice(3000 + k, vs.names.len() as u64) as usize], num(1500 + k));
        subs.push(s);
        match form { 0 => x.simplify_for_in_place(s), 1 => x = x.simplify_for(s), _ => {} }
    }
    if form == 2 && n > 0 { x.simplify_for_multiple_in_place(&subs); }
    if form == 3 && n > 0 { x = x.simplify_for_multiple(&subs); }
    let names = sorted(&x);
    out(names.len() as u64);
    for q in &names { check(has(&vs.names, q), 1202); }
    let mut m: HashMap<&str, f64> = HashMap::new();
    for q in &names { m.insert(q, 1.5); }
    cover(1);
    check(x.eval(&m).is_ok(), 1203);
    for q in &names {
        m.remove(q);
        check(x.eval(&m).is_err(), 1204);
        m.insert(q, 1.5);
    }
    cover(10 + names.len() as u64);
}
/// C13. params: form (1..9 bind..bind9, 10 array, 11 slice), number of names (forms 10, 11), number of values (form 11), text
fn h_bind() {
    let mut i = In::new();
    let (form, n, nv) = (i.next(), i.next() as usize, i.next() as usize);
    let Some(t) = i.text() else { return };
    let (p, rc) = parser(1);
    let (Ok(x), Some(r)) = (p.parse(t), refm::read(t, &rc)) else { return };
    const N: [&str; 12] = ["a", "b", "c", "d", "e1", "f1", "g1", "h1", "i", "j", "l", "o"];
    let n = if form < 10 { form as usize } else { n };
    let v: Vec<f64> = (0..12).map(|k| num(1000 + k)).collect();
    let w: Vec<f64> = (0..12).map(|k| num(1100 + k)).collect();
    // the bound function is called with some values, with others, and with the first ones again
    let three = |f: &dyn Fn(&[f64]) -> f64| [f(&v), f(&w), f(&v)];
    let names = &N[..n];
    let vars = sorted(&x);
    let missing: Vec<&str> = vars.iter().copied().filter(|q| !has(names, q)).collect();
    // evaluation with the same assignment
    let mut m: HashMap<&str, f64> = HashMap::new();
    for k in 0..n { m.insert(N[k], v[k]); }
    let y = x.clone();
    let _ = r;
    type B = BindError;
    let got: Result<[f64; 3], B> = match form {
        1 => x.bind(N[0]).map(|f| three(&|v| f(v[0]))),
        2 => x.bind2(N[0], N[1]).map(|f| three(&|v| f(v[0], v[1]))),
        3 => x.bind3(N[0], N[1], N[2]).map(|f| three(&|v| f(v[0], v[1], v[2]))),
        4 => x.bind4(N[0], N[1], N[2], N[3]).map(|f| three(&|v| f(v[0], v[1], v[2], v[3]))),
        5 => x.bind5(N[0], N[1], N[2], N[3], N[4]).map(|f| three(&|v| f(v[0], v[1], v[2], v[3], v[4]))),
        6 => x.bind6(N[0], N[1], N[2], N[3], N[4], N[5]).map(|f| three(&|v| f(v[0], v[1], v[2], v[3], v[4], v[5]))),
        7 => x.bind7(N[0], N[1], N[2], N[3], N[4], N[5], N[6]).map(|f| three(&|v| f(v[0], v[1], v[2], v[3], v[4], v[5], v[6]))),
        8 => x.bind8(N[0], N[1], N[2], N[3], N[4], N[5], N[6], N[7]).map(|f| three(&|v| f(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]))),
        9 => x.bind9(N[0], N[1], N[2], N[3], N[4], N[5], N[6], N[7], N[8]).map(|f| three(&|v| f(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]))),
        10 => match n {
            0 => x.bind_n([]).map(|f| three(&|v| f([]))),
            1 => x.bind_n([N[0]]).map(|f| three(&|v| f([v[0]]))),
            2 => x.bind_n([N[0], N[1]]).map(|f| three(&|v| f([v[0], v[1]]))),
            3 => x.bind_n([N[0], N[1], N[2]]).map(|f| three(&|v| f([v[0], v[1], v[2]]))),
            5 => x.bind_n([N[0], N[1], N[2], N[3], N[4]]).map(|f| three(&|v| f([v[0], v[1], v[2], v[3], v[4]]))),
            _ => x.bind_n(N).map(|f| three(&|v| { let mut a = [0.0; 12]; a.copy_from_slice(v); f(a) })),
        },
        _ => {
            match x.bind_n_runtime(names) {
                Err(e) => Err(e),
                Ok(f) => {
                    // fewer (or more) values than names
                    let mut m2: HashMap<&str, f64> = HashMap::new();
                    for k in 0..n.min(nv) { m2.insert(N[k], v[k]); }
                    let want = y.eval(&m2);
                    let got = f(&v[..nv]);
                    // too few values once in between
                    let few = f(&[]);
                    check(few.is_ok() == vars.is_empty(), 1314);
                    check(got.is_ok() == want.is_ok(), 1310);
                    match (got, want) {
                        (Ok(a), Ok(b)) => { same(a, b, 1311); let (Ok(b), Ok(c)) = (f(&w[..nv]), f(&v[..nv])) else { check(false, 1315); return }; Ok([a, b, c]) }
                        (Err(a), Err(b)) => { cover(4); check(a.to_string() == b.to_string(), 1312); check(missing.is_empty(), 1313); return }
                        _ => return,
                    }
                }
            }
        }
    };
    out(got.is_ok() as u64);
    check(got.is_ok() == missing.is_empty(), 1301);
    match got {
        Ok([g, h, again]) => {
            cover(1);
            outf(g);
            same(g, again, 1316);
            if form != 11 || nv >= n {
                let Ok(e) = y.eval(&m) else { check(false, 1302); return };
                same(g, e, 1303);
                for k in 0..n { m.insert(N[k], w[k]); }
                let Ok(e) = y.eval(&m) else { check(false, 1317); return };
                same(h, e, 1318);
            }
        }
        Err(e) => {
            let s = match &e {
                BindError::OneVariable(s) => { cover(2); check(missing.len() == 1, 1304); s.clone() }
                BindError::MultipleVariables(s) => { cover(3); check(missing.len() > 1, 1305); s.clone() }
                _ => { check(false, 1306); return }
            };
            let named: Vec<&str> = s.split(", ").collect();
            check(same_set(&named, &missing), 1307);
            let msg = e.to_string();
            for q in &missing { check(contains(&msg, q), 1308); }
        }
    }
}
/// C13. many missing variables. params: lowest count
fn h_bind_many() {
    let lo = In::new().next();
    let n = lo + choice(3000, 4);
    let mut s = String::new();
    for k in 0..n { if k > 0 { s.push('+'); } s.push_str(&format!("v{k}")); }
    if n == 0 { s.push('1'); }
    let Ok(x) = Parser::default().parse(&s) else { check(false, 1320); return };
    check(x.vars.len() as u64 == n, 1321);
    let mut got: Result<(), BindError> = Ok(());
    let pn = panics(|| got = x.clone().bind("q").map(|_| ()));
    check(!pn, 1322);
    if pn { return; }
    out(got.is_ok() as u64);
    check(got.is_err() == (n > 0), 1323);
    if let Err(e) = got {
        if let BindError::MultipleVariables(s) = e { check(s.split(", ").count() as u64 == n, 1324); } else { check(n == 1, 1325); }
    }
    if n == 0 { return; }
    let names: Vec<String> = (0..n).rev().map(|k| format!("v{k}")).collect();
    let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let (a, b) = (num(1000), num(1001));
    let vals: Vec<f64> = (0..n).map(|k| if k + 1 == n { a } else if k == 0 { b } else { k as f64 }).collect();
    let mut m: HashMap<&str, f64> = HashMap::new();
    for (k, q) in refs.iter().enumerate() { m.insert(q, vals[k]); }
    let Ok(w) = x.eval(&m) else { check(false, 1326); return };
    let part = x.clone();
    match x.bind_n_runtime(&refs) {
        Ok(f) => { match f(&vals) { Ok(g) => { outf(g); same(g, w, 1327) } Err(_) => check(false, 1328) } check(f(&vals[1..]).is_err(), 1329); }
        Err(_) => check(false, 1330),
    }
    let r = part.bind_n_runtime(&refs[1..]);
    match r {
        Ok(_) => check(false, 1331),
        Err(BindError::OneVariable(s)) => check(s == names[0], 1332),
        Err(_) => check(false, 1333),
    }
}
/// C14. params: form, region
fn h_fact() {
    let mut i = In::new();
    let (form, region) = (i.next(), i.next());
    let x = num(1000);
    // folded while parsing, by the operator, or by the function
    let (t, ctx) = match form { 0 => ("x!", Context::default()), 1 => ("factorial(x)", Context::default()), _ => ("k!", Context::default().with_var("k", x)) };
    let Ok(e) = Parser::new_with_ctx(ctx).parse(t) else { check(false, 1401); return };
    match region {
        1 => assume(x < 0.0),
        2 => assume(x.is_nan()),
        3 => assume(x > 170.0),
        4 => assume(x >= 0.0 && x <= 170.0 && x.fract() != 0.0),
        5 => assume(x >= 0.0 && x <= 170.0 && x.fract() == 0.0),
        _ => {}
    }
    let mut m = HashMap::new();
    if form < 2 { m.insert("x", x); }
    let Ok(v) = e.eval(&m) else { check(false, 1402); return };
    cover(1);
    outf(v);
    match region {
        1 | 2 | 4 => check(v.is_nan(), 1403),
        3 => { if x.fract() == 0.0 || x.is_infinite() { same(v, f64::INFINITY, 1404) } else { check(v.is_nan(), 1405) } }
        0 => {
            // all at once
            let w = refm::fact(x);
            if w.is_nan() { check(v.is_nan(), 1406) } else if w.is_infinite() { same(v, w, 1407) } else { fact_ok(v, unsafe { x.to_int_unchecked::<usize>() }, 1408) }
        }
        _ => fact_ok(v, unsafe { x.to_int_unchecked::<usize>() }, 1409),
    }
}
/// C14. params: form, lowest integer: the value at 57 consecutive integers
fn h_fact_int() {
    let mut i = In::new();
    let (form, lo) = (i.next(), i.next());
    let n = lo + choice(3000, 57);
    let (t, ctx) = match form { 0 => ("x!", Context::default()), 1 => ("factorial(x)", Context::default()), _ => ("k!", Context::default().with_var("k", n as f64)) };
    let Ok(e) = Parser::new_with_ctx(ctx).parse(t) else { check(false, 1411); return };
    let mut m = HashMap::new();
    if form < 2 { m.insert("x", n as f64); }
    let Ok(v) = e.eval(&m) else { check(false, 1412); return };
    outf(v);
    cover(1);
    if n <= 170 { fact_ok(v, n as usize, 1413) } else { same(v, f64::INFINITY, 1414) }
}
/// C15. params: number of definitions
fn h_ctx() {
    let n = In::new().next() as u32;
    const N: [&str; 3] = ["a", "sin", "pi"];
    let mut ctx: Context<'static> = Context::default();
    // (name, value or function number)
    let mut model: Vec<(&str, Result<f64, u8>)> = vec![];
    for k in 0..n {
        let name = N[choice(3000 + 2 * k, 3) as usize];
        let op = choice(3001 + 2 * k, 5);
        let v = num(1000 + k);
        match op {
            0 => { ctx.set_var(name, v); model.push((name, Ok(v))); }
            1 => { ctx = ctx.with_var(name, v); model.push((name, Ok(v))); }
            2 => { ctx.set_fn(ufn(name, k as u8)); model.push((name, Err(k as u8))); }
            3 => { ctx = ctx.with_fn(ufn(name, k as u8)); model.push((name, Err(k as u8))); }
            _ => {
                let mut h: HashMap<&'static str, Symbol> = HashMap::new();
                h.insert(name, v.into());
                ctx = ctx.with_symbols(h);
                model = vec![(name, Ok(v))];
            }
        }
    }
    let parser = Parser::new_with_ctx(ctx.clone());
    let mut pm = Parser::default();
    *pm.ctx_mut() = ctx;
    let a = num(1900);
    for q in ["a", "sin", "pi", "b"] {
        let mut want = None;
        for (k, v) in &model { if *k == q { want = Some(*v); } }
        for ctx in [parser.ctx(), pm.ctx()] {
            match (ctx.get(q), want) {
                (None, None) => {}
                (Some(Symbol::Variable(v)), Some(Ok(w))) => same(*v, w, 1501),
                (Some(Symbol::Function(f)), Some(Err(k))) => { check(f.name == q, 1502); check(f.nb_args == Some(k + 1), 1503); same((f.func)(&[a]), sym::uf(10 + k as u32, &[a]), 1504); }
                _ => check(false, 1505),
            }
        }
        // as the parser sees it
        let x = parser.parse(q);
        match want {
            Some(Ok(w)) => { let Ok(x) = x else { check(false, 1506); return }; let Ok(v) = x.eval_no_vars() else { check(false, 1507); return }; same(v, w, 1508); }
            Some(Err(_)) => check(x.is_err(), 1509),
            None => {}
        }
    }
    out(model.len() as u64);
    cover(1);
}
/// C15. declared variables. params: context, text
/// C15. many definitions. params: lowest number of them
fn h_ctx_many() {
    let n = (In::new().next() + choice(3000, 3)) as usize;
    let names: Vec<String> = (0..n).map(|k| format!("v{k}")).collect();
    let mut ctx = Context::default();
    let mut want: Vec<Result<f64, u8>> = vec![];
    for (k, q) in names.iter().enumerate() {
        if k % 5 == 3 { ctx.set_fn(ufn("sum", 1)); ctx.set_var(q, k as f64); want.push(Ok(k as f64)); }
        else if k % 2 == 0 { ctx.set_var(q, 0.25 + k as f64); want.push(Ok(0.25 + k as f64)); }
        else { ctx = ctx.with_var(q, k as f64); want.push(Ok(k as f64)); }
    }
    // one of the first or the last ones again
    let v = num(1000);
    let k = if choice(3001, 2) == 0 { choice(3002, 3) as usize } else { n - 1 - choice(3003, 3.min(n as u64)) as usize };
    if k < n { ctx.set_var(&names[k], v); want[k] = Ok(v); }
    let p = Parser::new_with_ctx(ctx);
    for (k, q) in names.iter().enumerate() {
        match (p.ctx().get(q), want[k]) { (Some(Symbol::Variable(g)), Ok(w)) => same(*g, w, 1541), _ => check(false, 1542) }
    }
    check(p.ctx().get("w").is_none(), 1543);
    out(n as u64);
    for q in [0, k.min(n - 1), n - 1] {
        let Ok(x) = p.parse(&names[q]) else { check(false, 1544); return };
        let Ok(g) = x.eval_no_vars() else { check(false, 1545); return };
        if let Ok(w) = want[q] { same(g, w, 1546); }
    }
    // as many declared variables, and one too few
    let refs: HashSet<&str> = names.iter().map(|s| s.as_str()).collect();
    let mut t = String::new();
    for q in &names { if !t.is_empty() { t.push('+'); } t.push_str(q); }
    check(Parser::new_with_ctx(Context::default().with_expected_vars(refs.clone())).parse(&t).is_ok(), 1547);
    let mut less = refs;
    less.remove(names[k.min(n - 1)].as_str());
    match Parser::new_with_ctx(Context::default().with_expected_vars(less)).parse(&t) {
        Ok(_) => check(false, 1548),
        Err(e) => check(contains(&e.to_string(), &format!("`{}`", names[k.min(n - 1)])), 1549),
    }
    cover(1);
}
/// C15. params: context, text
fn h_expect() {
    let mut i = In::new();
    let c = i.next();
    let Some(t) = i.text() else { return };
    const N: [&str; 3] = ["x", "y", "k"];
    let mut d: HashSet<&'static str> = HashSet::new();
    for (k, n) in N.iter().enumerate() { if choice(3000 + k as u32, 2) == 1 { d.insert(n); } }
    let (ctx, _) = context(c);
    let plain = Parser::new_with_ctx(ctx.clone());
    let how = choice(3010, 4);
    // declared once or twice, the last declaration counting
    let other: HashSet<&'static str> = ["x", "k"].into();
    let strict = if how == 2 { Parser::new_with_ctx(ctx.with_expected_vars(other).with_expected_vars(d.clone())) }
    else if how == 3 { let mut p = Parser::new_with_ctx(ctx.with_expected_vars(other)); p.ctx_mut().set_expected_vars(d.clone()); p }
    else if how == 0 { Parser::new_with_ctx(ctx.with_expected_vars(d.clone())) } else { let mut p = Parser::new_with_ctx(ctx); p.ctx_mut().set_expected_vars(d.clone()); p };
    let (a, b) = (plain.parse(t), strict.parse(t));
    out(b.is_ok() as u64);
    match a {
        Err(e) => match b { Err(f) => { cover(1); check(e == f, 1521) } Ok(_) => check(false, 1522) },
        Ok(x) => {
            let names = sorted(&x);
            let bad: Vec<&str> = names.iter().copied().filter(|n| !d.contains(n)).collect();
            check(b.is_ok() == bad.is_empty(), 1523);
            match b {
                Ok(y) => {
                    cover(2);
                    check(same_set(&names, &sorted(&y)), 1524);
                    let mut m: HashMap<&str, f64> = HashMap::new();
                    for (k, n) in names.iter().enumerate() { m.insert(n, num(1000 + k as u32)); }
                    if let (Ok(u), Ok(v)) = (x.eval(&m), y.eval(&m)) { same(u, v, 1525); } else { check(false, 1526); }
                }
                Err(e) => {
                    cover(3);
                    let s = e.to_string();
                    let mut named = false;
                    for n in &bad { named |= contains(&s, &format!("`{n}`")); }
                    check(named, 1527);
                }
            }
        }
    }
}
/// C16. params: context, substitute?, text
fn h_round() {
    let mut i = In::new();
    let (c, sub) = (i.next(), i.next());
    let Some(t) = i.text() else { return };
    let (p, _) = parser(c);
    let Ok(mut x) = p.parse(t) else { return };
    if sub != 0 {
        const V: [f64; 6] = [-3.0, 2.5, 0.0, -0.0, 1.0, -1e-7];
        let names = sorted(&x);
        if names.is_empty() { return; }
        x.simplify_for_in_place((names[0], V[choice(3000, 6) as usize]));
    }
    let s = x.to_string();
    // a literal that is not a number has no written form
    if contains(&s, "NaN") || contains(&s, "inf") { return; }
    let back = p.parse(&s);
    check(back.is_ok(), 1601);
    let Ok(y) = back else { return };
    cover(1);
    let names = sorted(&x);
    check(same_set(&names, &sorted(&y)), 1602);
    let mut m: HashMap<&str, f64> = HashMap::new();
    for (k, n) in names.iter().enumerate() { m.insert(n, num(1000 + k as u32)); }
    let (Ok(a), Ok(b)) = (x.eval(&m), y.eval(&m)) else { check(false, 1603); return };
    outf(a);
    same(a, b, 1604);
    if !contains(&s, " -") && !contains(&s, "(-") && s.as_bytes()[0] != b'-' { check(y.to_string() == s, 1605); }
    let s2 = y.to_string();
    let Ok(z) = p.parse(&s2) else { check(false, 1606); return };
    check(z.to_string() == s2, 1607);
}
/// C17. params: operation, text
fn h_panic() {
    let mut i = In::new();
    let op = i.next();
    let Some(t) = i.text() else { return };
    unsafe { CALLS = 0; }
    let ctx = Context::default().with_fn(xprs_fn!("f", |x| boom(&[x]), 1)).with_fn(xprs_fn!("g", dyn |x, y| boom(&[x, y]), 2)).with_fn(xprs_fn!("h", boom));
    let p = Parser::new_with_ctx(ctx);
    let mut x: Option<Xprs> = None;
    let pn = panics(|| x = p.parse(t).ok());
    out(pn as u64);
    if pn {
        cover(1);
        check(x.is_none(), 1701);
        // the parser is still usable
        let k = unsafe { CALLS };
        unsafe { CALLS = 100; }
        x = p.parse(t).ok();
        check(x.is_some(), 1707);
        unsafe { CALLS = k; }
    }
    let Some(mut x) = x else { return };
    let mut pn2 = false;
    let before = x.to_string();
    let twin = x.clone();
    match op {
        0 => {}
        1 => pn2 = panics(|| x.simplify_for_in_place(("x", 2.0))),
        2 => pn2 = panics(|| x.simplify_for_multiple_in_place(&[("x", 2.0), ("y", 3.0)])),
        3 => { let y = x.clone(); pn2 = panics(move || { let _ = y.clone().simplify_for(("x", 2.0)); }) }
        _ => { let y = x.clone(); pn2 = panics(move || { let _ = y.clone().simplify_for_multiple(&[("y", 2.0), ("x", 3.0)]); }) }
    }
    if pn2 { cover(2); check(x.to_string() == before, 1705); check(same_set(&sorted(&x), &sorted(&twin)), 1706); }
    let mut m: HashMap<&str, f64> = HashMap::new();
    m.insert("x", 1.5);
    m.insert("y", 2.5);
    m.insert("k", 3.5);
    m.insert("m", 4.5);
    let pe = panics(|| { let _ = x.eval(&m); });
    let pu = panics(|| { let _ = x.eval_unchecked(&m); });
    if pe || pu { cover(3); }
    // the expression is still usable
    unsafe { CALLS = 100; }
    let s = x.to_string();
    check(!s.is_empty(), 1702);
    let Ok(v) = x.eval(&m) else { check(false, 1703); return };
    outf(v);
    if op == 0 || pn2 || op > 2 { let Ok(w) = twin.eval(&m) else { check(false, 1708); return }; same(v, w, 1709); }
    let y = x.clone();
    drop(x);
    check(y.to_string() == s, 1704);
    drop(y);
    drop(p);
}
/// C18. params: number of arguments, text of the call
fn h_builtin() {
    let mut i = In::new();
    let n = i.next() as usize;
    let cst = i.next() != 0;
    let Some(name) = i.text() else { return };
    const N: [&str; 5] = ["x", "y", "z", "u", "v"];
    let v: Vec<f64> = (0..n as u32).map(|k| num(1000 + k)).collect();
    let mut s = String::from(name);
    s.push('(');
    let mut m = HashMap::new();
    let mut ctx = Context::default();
    for k in 0..n { if k > 0 { s.push(','); } s.push_str(N[k]); if cst { ctx.set_var(N[k], v[k]); } else { m.insert(N[k], v[k]); } }
    s.push(')');
    let x = Parser::new_with_ctx(ctx).parse(&s);
    let want = refm::builtin(name);
    out(x.is_ok() as u64);
    match (want, x) {
        (Some(Sym::Fun(_, f, ar)), x) if ar.is_none() || ar == Some(n as u8) => {
            let Ok(x) = x else { check(false, 1801); return };
            let Ok(r) = x.eval(&m) else { check(false, 1802); return };
            cover(1);
            outf(r);
            if name == "sum" || name == "mean" || name == "min" || name == "max" { feq(r, f(&v), 1803) } else { same(r, f(&v), 1804) }
        }
        (Some(Sym::Fun(..)), x) => { cover(2); check(x.is_err(), 1805) }
        _ => {}
    }
}
/// C18. many arguments. params: lowest count, how many above it, text of the call
fn h_variadic() {
    let mut i = In::new();
    let (lo, up) = (i.next(), i.next());
    let Some(name) = i.text() else { return };
    let n = (lo + choice(3000, up)) as usize;
    let at = choice(3001, 3) as usize;
    let mut s = String::from(name);
    s.push('(');
    let (x, y) = (num(1000), num(1001));
    let mut v = vec![];
    for k in 0..n {
        if k > 0 { s.push(','); }
        // x in the first, a middle or the last place, y next to it
        let px = [0, n / 2, n - 1][at];
        if k == px { s.push('x'); v.push(x); } else if k + 1 == px || (px == 0 && k == 1) { s.push('y'); v.push(y); } else { s.push_str(&format!("{k}")); v.push(k as f64); }
    }
    s.push(')');
    let mut m = HashMap::new();
    m.insert("x", x);
    m.insert("y", y);
    let Ok(e) = Parser::default().parse(&s) else { check(false, 1811); return };
    let Ok(r) = e.eval(&m) else { check(false, 1812); return };
    cover(1);
    outf(r);
    let Some(Sym::Fun(_, f, None)) = refm::builtin(name) else { return };
    if name == "sum" || name == "mean" || name == "min" || name == "max" { feq(r, f(&v), 1813) } else { same(r, f(&v), 1814) }
}
/// C19. params: context, text A, text B
fn h_hist() {
    let mut i = In::new();
    let c = i.next();
    let (Some(a), Some(b)) = (i.text(), i.text()) else { return };
    let (p, _) = parser(c);
    let fresh = p.clone();
    let r1 = p.parse(a);
    let mut m: HashMap<&str, f64> = HashMap::new();
    for (k, n) in ["x", "y", "k", "z"].iter().enumerate() { m.insert(n, num(1000 + k as u32)); }
    let mut m2: HashMap<&str, f64> = HashMap::new();
    for (k, n) in ["x", "y", "k", "z"].iter().enumerate() { m2.insert(n, num(1100 + k as u32)); }
    let v1 = r1.as_ref().ok().map(|x| x.eval(&m));
    // anything else in between
    let rb = p.parse(b);
    if let Ok(x) = &rb { let _ = x.eval(&m2); let y = x.clone().simplify_for(("x", 3.0)); let _ = y.eval(&m2); let _ = x.eval(&HashMap::new()); }
    let q = Parser::new_with_ctx(other());
    for t in [a, b] { if let Ok(x) = q.parse(t) { let _ = x.eval(&m2); } }
    if let Ok(x) = &r1 { let _ = x.eval(&m2); let y = x.clone().simplify_for(("x", 2.0)); let _ = y.eval(&m); let _ = x.eval(&HashMap::new()); }
    let v2 = r1.as_ref().ok().map(|x| x.eval(&m));
    // the other values just before
    if let Ok(x) = &r1 {
        let _ = x.eval(&m2);
        if let (Ok(v), Some(Ok(w))) = (x.eval(&m), &v1) {
            same(v, *w, 1911);
            let _ = x.eval_unchecked(&m2);
            same(x.eval_unchecked(&m), *w, 1912);
        }
    }
    let r2 = p.parse(a);
    let r3 = fresh.parse(a);
    out(r1.is_ok() as u64);
    match (&r1, &r2, &r3) {
        (Ok(x), Ok(y), Ok(z)) => {
            cover(1);
            // a literal that is not a number equals nothing
            if c == 0 && *x == x.clone() { check(x == y && y == z, 1901); }
            check(same_set(&sorted(x), &sorted(y)), 1902);
            let (Some(v1), Some(v2)) = (v1, v2) else { check(false, 1903); return };
            let (w, u) = (y.eval(&m), z.eval(&m));
            check(v1.is_ok() == v2.is_ok() && v1.is_ok() == w.is_ok() && v1.is_ok() == u.is_ok(), 1904);
            if let (Ok(v1), Ok(v2), Ok(w), Ok(u)) = (v1, v2, w, u) { outf(v1); same(v2, v1, 1905); same(w, v1, 1906); same(u, v1, 1907); }
        }
        (Err(x), Err(y), Err(z)) => { cover(2); check(x == y && y == z, 1908) }
        _ => check(false, 1909),
    }
    if c == 0 { check(p.ctx() == fresh.ctx(), 1910); }
}
/// C19. many operations in between. params: context, how many, text A, text B
fn h_repeat() {
    let mut i = In::new();
    let (c, n) = (i.next(), i.next());
    let (Some(a), Some(b)) = (i.text(), i.text()) else { return };
    let (p, _) = parser(c);
    let mut m: HashMap<&str, f64> = HashMap::new();
    let mut m2: HashMap<&str, f64> = HashMap::new();
    for (k, n) in ["x", "y", "k", "z"].iter().enumerate() { m.insert(n, num(1000 + k as u32)); m2.insert(n, 0.5 + k as f64); }
    let Ok(x) = p.parse(a) else { return };
    // the other text may well be one that is rejected
    let o = p.parse(b);
    let Ok(v) = x.eval(&m) else { return };
    outf(v);
    cover(1);
    for k in 0..n {
        // a steady state may go on for long before anything changes
        if k % 4 == 3 || o.is_err() { if let Ok(o) = &o { let _ = o.eval(&m2); } let again = p.parse(b); check(again.is_ok() == o.is_ok(), 1926); if let (Err(e), Err(f)) = (&again, &o) { if k % 16 == 15 { check(e == f, 1927); } } }
        let Ok(w) = (if k % 2 == 0 { x.eval(&m) } else { Ok(x.eval_unchecked(&m)) }) else { check(false, 1921); return };
        same(w, v, 1922);
        if k % 8 == 7 || k + 1 == n {
            let Ok(y) = p.parse(a) else { check(false, 1923); return };
            let Ok(w) = y.eval(&m) else { check(false, 1924); return };
            same(w, v, 1925);
        }
    }
}
/// C20. params: context, text A, text B
fn h_equal() {
    let mut i = In::new();
    let c = i.next();
    let (Some(a), Some(b)) = (i.text(), i.text()) else { return };
    let (p, rc) = parser(c);
    let (Ok(x), Ok(y)) = (p.parse(a), p.parse(b)) else { return };
    let (e1, e2) = (x == y, y == x);
    out(e1 as u64);
    check(e1 == e2, 2001);
    if c == 0 && cfg!(not(feature = "opt")) { check(x == x.clone(), 2002); }
    if !e1 { cover(2); return; }
    cover(1);
    let (Some(r), Some(q)) = (refm::read(a, &rc), refm::read(b, &rc)) else { return };
    let names = sorted(&x);
    check(same_set(&names, &sorted(&y)), 2003);
    let mut m: HashMap<&str, f64> = HashMap::new();
    for (k, n) in names.iter().enumerate() { m.insert(n, num(1000 + k as u32)); }
    let (Ok(u), Ok(v)) = (x.eval(&m), y.eval(&m)) else { check(false, 2004); return };
    if m.len() == names.len() {
        let env = |n: &str| m.get(n).copied().unwrap_or(1.5);
        let _ = r.value(&env, true);
        let _ = q.value(&env, true);
    }
    cover(3);
    feq(u, v, 2005);
}
/// C20. the same names standing for different things in two contexts. params: text A, text B
fn h_equal_ctx() {
    let mut i = In::new();
    let (Some(a), Some(b)) = (i.text(), i.text()) else { return };
    let fun = |k: u64| match k {
        0 => xprs_fn!("f", |x| sym::uf(7, &[x]), 1), 1 => xprs_fn!("f", |x| sym::uf(8, &[x]), 1), 2 => xprs_fn!("f", dyn |x| sym::uf(9, &[x]), 1),
        3 => xprs_fn!("f", dyn |x| sym::uf(20, &[x]), 1), 4 => Function::new_dyn("f", |a| sym::uf(21, a), None), _ => Function::new_static("f", |a| sym::uf(22, a), None),
    };
    let (k, l) = (choice(3000, 6), choice(3001, 6));
    let (f, g) = (fun(k), if choice(3002, 2) == 1 { fun(l) } else { return });
    let p = Parser::new_with_ctx(Context::default().with_fn(f.clone()).with_var("k", num(1100)));
    let q = Parser::new_with_ctx(Context::default().with_fn(g.clone()).with_var("k", num(1101)));
    let (Ok(x), Ok(y)) = (p.parse(a), q.parse(b)) else { return };
    check(f == f.clone() && x == x.clone() || cfg!(feature = "opt") || contains(a, "k"), 2021);
    let e = x == y;
    out(e as u64);
    check(e == (y == x), 2022);
    check((f == g) == (g == f), 2023);
    if !e { cover(2); return; }
    cover(1);
    let mut m: HashMap<&str, f64> = HashMap::new();
    m.insert("x", num(1000));
    m.insert("y", num(1001));
    let (Ok(u), Ok(v)) = (x.eval(&m), y.eval(&m)) else { check(false, 2024); return };
    feq(u, v, 2025);
}
/// C22. params: context, text. While "shared", no write to memory another thread can see.
fn h_share() {
    let mut i = In::new();
    let c = i.next();
    let Some(t) = i.text() else { return };
    let (p, _) = parser(c);
    let p = Box::new(p);
    let names: Box<[&str]> = Box::new(["x", "y", "k", "z"]);
    let mut m: HashMap<&str, f64> = HashMap::new();
    for (k, n) in names.iter().enumerate() { m.insert(n, num(1000 + k as u32)); }
    let m = Box::new(m);
    let first = Box::new(p.parse(t));
    let want = Box::new((*first).as_ref().ok().map(|x| x.eval(&m)));
    out(first.is_ok() as u64);
    if let Some(Ok(v)) = &*want { outf(*v); }
    let mut m2: HashMap<&str, f64> = HashMap::new();
    for (k, n) in names.iter().enumerate() { m2.insert(n, num(1100 + k as u32)); }
    let m2 = Box::new(m2);
    let q = Box::new(Parser::new_with_ctx(other()));
    let want2 = Box::new((*first).as_ref().ok().map(|x| x.eval(&m2)));
    shared(|| {
        let r = p.parse(t);
        check(first.is_ok() == r.is_ok(), 2201);
        if let (Ok(x), Ok(y), Some(w)) = (&*first, &r, &*want) {
            cover(1);
            for e in [x, y] {
                match (e.eval(&m), w) { (Ok(v), Ok(w)) => { same(v, *w, 2202); same(e.eval_unchecked(&m), *w, 2206) } (Err(a), Err(b)) => check(a.to_string() == b.to_string(), 2203), _ => check(false, 2204) }
            }
            let z = x.clone();
            check(z.vars.len() == x.vars.len(), 2205);
            let z = z.simplify_for(("x", 2.0));
            let _ = z.eval(&m);
        }
    }, || {
        let r = p.parse(t);
        let _ = p.parse("z^y-max(x,2)");
        let _ = q.parse(t);
        for e in [&*first, &r].into_iter().flatten() {
            if let (Ok(v), Some(Ok(w))) = (e.eval(&m2), &*want2) { same(v, *w, 2207); let _ = e.eval_unchecked(&m2); }
            let _ = e.clone().simplify_for(("x", 3.0));
        }
    });
    // nor has anything been left behind
    if let Ok(x) = &*first {
        if let (Ok(v), Some(Ok(w))) = (x.eval(&m2), &*want2) { same(v, *w, 2208); }
        if let (Ok(v), Some(Ok(w))) = (x.eval(&m), &*want) { same(v, *w, 2209); }
    }
}
/// C21. params: does the last line end in a line break?, number of lines, texts of the lines
fn h_repl() { #[cfg(feature = "repl")] {
    let mut i = In::new();
    let (nl, n) = (i.next(), i.next());
    let mut lines = vec![];
    for k in 0..n {
        let Some(t) = i.text() else { return };
        if t.bytes().any(|c| c == b'\n') { return; }
        if k + 1 < n || nl != 0 { lines.push(format!("{t}\n")); } else if !t.is_empty() { lines.push(t.to_string()); }
    }
    let given = lines.len();
    let ended = crate::repl::session(lines);
    let t = crate::repl::term();
    out(t.reads.len() as u64);
    check(ended == Some(true), 2101);
    // the session as it has to be
    let p = Parser::default();
    let mut j = 0;
    let said = |j: usize| -> &str { &t.out[t.reads[j].0..if j + 1 < t.reads.len() { t.reads[j + 1].0 } else { t.out.len() }] };
    let mut over = false;
    'session: while j < t.reads.len() {
        let Some(l) = t.reads[j].1 else { over = true; cover(4); break };
        let l = t.lines[l].as_str();
        if l.trim() == "exit" { over = true; cover(3); break; }
        // (whether the blanks around a line belong to it is left open)
        let mut r = p.parse(l);
        if !match &r { Ok(x) => contains(said(j), &x.to_string()), Err(e) => contains(said(j), &e.to_string()) } { r = p.parse(l.trim()); }
        match r {
            Err(e) => { cover(2); check(contains(said(j), &e.to_string()), 2103); }
            Ok(x) => {
                cover(1);
                check(contains(said(j), &x.to_string()), 2104);
                let mut need = sorted(&x);
                let few = need.len() < 2;
                let mut m: HashMap<&str, f64> = HashMap::new();
                while !need.is_empty() {
                    j += 1;
                    check(j < t.reads.len(), 2106);
                    if j >= t.reads.len() { break 'session; }
                    let before = &t.out[t.reads[j - 1].0..t.reads[j].0];
                    let asked = before[before.rfind('\n').map_or(0, |k| k + 1)..].trim_end_matches([' ', ':']);
                    let at = need.iter().position(|q| *q == asked);
                    check(at.is_some(), 2107);
                    let Some(at) = at else { break 'session };
                    let Some(l) = t.reads[j].1 else { over = true; cover(5); break 'session };
                    // what is no number is asked for again
                    if let Ok(v) = t.lines[l].trim().parse() { m.insert(need.remove(at), v); } else { cover(6); }
                }
                let Ok(v) = x.eval(&m) else { check(false, 2108); return };
                // (the order of the questions is a hash set's)
                if few { outf(v); }
                check(contains(said(j), &format!("{v:?}")), 2105);
            }
        }
        j += 1;
    }
    check(over, 2109);
    // nothing is read after the end, and everything before it
    check(j + 1 == t.reads.len(), 2110);
    if over && t.reads[j].1.is_none() { check(t.next == given, 2111); }
} }
}

static mut CALLS: u32 = 0;
fn boom(a: &[f64]) -> f64 {
    let k = unsafe { CALLS };
    if k < 6 {
        unsafe { CALLS += 1; }
        if choice(3000 + k, 2) == 1 { panic!("user function"); }
    }
    let mut s = 1.0;
    for x in a { s += *x; }
    s
}
/// n! (exactly up to 22!, within 2e-15 above)
fn fact_ok(v: f64, n: usize, tag: u64) { check(v >= refm::FACT_LO[n] && v <= refm::FACT_HI[n], tag) }
/// distinct functions of one argument
fn ufn(name: &'static str, k: u8) -> Function {
    match k {
        0 => xprs_fn!(name, |x| sym::uf(10, &[x]), 1),
        1 => Function::new_static(name, |a| sym::uf(11, a), Some(2)),
        2 => Function::new_dyn(name, |a| sym::uf(12, a), Some(3)),
        _ => Function::new_dyn(name, |a| sym::uf(13, a), Some(4)),
    }
}

fn function(n: u8, dynamic: bool) -> Function {
    macro_rules! u { ($($a:ident),*) => { |$($a),*| sym::uf(7, &[$($a),*]) } }
    match (n, dynamic) {
        (0, false) => xprs_fn!("F", || sym::uf(7, &[]), 0),
        (1, false) => xprs_fn!("F", u!(a), 1),
        (2, false) => xprs_fn!("F", u!(a, b), 2),
        (3, false) => xprs_fn!("F", u!(a, b, c), 3),
        (4, false) => xprs_fn!("F", u!(a, b, c, d), 4),
        (5, false) => xprs_fn!("F", u!(a, b, c, d, e), 5),
        (6, false) => xprs_fn!("F", u!(a, b, c, d, e, f), 6),
        (7, false) => xprs_fn!("F", u!(a, b, c, d, e, f, g), 7),
        (8, false) => xprs_fn!("F", u!(a, b, c, d, e, f, g, h), 8),
        (9, false) => xprs_fn!("F", u!(a, b, c, d, e, f, g, h, i), 9),
        (0, true) => xprs_fn!("F", dyn || sym::uf(7, &[]), 0),
        (1, true) => xprs_fn!("F", dyn u!(a), 1),
        (2, true) => xprs_fn!("F", dyn u!(a, b), 2),
        (3, true) => xprs_fn!("F", dyn u!(a, b, c), 3),
        (4, true) => xprs_fn!("F", dyn u!(a, b, c, d), 4),
        (5, true) => xprs_fn!("F", dyn u!(a, b, c, d, e), 5),
        (6, true) => xprs_fn!("F", dyn u!(a, b, c, d, e, f), 6),
        (7, true) => xprs_fn!("F", dyn u!(a, b, c, d, e, f, g), 7),
        (8, true) => xprs_fn!("F", dyn u!(a, b, c, d, e, f, g, h), 8),
        (9, true) => xprs_fn!("F", dyn u!(a, b, c, d, e, f, g, h, i), 9),
        (_, false) => xprs_fn!("F", |a| sym::uf(7, a)),
        (_, true) => xprs_fn!("F", dyn |a: &[f64]| sym::uf(7, a)),
    }
}

/// what a parse error must satisfy
fn error_ok(t: &str, e: &ParseError, rc: &[(&str, Sym)]) {
    let msg = e.to_string();
    let help = e.help().map(|h| h.to_string()).unwrap_or_default();
    check(!help.is_empty(), 501);
    // the text it quotes
    let mut spans: Vec<(usize, usize)> = vec![];
    if let Some(ls) = e.labels() { for l in ls { spans.push((l.offset(), l.len())); } }
    check(spans.len() == 1, 502);
    let (o, n) = spans[0];
    out(o as u64);
    out(n as u64);
    check(o <= t.len() && n <= t.len() - o, 503);
    if o > t.len() || n > t.len() - o { return; }
    check(t.is_char_boundary(o) && t.is_char_boundary(o + n), 504);
    match e.source_code() {
        Some(s) => {
            let c = s.read_span(&miette::SourceSpan::from((0, t.len())), 0, 0);
            match c { Ok(c) => check(c.data() == t.as_bytes(), 505), Err(_) => check(t.is_empty(), 506) }
        }
        None => check(false, 507),
    }
    let b = t.as_bytes();
    let rest = &t[o..];
    let quoted = |p: &str| -> Option<String> { let s = msg.strip_prefix(p)?; Some(s.strip_suffix('`')?.to_string()) };
    if let Some(q) = quoted("Unexpected token: `") { cover(11); check(starts(rest, &q), 511); check(count(&q) == 1, 512); }
    else if let Some(q) = quoted("Illegal character: `") { cover(12); check(starts(rest, &q), 513); check(count(&q) == 1, 514); }
    else if let Some(q) = quoted("Malformed number: `") {
        cover(13);
        check(t[o..o + n] == *q, 515);
        check(n > 0, 516);
        // the whole run of literal characters, which is not a number
        let lit = |c: u8| c.is_ascii_digit() || c == b'.' || c == b'_';
        check(o == 0 || !lit(b[o - 1]), 517);
        check(o + n == b.len() || !b[o + n].is_ascii_digit(), 518);
        let clean: Vec<u8> = q.bytes().filter(|c| *c != b'_').map(|c| if c == b'E' { b'e' } else { c }).collect();
        check(refm::decimal(&clean).is_none(), 519);
    }
    else if let Some(q) = quoted("Expected token: `") { cover(14); check(count(&q) == 1, 520); check(!starts(rest, &q), 521); check(contains(&help, &q), 523); }
    else if msg == "Unexpected end of expression" {
        cover(15);
        // points at the last character: nothing but blanks after it
        let mut k = o + 1;
        while k < b.len() { check(b[k] == b' ' || b[k] == b'\t' || b[k] == b'\n' || b[k] == 12 || b[k] == b'\r' || !t.is_char_boundary(k), 522); k += 1; }
    }
    else if msg == "Missing argument for function call" { cover(16); }
    else if let Some((what, nums)) = msg.split_once(" arguments for function call, expected ") {
        cover(17);
        // the span is the call, from the name to just before or after the closing parenthesis
        let Some((ex, got)) = nums.split_once(" got ") else { check(false, 530); return };
        let call = &t[o..o + n];
        let mut k = 0;
        while k < n && { let c = call.as_bytes()[k]; c.is_ascii_alphanumeric() || c == b'_' || c == b'\'' } { k += 1; }
        let name = &call[..k];
        check(k > 0, 531);
        let mut ar = None;
        for (q, s) in rc { if *q == name { if let Sym::Fun(_, _, a) = s { ar = *a; } } }
        if ar.is_none() { if let Some(Sym::Fun(_, _, a)) = refm::builtin(name) { ar = a; } }
        let (mut depth, mut args) = (0, 1usize);
        for c in &call.as_bytes()[k..] { match *c { b'(' => depth += 1, b')' => depth -= 1, b',' if depth == 1 => args += 1, _ => {} } }
        check(num_eq(ex, ar.map_or(999, usize::from)), 532);
        check(num_eq(got, args), 533);
        check(what == if ar.map_or(0, usize::from) > args { "Too few" } else { "Too many" }, 534);
        // a count in the help is the number of arguments to add or to remove
        let ar = ar.map_or(0, usize::from);
        for w in help.split(|c: char| !c.is_ascii_digit()) { if !w.is_empty() { check(num_eq(w, ar.abs_diff(args)), 535); } }
    }
    else if let Some(q) = quoted("Variable not previously declared: `") { cover(18); check(contains(t, &q), 540); }
    else { check(false, 550); }
}
fn starts(s: &str, p: &str) -> bool {
    let (a, b) = (s.as_bytes(), p.as_bytes());
    if b.len() > a.len() { return false; }
    for k in 0..b.len() { if a[k] != b[k] { return false; } }
    true
}
fn count(s: &str) -> usize { let mut n = 0; for c in s.as_bytes() { if *c & 0xc0 != 0x80 { n += 1; } } n }
fn num_eq(s: &str, n: usize) -> bool {
    let mut v = 0usize;
    for c in s.as_bytes() { if !c.is_ascii_digit() { return false; } v = v * 10 + (*c - b'0') as usize; }
    !s.is_empty() && v == n
}

#[cfg(feature = "share")]
const _: () = {
    const fn shared<T: Send + Sync>() {}
    shared::<Parser<'static>>();
    shared::<Context<'static>>();
    shared::<Xprs<'static>>();
    shared::<Function>();
    shared::<ParseError>();
};
