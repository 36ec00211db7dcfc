// With the feature `repl`: /repo's REPL as a module (inner attributes and inner documentation removed).
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_REPL").is_none() { return; }
    let src = "/repo/src/bin/repl.rs";
    println!("cargo:rerun-if-changed={src}");
    let s = std::fs::read_to_string(src).expect("repl.rs");
    let (mut out, mut rest) = (String::new(), s.as_str());
    let mut line_start = true;
    while !rest.is_empty() {
        let t = rest.trim_start_matches([' ', '\t']);
        if line_start && t.starts_with("//!") { rest = rest.find('\n').map_or("", |k| &rest[k..]); continue; }
        if line_start && t.starts_with("#![") {
            let mut depth = 0;
            let mut end = t.len();
            for (k, c) in t.char_indices() { match c { '[' => depth += 1, ']' => { depth -= 1; if depth == 0 { end = k + 1; break; } } _ => {} } }
            rest = &t[end..];
            continue;
        }
        let k = rest.find('\n').map_or(rest.len(), |k| k + 1);
        out.push_str(&rest[..k]);
        rest = &rest[k..];
        line_start = true;
    }
    std::fs::write(std::path::Path::new(&std::env::var_os("OUT_DIR").unwrap()).join("repl.rs"), out).expect("write");
}
