//! vext: mechanical extraction of /repo's functions into a Verus crate.
//!
//!   vext REPO CONTRACTS_DIR OUT.rs OUT.map [--external key]...
//!
//! Every run parses the Rust source of REPO (src/**/*.rs) and the contract files
//! (CONTRACTS_DIR/*.vc, in name order), and writes one Verus crate whose executable code is the
//! repository's own, after the rewrites of `rewrite.rs` (each one documented there and in
//! DESIGN.md), with the contracts inserted. OUT.map lists, per function, the line range of the
//! generated code, the source position, and what was lost (anchors, loops, unknown callees).
mod pattern;
mod contract;
mod emit;
mod inline;
mod rewrite;
mod source;

use std::collections::BTreeSet;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.len() < 4 {
        eprintln!("usage: vext REPO CONTRACTS OUT.rs OUT.map [--external KEY]...");
        std::process::exit(2);
    }
    let mut external = BTreeSet::new();
    let mut vacuity = 0u8;
    let mut i = 4;
    while i < args.len() {
        match args[i].as_str() {
            "--external" => {
                external.insert(args[i + 1].clone());
                i += 2;
            }
            "--vacuity-full" => {
                vacuity = 2;
                i += 1;
            }
            "--vacuity" => {
                vacuity = 1;
                i += 1;
            }
            a => {
                eprintln!("unknown argument {}", a);
                std::process::exit(2);
            }
        }
    }
    let mut src = match source::Source::load(&args[0]) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("vext: {}", e);
            std::process::exit(3);
        }
    };
    let files = contract::load_dir(&args[1]);
    let wanted: Vec<(String, String)> = files
        .iter()
        .flat_map(|f| {
            f.items.iter().filter_map(move |i| match i {
                contract::Item::Fn(c) => f.src.clone().map(|s| (s, c.key.clone())),
                _ => None,
            })
        })
        .collect();
    let renamed = src.adopt(&wanted);
    for (p, n, o) in &renamed {
        eprintln!("{}: `{}` is taken for `{}`", p, n, o);
    }
    let mut out = emit::Out::new();
    emit::emit_all(&src, &files, &external, vacuity, &mut out);
    std::fs::write(&args[2], out.text()).unwrap();
    std::fs::write(&args[3], out.map()).unwrap();
}
