//! Mechanical extraction: macro-expanded source of the crate under test + sidecar contracts
//! -> one Verus file.  See DESIGN.md, "What the extraction drops and rewrites".
mod emit;
mod rewrite;
mod spec;

use std::fs;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut expanded = String::new();
    let mut specdir = String::new();
    let mut out = String::new();
    let mut map = String::new();
    let mut alloc = true;
    let mut canary = false;
    let mut degraded: Vec<String> = Vec::new();
    let mut i = 1;
    while i < args.len() {
        let v = || args.get(i + 1).cloned().expect("missing value");
        match args[i].as_str() {
            "--in" => expanded = v(),
            "--spec" => specdir = v(),
            "--out" => out = v(),
            "--map" => map = v(),
            "--no-alloc" => {
                alloc = false;
                i += 1;
                continue;
            }
            // every function asserts false first: used to show that contracts are not vacuous
            "--canary" => {
                canary = true;
                i += 1;
                continue;
            }
            "--degrade" => degraded.push(v()),
            other => panic!("unknown argument {other}"),
        }
        i += 2;
    }
    let src = fs::read_to_string(&expanded).expect("read expanded source");
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("EXTRACT-ERROR cannot parse the expanded source: {e}");
            std::process::exit(3);
        }
    };
    let specs = spec::Specs::load(&specdir, alloc);
    let mut em = emit::Emitter::new(specs, degraded);
    em.canary = canary;
    em.file(&file);
    fs::write(&out, em.text()).expect("write output");
    fs::write(&map, em.map_json()).expect("write map");
}
