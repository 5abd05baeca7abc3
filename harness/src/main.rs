//! Runs the real crate against an independent statement of what each property says the text has to
//! be.  It backs the proof: it replays a refuted obligation on real inputs, and it covers what the
//! extraction drops.
#![allow(clippy::all)]
mod coll;
mod nstr;
mod oracle;
mod props;
mod sys;
mod tables;
mod trust;
mod util;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut seed = 1u64;
    let mut tier = "quick".to_string();
    let mut budget: Option<u64> = None;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--seed" => { seed = args[i + 1].parse().unwrap_or(1); i += 2 }
            "--tier" => { tier = args[i + 1].clone(); i += 2 }
            "--budget" => { budget = args[i + 1].parse().ok(); i += 2 }
            "--dict" => { util::read_dict(&args[i + 1]); i += 2 }
            "--trace" => { util::trace_to(&args[i + 1]); i += 2 }
            _ => i += 1,
        }
    }
    let prop = args[1].clone();
    if prop == "trust" { println!("{}", trust::run(seed)); return }
    util::install();
    // deep recursion in the code under test must not be confused with a small stack
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut cx = util::Cx::new(seed, false);
        cx.deadline = budget.map(|b| std::time::Instant::now() + std::time::Duration::from_secs(b));
        // "deep" is what "thorough" runs after the quick pass
        if tier != "deep" { props::run(&prop, &mut cx); }
        if tier != "quick" && !cx.failed() {
            cx.thorough = true;
            props::run(&prop, &mut cx);
        }
        cx.report();
    }).unwrap();
    h.join().unwrap();
}
