mod alloc;
mod ambient;
mod built;
mod cal;
mod cov;
mod der_eval;
mod der_ref;
mod enc;
mod exposed;
mod fault_text;
mod gen;
mod more_eval;
mod mutate;
mod oids;
mod props;
mod render_ref;
mod rep;
mod rng;
mod runner;
mod x509_eval;
mod x509_ref;

use rep::{c, hex, unhex};
use runner::{Opts, Runner, EVALS};
use std::fmt::Write as _;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    runner::quiet_panics();
    let prop: u32 = arg(&args, "--prop").and_then(|p| p.trim_start_matches('C').parse().ok()).unwrap_or(1);
    if let Some(w) = arg(&args, "--witness") {
        cov::set_witness_path(&w);
    }
    if let Some(l) = arg(&args, "--literals") {
        oids::load(&l);
    }
    #[cfg(not(miri))]
    cov::install_signal_witness();
    #[cfg(not(miri))]
    cov::install_exit_witness();
    cov::install_asan_witness();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args, prop),
        Some("replay") => replay(&args, prop),
        Some("union") => union(&args[2..]),
        Some("cli-cases") => props::cli_cases(&args),
        _ => {
            eprintln!("usage: monitor run|replay|cli-cases ..");
            2
        }
    };
    std::process::exit(code);
}

fn run(args: &[String], prop: u32) -> i32 {
    let num = |n: &str, d: u64| arg(args, n).and_then(|v| v.parse().ok()).unwrap_or(d);
    let o = Opts {
        prop,
        seed: num("--seed", 1),
        worker: num("--worker", 0) as usize,
        workers: num("--workers", 1) as usize,
        thorough: arg(args, "--tier").as_deref() == Some("thorough"),
        secs: num("--secs", 20),
        ops: num("--ops", 100_000),
        flavour: arg(args, "--flavour").unwrap_or_else(|| "cov".into()),
    };
    let mut r = Runner::new(o);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&mut r)));
    if res.is_err() {
        eprintln!("harness error: {}", runner::take_panic());
        return 2;
    }
    let mut s = String::from("{");
    let _ = write!(s, "\"evals\":{},\"distinct\":{},\"shapes\":{},", r.rep.evals, r.rep.seen.len(), r.rep.shapes.len());
    let _ = write!(
        s,
        "\"edges\":{},\"features\":{},\"corpus\":{},\"dict\":{},\"timed_out\":{},\"wall\":{:.2},",
        cov::EDGES.load(std::sync::atomic::Ordering::Relaxed),
        r.nfeatures,
        r.corpus.len(),
        r.g.dict.len(),
        r.timed_out,
        r.start.elapsed().as_secs_f64()
    );
    s.push_str("\"counts\":{");
    for (i, (k, v)) in r.rep.counts.iter().enumerate() {
        let _ = write!(s, "{}{}:{}", if i > 0 { "," } else { "" }, json_str(k), v);
    }
    s.push_str("},\"samples\":[");
    for (i, (k, b)) in r.samples.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { "," } else { "" }, json_str(&format!("{k}: {}", hex(b))));
    }
    s.push_str("],\"found\":[");
    for (i, f) in r.found.iter().enumerate() {
        let _ = write!(
            s,
            "{}{{\"eval\":{},\"input\":\"{}\",\"what\":{}}}",
            if i > 0 { "," } else { "" },
            json_str(EVALS[f.eval].0),
            hex(&f.input),
            json_str(&f.what)
        );
    }
    s.push_str("],\"digests\":[");
    for (i, (d, b)) in r.digests.iter().enumerate() {
        let _ = write!(s, "{}[\"{:016x}\",\"{}\"]", if i > 0 { "," } else { "" }, d, hex(b));
    }
    s.push_str("]}");
    if let Some(p) = arg(args, "--seen") {
        let b: Vec<u8> = r.rep.seen.iter().flat_map(|h| h.to_le_bytes()).collect();
        std::fs::write(p, b).expect("write hashes");
    }
    match arg(args, "--out") {
        Some(p) => std::fs::write(p, s).expect("write result"),
        None => println!("{s}"),
    }
    0
}

/// how many different hashes the files hold together
fn union(files: &[String]) -> i32 {
    let mut v: Vec<u64> = Vec::new();
    for f in files {
        let b = std::fs::read(f).expect("readable");
        v.extend(b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
    }
    v.sort_unstable();
    v.dedup();
    println!("{}", v.len());
    0
}

/// exit 1 if the recorded input still refutes the property, 0 if not
fn replay(args: &[String], prop: u32) -> i32 {
    let file = arg(args, "--input").expect("--input FILE (hex)");
    let input = unhex(&std::fs::read_to_string(file).expect("readable input"));
    let name = arg(args, "--eval").unwrap_or_else(|| "der".into());
    let Some(eval) = EVALS.iter().position(|e| e.0 == name) else { return 2 };
    let o = Opts { prop, seed: 1, worker: 0, workers: 1, thorough: false, secs: 600, ops: 0, flavour: "replay".into() };
    let mut r = Runner::new(o);
    r.rep.want = c(prop);
    r.run(eval, &input);
    for f in &r.found {
        println!("{}", f.what);
    }
    !r.found.is_empty() as i32
}
