mod exec;
mod expr;
mod solver;
mod wasm;
use std::time::{Duration, Instant};

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut wasm_p = String::new();
    let mut entry = String::new();
    let mut secs = 600u64;
    let mut threads = 8usize;
    let mut steps = 300_000_000u64;
    let mut solver_ms = 60_000u32;
    let mut keep = 64usize;
    let mut maxcex = 8usize;
    let mut prof = false;
    let mut notes = false;
    let mut samples_dir = String::new();
    let mut slow_dir = None;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut n = || it.next().expect("value");
        match a.as_str() {
            "--wasm" => wasm_p = n(),
            "--entry" => entry = n(),
            "--secs" => secs = n().parse().unwrap(),
            "--threads" => threads = n().parse().unwrap(),
            "--steps" => steps = n().parse().unwrap(),
            "--solver-ms" => solver_ms = n().parse().unwrap(),
            "--keep" => keep = n().parse().unwrap(),
            "--max-cex" => maxcex = n().parse().unwrap(),
            "--prof" => prof = true,
            "--notes" => notes = true,
            "--slow" => slow_dir = Some(n()),
            "--samples" => samples_dir = n(),
            o => panic!("unknown option {o}"),
        }
    }
    let t0 = Instant::now();
    let m = wasm::load(&std::fs::read(&wasm_p).expect("wasm"));
    let mk = |secs: u64| exec::Cfg {
        threads,
        max_steps: steps,
        deadline: Instant::now() + Duration::from_secs(secs),
        solver_ms,
        keep_paths: keep,
        max_cex: maxcex,
        slow_dir: slow_dir.clone(),
    };
    let start = exec::Ex::new(&m, mk(120)).snapshot(m.exports.get("vp_warm").copied());
    let load = t0.elapsed();
    // --entry NAME[:SECS],NAME[:SECS]...
    for spec in entry.split(',') {
    let t0 = Instant::now();
    let (entry, secs) = match spec.split_once(':') {
        Some((e, s)) => (e, s.parse().unwrap()),
        None => (spec, secs),
    };
    let Some(&fi) = m.exports.get(entry) else {
        eprintln!("no entry {entry}");
        std::process::exit(2);
    };
    solver::reset();
    let ex = exec::Ex::new(&m, mk(secs));
    ex.run(fi, &start);
    let r = ex.res.lock().unwrap();
    use std::sync::atomic::Ordering::Relaxed;
    let mut o = String::from("{");
    o.push_str(&format!("\"entry\":{},", jstr(entry)));
    o.push_str(&format!("\"paths\":{},\"assumed_away\":{},\"forks\":{},\"case_splits\":{},", r.paths, r.assumed, r.forks, r.conc));
    o.push_str(&format!("\"checks\":{},\"checks_symbolic\":{},", r.checks, r.checks_sym));
    o.push_str(&format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"fast_sat\":{},\"domain_unsat\":{},\"solver_s\":{:.3},\"solver_max_ms\":{:.1},",
        solver::QUERIES.load(Relaxed),
        solver::SAT.load(Relaxed),
        solver::UNSAT.load(Relaxed),
        solver::UNKNOWN.load(Relaxed),
        solver::HITS.load(Relaxed),
        solver::FAST_SAT.load(Relaxed),
        solver::DOM_UNSAT.load(Relaxed),
        solver::NANOS.load(Relaxed) as f64 / 1e9,
        solver::MAXNS.load(Relaxed) as f64 / 1e6
    ));
    o.push_str(&format!("\"solver\":{},", jstr(&solver::version())));
    o.push_str(&format!("\"instructions\":{},\"symbolic_bytes\":{},\"exprs\":{},", r.steps, r.max_vars, expr::count()));
    o.push_str(&format!("\"load_s\":{:.2},\"wall_s\":{:.2},", load.as_secs_f64(), t0.elapsed().as_secs_f64()));
    o.push_str("\"check_msgs\":{");
    o.push_str(&r.check_msgs.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\"reach\":{");
    o.push_str(&r.reach.iter().map(|(k, v)| format!("{}:{{\"paths\":{},\"witness\":\"{}\"}}", jstr(k), v.0, exec::hex(&v.1))).collect::<Vec<_>>().join(","));
    o.push_str("},\"incomplete\":[");
    o.push_str(&r.incomplete.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    o.push_str("],\"cex\":[");
    o.push_str(
        &r.cex
            .iter()
            .map(|c| {
                format!(
                    "{{\"kind\":{},\"msg\":{},\"bytes\":\"{}\",\"trace\":[{}]}}",
                    jstr(&c.kind),
                    jstr(&c.msg),
                    exec::hex(&c.bytes),
                    c.trace.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"samples\":[");
    o.push_str(
        &r.samples
            .iter()
            .map(|s| {
                format!(
                    "{{\"bytes\":\"{}\",\"obs\":[{}],\"reached\":[{}]}}",
                    exec::hex(&s.bytes),
                    s.obs.iter().map(|x| format!("\"{x:x}\"")).collect::<Vec<_>>().join(","),
                    s.reached.iter().map(|x| jstr(&ex.str(*x))).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\"functions\":[");
    o.push_str(&m.funcs.iter().zip(&r.funcs).filter(|(f, u)| **u && f.name.contains("avdl")).map(|(f, _)| jstr(&f.name)).collect::<Vec<_>>().join(","));
    o.push_str("]}");
    o.push_str("");
    println!("{o}");
    if prof {
        let mut v: Vec<_> = r.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, pc), n) in v.into_iter().take(40) {
            eprintln!("{n:8} {}@{pc}", m.funcs[*f as usize].name);
        }
    }
    for n in r.slow.iter().filter(|_| prof) {
        eprintln!("slow: {n}");
    }
    if notes {
        for n in &r.notes {
            eprintln!("note: {n}");
        }
    }
    if !samples_dir.is_empty() {
        for (i, (q, sat)) in solver::SAMPLES.lock().unwrap().iter().enumerate() {
            std::fs::write(format!("{samples_dir}/{entry}.q{i}.{}.smt2", if *sat { "sat" } else { "unsat" }), q).unwrap();
        }
    }
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    }
    std::process::exit(0);
}
