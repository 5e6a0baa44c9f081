//! Runs harness entries natively, on concrete bytes, against the real crate.
//! stdin: lines "ENTRY HEX [REPEAT]"; stdout: one JSON object per line.
#[path = "../../harness/src/lib.rs"]
#[allow(dead_code)]
mod h;
use std::io::BufRead;
use std::sync::Mutex;

static PANIC: Mutex<Option<String>> = Mutex::new(None);

fn once(f: fn(), bytes: &[u8]) -> serde_json::Value {
    {
        let mut r = h::sym::R.lock().unwrap_or_else(|e| e.into_inner());
        *r = h::sym::Replay { bytes: bytes.to_vec(), at: 0, obs: vec![], reached: vec![], failed: None, infeasible: false, hash: false, inputs: vec![] };
    }
    *PANIC.lock().unwrap() = None;
    for e in std::fs::read_dir(".").unwrap().flatten() {
        let p = e.path();
        if e.file_type().unwrap().is_dir() { std::fs::remove_dir_all(&p).ok(); } else { std::fs::remove_file(&p).ok(); }
    }
    let res = std::panic::catch_unwind(f);
    let r = h::sym::R.lock().unwrap_or_else(|e| e.into_inner());
    let mut panicked = None;
    if let Err(p) = res {
        if !p.is::<h::sym::Stop>() { panicked = Some(PANIC.lock().unwrap().clone().unwrap_or_default()); }
    }
    serde_json::json!({
        "failed": r.failed, "panic": panicked, "infeasible": r.infeasible, "used": r.at, "hash": r.hash,
        "obs": r.obs.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>(), "reached": r.reached, "inputs": r.inputs,
    })
}

fn main() {
    let dir = std::env::args().nth(1).expect("scratch directory");
    assert!(dir.contains("vp-replay-"), "refusing to clean {dir}");
    std::env::set_current_dir(&dir).unwrap();
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}: ", l.file(), l.line())).unwrap_or_default();
        *PANIC.lock().unwrap() = Some(format!("{l}{}", i.payload_as_str().unwrap_or("")));
    }));
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            let mut p = l.split(' ');
            let (name, hx) = (p.next().unwrap(), p.next().unwrap_or(""));
            let n: usize = p.next().and_then(|s| s.parse().ok()).unwrap_or(1);
            let bytes: Vec<u8> = (0..hx.len() / 2).map(|i| u8::from_str_radix(&hx[2 * i..2 * i + 2], 16).unwrap()).collect();
            let Some(e) = h::ENTRIES.iter().chain(h::tool::ENTRIES).find(|e| e.0 == name) else { println!("{{\"error\":\"no entry\"}}"); continue };
            let mut v = once(e.1, &bytes);
            for _ in 1..n {
                if !v["failed"].is_null() || !v["panic"].is_null() || v["infeasible"] == true { break; }
                v = once(e.1, &bytes);
            }
            println!("{v}");
        }
    }).unwrap();
    t.join().unwrap();
}
