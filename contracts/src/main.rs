//! Native execution of the harnesses: search for and replay of failing inputs
use contracts::vc::{Assumed, Failed, SRC};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

enum Outcome { Ok, Skipped, Failed(String) }

fn setup(seed: u64, replay: Option<Vec<String>>) {
    SRC.with(|s| { let mut s = s.borrow_mut(); s.rng = seed; s.names.clear(); });
    contracts::vc::set_replay(replay);
    contracts::env::reset(false);
}
static BEAT: AtomicU64 = AtomicU64::new(0);

fn execute(f: fn(), seed: u64, replay: Option<Vec<String>>) -> (Outcome, Vec<String>) {
    setup(seed, replay);
    BEAT.fetch_add(1, Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    let log = SRC.with(|s| std::mem::take(&mut s.borrow_mut().log));
    let o = match r {
        Ok(()) => Outcome::Ok,
        Err(p) => {
            if p.is::<Assumed>() { Outcome::Skipped }
            else if let Some(f) = p.downcast_ref::<Failed>() { Outcome::Failed(f.0.clone()) }
            else if let Some(s) = p.downcast_ref::<String>() { Outcome::Failed(format!("panic: {}", s)) }
            else if let Some(s) = p.downcast_ref::<&str>() { Outcome::Failed(format!("panic: {}", s)) }
            else { Outcome::Failed("panic".to_string()) }
        }
    };
    (o, log)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }

/// Reduce the tokens of a failing execution, keeping the failure
fn shrink(f: fn(), mut log: Vec<String>, what: &str) -> Vec<String> {
    let end = Instant::now() + Duration::from_secs(10);
    let mut changed = true;
    let fails = |l: Vec<String>| { let (o, log) = execute(f, 1, Some(l)); match o { Outcome::Failed(w) if w == what => Some(log), _ => None } };
    while changed && Instant::now() < end {
        changed = false;
        let mut i = if log.first().map(|t| t == "mode:engine").unwrap_or(false) { 1 } else { 0 };
        while i < log.len() && Instant::now() < end {
            for cand in ["0", "1", "s:", "s:a", "s:b"] {
                if log[i] == cand || log[i].starts_with("s:") != cand.starts_with("s:") { continue }
                if cand.len() > log[i].len() { continue }
                let mut l = log.clone();
                l[i] = cand.to_string();
                if let Some(n) = fails(l) { if n.len() < log.len() || (n.len() == log.len() && n != log && n.iter().map(|s| s.len()).sum::<usize>() <= log.iter().map(|s| s.len()).sum::<usize>()) { log = n; changed = true; break } }
            }
            i += 1;
        }
    }
    log
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || work(args)).unwrap();
    let mut last = (0, Instant::now());
    while !h.is_finished() {
        std::thread::sleep(Duration::from_millis(20));
        let b = BEAT.load(Ordering::Relaxed);
        if b != last.0 { last = (b, Instant::now()) }
        if last.1.elapsed() > Duration::from_secs(90) { eprintln!("no progress"); std::process::exit(3) }
    }
    std::process::exit(h.join().unwrap_or(4));
}

fn work(args: Vec<String>) -> i32 {
    let get = |n: &str, d: u64| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).and_then(|v| v.parse().ok()).unwrap_or(d);
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => { for (p, n, _) in contracts::all() { println!("{} {}", p, n) } 0 }
        // run PROP --seed N --time MS [--only HARNESS] [--state FILE]
        Some("run") => {
            let prop = &args[2];
            let (seed, ms) = (get("--seed", 1), get("--time", 3000));
            let (part, parts) = (get("--part", 0), get("--parts", 1));
            let only = opt("--only");
            let mut state = opt("--state").map(|p| std::fs::File::create(p).unwrap());
            let hs: Vec<_> = contracts::all().into_iter().filter(|h| (h.0 == prop || prop == "all") && only.as_deref().map(|o| o == h.1).unwrap_or(true)).collect();
            let start = Instant::now();
            let mut iters = vec![0u64; hs.len()];
            let mut skipped = vec![0u64; hs.len()];
            let mut spent = vec![Duration::ZERO; hs.len()];
            let mut failures: Vec<String> = vec![];
            let mut dead = vec![false; hs.len()];
            // stop at the first failure
            let first = get("--first", 0) != 0;
            let mut round = part;
            while !hs.is_empty() && start.elapsed() < Duration::from_millis(ms) && !dead.iter().all(|d| *d) {
                for (k, h) in hs.iter().enumerate() {
                    if dead[k] { continue }
                    let t = Instant::now();
                    // the same share of time for every harness
                    for i in 0..200u64 {
                        let s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ ((round * 200 + i).wrapping_mul(0xD1342543DE82EF95)) ^ ((k as u64) << 56);
                        if let Some(f) = state.as_mut() { use std::io::Seek; let _ = f.rewind(); let _ = writeln!(f, "{} {}                    ", h.1, s); }
                        let (o, log) = execute(h.2, s, None);
                        iters[k] += 1;
                        match o {
                            Outcome::Ok => {}
                            Outcome::Skipped => skipped[k] += 1,
                            Outcome::Failed(w) => {
                                let log = if first { log } else { shrink(h.2, log, &w) };
                                failures.push(format!("{{\"harness\":{},\"what\":{},\"tokens\":{}}}", js(h.1), js(&w), jl(&log)));
                                dead[k] = true;
                                if first { dead.iter_mut().for_each(|d| *d = true) }
                                break;
                            }
                        }
                        if t.elapsed() > Duration::from_millis(100) { break }
                    }
                    spent[k] += t.elapsed();
                }
                round += parts;
            }
            let checks = SRC.with(|s| s.borrow().checks);
            let mut covers: Vec<&str> = SRC.with(|s| s.borrow().covers.clone());
            covers.sort();
            covers.dedup();
            let hj: Vec<String> = hs.iter().enumerate().map(|(k, h)| format!("{{\"harness\":{},\"iterations\":{},\"assumed_away\":{},\"ms\":{}}}", js(h.1), iters[k], skipped[k], spent[k].as_millis())).collect();
            println!("{{\"checks\":{},\"harnesses\":[{}],\"failures\":[{}]}}", checks, hj.join(","), failures.join(","));
            if failures.is_empty() { 0 } else { 1 }
        }
        // replay HARNESS FILE|- : tokens, one per line
        Some("replay") => {
            let toks: Vec<String> = std::fs::read_to_string(&args[3]).unwrap().lines().map(|s| s.to_string()).collect();
            let h = match contracts::all().into_iter().find(|h| h.1 == args[2]) { Some(h) => h, None => { println!("{{\"result\":\"unknown\"}}"); return 2 } };
            // the order of the parameters of an external module is not determined: try again
            let (mut o, mut log) = execute(h.2, get("--seed", 1), Some(toks.clone()));
            for k in 0..get("--tries", 40) { if let Outcome::Failed(_) = o { break } let r = execute(h.2, get("--seed", 1) + k * get("--step", 0), Some(toks.clone())); o = r.0; log = r.1; }
            if std::env::var("VC_SHOW").is_ok() { if let Outcome::Failed(w) = &o { println!("{}", w); return 1 } }
            match o {
                Outcome::Failed(w) => { let log = shrink(h.2, log, &w); println!("{{\"result\":\"failed\",\"what\":{},\"tokens\":{}}}", js(&w), jl(&log)); 1 }
                Outcome::Skipped => { println!("{{\"result\":\"skipped\"}}"); 0 }
                Outcome::Ok => { println!("{{\"result\":\"ok\"}}"); 0 }
            }
        }
        // seed HARNESS SEED
        Some("seed") => {
            let h = contracts::all().into_iter().find(|h| h.1 == args[2]).unwrap();
            let (o, log) = execute(h.2, args[3].parse().unwrap(), None);
            match o { Outcome::Failed(w) => { println!("{{\"result\":\"failed\",\"what\":{},\"tokens\":{}}}", js(&w), jl(&log)); 1 } _ => { println!("{{\"result\":\"ok\"}}"); 0 } }
        }
        // sample PROP SEED: a few executions, as drawn
        Some("sample") => {
            let seed: u64 = args[3].parse().unwrap_or(1);
            let v: Vec<String> = contracts::all().into_iter().filter(|h| h.0 == args[2]).take(4).map(|h| { let (o, log) = execute(h.2, seed, None); format!("{{\"harness\":{},\"drawn\":{},\"result\":{}}}", js(h.1), jl(&log[..log.len().min(60)]), js(match o { Outcome::Ok => "held", Outcome::Skipped => "precondition not met", Outcome::Failed(_) => "failed" })) }).collect();
            println!("[{}]", v.join(","));
            0
        }
        // finding NAME: demonstrate a known finding (aborts if it is still there)
        Some("finding") => { contracts::robust::finding(&args[2]); 0 }
        _ => 2,
    }
}
