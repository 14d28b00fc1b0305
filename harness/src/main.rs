//! Conformance harness: binds the TLA+ specification in /verif/spec to zk_sql.
mod advice;
mod arith;
mod cheats;
mod iop_run;
mod iops;
mod kzg;
mod mock;
mod pcs;
mod protocol;
mod sumcheck;
mod tracker;
mod transcript;
mod util;

use serde_json::Value;
use std::io::{BufRead, Write};

fn read_cases(path: &str) -> Vec<Value> {
    let f = std::fs::File::open(path).unwrap_or_else(|e| panic!("cannot open {}: {}", path, e));
    std::io::BufReader::new(f)
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).unwrap_or_else(|e| panic!("bad case {}: {}", l, e)))
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let cmd = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let cases = get("--in").map(|p| read_cases(&p)).unwrap_or_default();
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(6);
    // the code under test may panic or print: keep both off our own output
    std::panic::set_hook(Box::new(|_| {}));
    let kzg = get("--pcs").as_deref() == Some("kzg");

    let run: fn(&[Value], u64, bool) -> util::Report = match cmd.as_str() {
        "iop" => iop_run::run,
        "tracker" => tracker::run,
        "transcript" => transcript::run,
        "sumcheck" => sumcheck::run,
        "pcs" => pcs::run,
        "arith" => arith::run,
        "advice" => advice::run,
        "protocol" => protocol::run,
        o => {
            eprintln!("unknown command {}", o);
            std::process::exit(2);
        }
    };
    // split over threads; each thread keeps the case order and numbering independent of the others
    let n = cases.len();
    let threads = threads.max(1).min(n.max(1));
    // deal the cases out in turns, so that a run of large ones does not land on one thread
    let parts: Vec<Vec<Value>> = (0..threads).map(|t| cases.iter().skip(t).step_by(threads).cloned().collect()).collect();
    drop(cases);
    let mut reports = vec![];
    // one case that runs this long hangs (a slow replay of many cases does not count as one)
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        for t in util::TICKS.iter() {
            let v = t.load(std::sync::atomic::Ordering::Relaxed);
            if v > 0 && util::now_ms().saturating_sub(v) > 240_000 {
                eprintln!("one case did not finish in 240 s");
                std::process::exit(3);
            }
        }
    });
    std::thread::scope(|s| {
        let mut hs = vec![];
        for (t, part) in parts.iter().enumerate() {
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        util::WORKER.with(|w| w.set(t));
                        util::tick(util::now_ms());
                        let r = util::guard(|| run(part, seed, kzg));
                        util::tick(0);
                        r
                    })
                    .unwrap(),
            );
        }
        for h in hs {
            reports.push(h.join().unwrap());
        }
    });
    let mut total = util::Report::default();
    for r in reports {
        match r {
            Ok(r) => {
                total.cases += r.cases;
                for v in r.violations {
                    if total.violations.len() < 20 {
                        total.violations.push(v);
                    }
                }
                for k in r.known {
                    if !total.known.iter().any(|x| x["id"] == k["id"]) {
                        total.known.push(k);
                    }
                }
                for (k, v) in r.stats {
                    *total.stats.entry(k).or_insert(0) += v;
                }
                total.records.extend(r.records);
                for v in r.samples {
                    total.sample(v);
                }
            }
            Err(e) => {
                eprintln!("harness error: {}", e);
                std::process::exit(2);
            }
        }
    }
    if let Some(p) = get("--rec") {
        let mut f = std::io::BufWriter::new(std::fs::File::create(p).unwrap());
        for r in &total.records {
            writeln!(f, "{}", r).unwrap();
        }
    }
    let out = total.to_json();
    match get("--out") {
        Some(p) => {
            let mut f = std::fs::File::create(p).unwrap();
            writeln!(f, "{}", out).unwrap();
        }
        None => println!("{}", out),
    }
}
