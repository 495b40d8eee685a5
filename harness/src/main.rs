//! Runs generated programs on the real crate and writes what happened for the specification to judge.
mod exec;
mod gen;
mod logev;
mod prog;
mod small;
mod tla;
mod types;
mod w;

use dam_verif_rt::sched::{Dfs, Rng, Strategy};
use exec::Mode;
use prog::*;
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn args() -> HashMap<String, String> {
    let mut m = HashMap::new();
    let a: Vec<String> = std::env::args().skip(2).collect();
    let mut i = 0;
    while i < a.len() {
        if let Some(k) = a[i].strip_prefix("--") {
            m.insert(k.to_string(), a.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            m.insert(format!("pos{}", m.len()), a[i].clone());
            i += 1;
        }
    }
    m
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = args();
    match std::env::args().nth(1).as_deref() {
        Some("gen") => generate(&a),
        Some("replay") => replay(&a),
        Some("small") => small::run(&a),
        Some("draw") => small::draw(&a),
        _ => {
            eprintln!("usage: dvh gen|replay ...");
            std::process::exit(2)
        }
    }
}

fn strategy(r: &mut Rng, i: usize) -> Strategy {
    let spurious = r.below(4) == 0;
    if i == 0 {
        return Strategy::Random { seed: r.next(), stick: 0, spurious: false };
    }
    if r.below(2) == 0 {
        Strategy::Random { seed: r.next(), stick: *gen::pick(r, &[0, 128, 200, 240]), spurious }
    } else {
        Strategy::Priority {
            seed: r.next(),
            changes: r.below(6) as usize,
            horizon: *gen::pick(r, &[60, 300, 1500]),
            spurious,
        }
    }
}

/// The run without what depends on the schedule alone.
fn key(r: &Run) -> String {
    let mut v = tla::to_tla(r);
    let views = r.logs.iter().flatten().any(|x| x.op == "wait" || x.op == "tlb");
    if !views {
        for l in v["logs"].as_array_mut().unwrap() {
            for x in l.as_array_mut().unwrap() {
                let m = x.as_object_mut().unwrap();
                m.remove("s0");
                m.remove("s1");
            }
        }
    }
    v.to_string()
}

struct Out {
    tla: std::io::BufWriter<std::fs::File>,
    full: std::io::BufWriter<std::fs::File>,
}

struct Stats {
    programs: AtomicU64,
    runs: AtomicU64,
    distinct: AtomicU64,
    steps: AtomicU64,
    records: AtomicU64,
    slow: AtomicU64,
}

/// Runs on a thread of its own and gives up on runs that block outside the controlled runtime.
fn guarded(p: &Prog, infer: bool, mode: Mode, ms: u64) -> Option<Run> {
    if let Mode::Free { .. } = mode {
        return Some(exec::run(p, infer, mode).0);
    }
    let (tx, rx) = std::sync::mpsc::channel();
    let p2 = p.clone();
    std::thread::spawn(move || {
        let r = exec::run(&p2, infer, mode);
        let _ = tx.send(r.0);
    });
    rx.recv_timeout(Duration::from_millis(ms)).ok()
}

fn generate(a: &HashMap<String, String>) {
    let get = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
    let profile = get("profile", "core");
    let seed: u64 = get("seed", "1").parse().unwrap();
    let secs: f64 = get("secs", "10").parse().unwrap();
    let programs: u64 = get("programs", "1000000").parse().unwrap();
    let schedules: usize = get("schedules", "12").parse().unwrap();
    let dfs: u64 = get("dfs", "0").parse().unwrap();
    let infer = get("infer", "both");
    let free = get("mode", "ctl") == "free";
    let max_steps: u64 = get("steps", "150000").parse().unwrap();
    let max_distinct: u64 = get("max", "1000000").parse().unwrap();
    let free_ms: u64 = get("free-ms", "15000").parse().unwrap();
    let threads: usize = get("threads", "8").parse().unwrap();
    let out = get("out", "/tmp/dvh");
    // programs from a file instead of drawn ones
    let given: Arc<Vec<prog::Prog>> = Arc::new(match a.get("progs") {
        Some(f) => std::fs::read_to_string(f).unwrap().lines().map(|l| load(l)).collect(),
        None => vec![],
    });
    let programs = if a.contains_key("progs") { given.len() as u64 } else { programs };
    let o = Arc::new(Mutex::new(Out {
        tla: std::io::BufWriter::new(std::fs::File::create(format!("{out}.ndjson")).unwrap()),
        full: std::io::BufWriter::new(std::fs::File::create(format!("{out}.full.ndjson")).unwrap()),
    }));
    let st = Arc::new(Stats {
        programs: 0.into(),
        runs: 0.into(),
        distinct: 0.into(),
        steps: 0.into(),
        records: 0.into(),
        slow: 0.into(),
    });
    let next = Arc::new(AtomicU64::new(0));
    // runs that never come to rest: each is slow, and a few are as telling as many
    let endless = Arc::new(AtomicU64::new(0));
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (o, st, next, given) = (o.clone(), st.clone(), next.clone(), given.clone());
            let endless = endless.clone();
            let (profile, infer) = (profile.clone(), infer.clone());
            std::thread::spawn(move || loop {
                let ix = next.fetch_add(1, Ordering::SeqCst);
                if ix >= programs
                    || Instant::now() > end
                    || endless.load(Ordering::SeqCst) >= 8
                    || st.distinct.load(Ordering::SeqCst) >= max_distinct {
                    return;
                }
                let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(ix).wrapping_mul(7919));
                let p = match given.get(ix as usize) {
                    Some(p) => p.clone(),
                    None => gen::program(&mut r, &profile),
                };
                // a DRAM that waits for something far ahead asks about every cycle on the way
                let polls = p.ctxs.iter().any(|c| matches!(c.kind, prog::Kind::Dram { .. } | prog::Kind::Pmu { .. }));
                let max_steps = if polls { 4 * max_steps } else { max_steps };
                st.programs.fetch_add(1, Ordering::SeqCst);
                let mut seen: HashMap<String, (Run, u64)> = HashMap::new();
                let infers: &[bool] = match infer.as_str() {
                    "0" => &[false],
                    "1" => &[true],
                    _ => &[false, true],
                };
                for inf in infers {
                    let mut add = |run: Run| {
                        st.runs.fetch_add(1, Ordering::SeqCst);
                        st.steps.fetch_add(run.steps, Ordering::SeqCst);
                        let k = key(&run);
                        seen.entry(k).and_modify(|x| x.1 += 1).or_insert((run, 1));
                    };
                    if dfs > 0 {
                        let mut d = Dfs::new(dfs as usize);
                        let mut n = 0;
                        while let Some(choices) = d.next() {
                            let (run, ch) = exec::run(
                                &p,
                                *inf,
                                Mode::Ctl { strat: Strategy::Replay { choices }, max_steps, record: true },
                            );
                            d.done(ch);
                            let unending = run.outcome == "steps";
                            add(run);
                            n += 1;
                            if unending {
                                endless.fetch_add(1, Ordering::SeqCst);
                                break;
                            }
                            if n >= schedules || Instant::now() > end {
                                break;
                            }
                        }
                        continue;
                    }
                    for i in 0..schedules {
                        if i >= 2 && Instant::now() > end {
                            break;
                        }
                        let mode = if free {
                            Mode::Free { ms: free_ms }
                        } else {
                            Mode::Ctl { strat: strategy(&mut r, i), max_steps, record: false }
                        };
                        match guarded(&p, *inf, mode, 20_000) {
                            Some(run) => {
                                let unending = run.outcome == "steps";
                                if unending {
                                    endless.fetch_add(1, Ordering::SeqCst);
                                }
                                let stuck = unending || free && run.outcome != "done";
                                add(run);
                                if stuck {
                                    break;
                                }
                            }
                            None => {
                                // the run blocks where the runtime cannot see it: try real threads
                                st.slow.fetch_add(1, Ordering::SeqCst);
                                endless.fetch_add(1, Ordering::SeqCst);
                                let (run, _) = exec::run(&p, *inf, Mode::Free { ms: free_ms });
                                add(run);
                                break;
                            }
                        }
                    }
                }
                let mut v: Vec<_> = seen.into_values().collect();
                v.sort_by(|a, b| b.1.cmp(&a.1).then(a.0.how.cmp(&b.0.how)));
                let mut g = o.lock().unwrap();
                for (mut run, n) in v {
                    run.times = n;
                    run.gid = ix;
                    st.distinct.fetch_add(1, Ordering::SeqCst);
                    st.records.fetch_add(run.logs.iter().map(|l| l.len() as u64).sum(), Ordering::SeqCst);
                    writeln!(g.tla, "{}", tla::to_tla(&run)).unwrap();
                    writeln!(g.full, "{}", serde_json::to_string(&run).unwrap()).unwrap();
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let mut g = o.lock().unwrap();
    g.tla.flush().unwrap();
    g.full.flush().unwrap();
    let l = |x: &AtomicU64| x.load(Ordering::SeqCst);
    println!(
        "{}",
        serde_json::json!({"programs": l(&st.programs), "runs": l(&st.runs), "distinct": l(&st.distinct),
            "steps": l(&st.steps), "records": l(&st.records), "slow": l(&st.slow)})
    );
    // threads of runs that were given up may still hang around
    std::io::stdout().flush().unwrap();
    std::process::exit(0)
}

/// A program as a specification writes it.
fn load(l: &str) -> prog::Prog {
    let l = l.replace("{\"Cleanup\":[]}", "\"Cleanup\"");
    let mut p: prog::Prog = serde_json::from_str(&l).unwrap();
    for f in &mut p.filters {
        if f.as_ref().is_some_and(|f| f.iter().any(|n| n == "none")) {
            *f = None;
        }
    }
    p
}

/// Runs again a recorded run (a line of a .full.ndjson file), writing what happens now.
fn replay(a: &HashMap<String, String>) {
    let text = std::fs::read_to_string(&a["in"]).unwrap();
    let out = a.get("out").cloned().unwrap_or("/tmp/dvh-replay".into());
    let mut f = std::fs::File::create(format!("{out}.ndjson")).unwrap();
    let mut seen = HashSet::new();
    for line in text.lines().filter(|l| !l.trim().is_empty()) {
        let r: Run = serde_json::from_str(line).unwrap();
        let modes: Vec<Mode> = match parse_strategy(&r.how) {
            Some(strat) => vec![Mode::Ctl { strat, max_steps: 400_000, record: false }],
            None => (0..20).map(|_| Mode::Free { ms: 15000 }).collect(),
        };
        for m in modes {
            let (run, _) = exec::run(&r.prog, r.infer, m);
            if seen.insert(key(&run)) {
                writeln!(f, "{}", tla::to_tla(&run)).unwrap();
            }
        }
    }
    std::io::stdout().flush().unwrap();
    std::process::exit(0)
}

fn parse_strategy(s: &str) -> Option<Strategy> {
    let num = |k: &str| -> Option<u64> {
        let i = s.find(&format!("{k}: "))? + k.len() + 2;
        s[i..].split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
    };
    let spurious = s.contains("spurious: true");
    if s.contains("Random {") {
        Some(Strategy::Random { seed: num("seed")?, stick: num("stick")? as u32, spurious })
    } else if s.contains("Priority {") {
        Some(Strategy::Priority {
            seed: num("seed")?,
            changes: num("changes")? as usize,
            horizon: num("horizon")?,
            spurious,
        })
    } else if s.contains("Replay {") {
        let i = s.find('[')?;
        let j = s.find(']')?;
        let choices = s[i + 1..j].split(',').filter_map(|x| x.trim().parse().ok()).collect();
        Some(Strategy::Replay { choices })
    } else {
        None
    }
}
