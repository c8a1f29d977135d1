mod alloc;
#[cfg(feature = "clear")]
mod clear;
#[macro_use]
mod ctx;
mod ffi;
mod lib_api;
mod model;
mod objects;
mod peer;
mod props;
mod reference;
mod rng;

use ctx::{Ctx, Tier};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn usage() -> ! {
    eprintln!("usage: vmon run ID | worker ... | replay FILE | list");
    std::process::exit(2)
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        Some("run") if args.len() >= 3 => supervise(&args[2], None),
        Some("worker") if args.len() >= 7 => worker(&args[2..]),
        Some("replay") if args.len() == 3 => replay(&args[2]),
        Some("list") => {
            for p in props::TABLE {
                println!("{}", p.id);
            }
            0
        }
        Some(other) => match props::extra(other, &args[2..]) {
            Some(c) => c,
            None => usage(),
        },
        None => usage(),
    };
    std::process::exit(code);
}

/// worker ID TIER SEED SHARD NSHARDS JOURNAL RESULT [PHASE CASE]
fn worker(a: &[String]) -> i32 {
    let tier = if a[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed = a[2].parse().unwrap();
    let shard = a[3].parse().unwrap();
    let nshards = a[4].parse().unwrap();
    let journal = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(&a[5])
        .expect("journal");
    let only = (a.len() >= 9).then(|| (a[7].clone(), a[8].parse().unwrap()));
    let Some(p) = props::find(&a[0]) else { return 2 };
    if std::env::var_os("VMON_NO_RLIMIT").is_none() {
        // unbounded memory ends this process only, with a report
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: libc::RLIM_INFINITY };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    }
    ctx::install_panic_hook();
    let budget = Duration::from_secs(match tier {
        Tier::Quick => 200,
        Tier::Thorough => 2400,
    });
    let start = Instant::now();
    let mut ctx = Ctx::new(p.id, tier, seed, shard, nshards, only, Some(journal), budget);
    (p.run)(&mut ctx);
    let r = ctx.result(start.elapsed().as_secs_f64());
    let tmp = format!("{}.tmp", a[6]);
    std::fs::write(&tmp, serde_json::to_vec(&r).unwrap()).expect("result");
    std::fs::rename(&tmp, &a[6]).expect("result");
    0
}

struct Run {
    child: Child,
    journal: PathBuf,
    result: PathBuf,
    log: PathBuf,
    shard: usize,
    last: (Vec<u8>, Instant),
}

fn read_journal(p: &Path) -> Option<(String, u64, u64, String)> {
    let s = String::from_utf8_lossy(&std::fs::read(p).ok()?).into_owned();
    let mut it = s.split('\n');
    Some((
        it.next()?.to_string(),
        it.next()?.parse().ok()?,
        it.next()?.parse().ok()?,
        it.next()?.to_string(),
    ))
}

fn spawn(dir: &Path, id: &str, tier: &str, seed: u64, shard: usize, n: usize, only: Option<(&str, u64)>, tag: &str) -> Run {
    let journal = dir.join(format!("{tag}{shard}.journal"));
    let result = dir.join(format!("{tag}{shard}.json"));
    let log = dir.join(format!("{tag}{shard}.log"));
    let _ = std::fs::remove_file(&result);
    let f = std::fs::File::create(&log).expect("log");
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.arg("worker")
        .args([id, tier, &seed.to_string(), &shard.to_string(), &n.to_string()])
        .arg(&journal)
        .arg(&result)
        .stdin(Stdio::null())
        .stdout(f.try_clone().expect("log"))
        .stderr(f);
    if let Some((p, i)) = only {
        c.arg(p).arg(i.to_string());
    }
    let child = c.spawn().expect("spawn");
    Run { child, journal, result, log, shard, last: (vec![], Instant::now()) }
}

enum End {
    Ok(Value),
    Signal(i32),
    Exit(i32),
    Hang,
}

/// Waits for the workers; a worker whose journal does not move for `stall` is killed
fn wait_all(runs: Vec<Run>, stall: Duration) -> Vec<(Run, End)> {
    let mut left = runs;
    let mut out = vec![];
    while !left.is_empty() {
        let mut still = vec![];
        for mut r in left {
            match r.child.try_wait() {
                Ok(Some(st)) => {
                    let end = match std::fs::read(&r.result).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                        Some(v) if st.success() => End::Ok(v),
                        _ => match st.signal() {
                            Some(s) => End::Signal(s),
                            None => End::Exit(st.code().unwrap_or(-1)),
                        },
                    };
                    out.push((r, end));
                }
                Ok(None) => {
                    let j = std::fs::read(&r.journal).unwrap_or_default();
                    if j != r.last.0 {
                        r.last = (j, Instant::now());
                    }
                    if r.last.1.elapsed() > stall {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        out.push((r, End::Hang));
                    } else {
                        still.push(r);
                    }
                }
                Err(_) => out.push((r, End::Exit(-1))),
            }
        }
        left = still;
        if !left.is_empty() {
            std::thread::sleep(Duration::from_millis(20));
        }
    }
    out
}

fn tail(p: &Path, n: usize) -> String {
    let s = String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    let l: Vec<&str> = s.lines().collect();
    l[l.len().saturating_sub(n)..].join("\n")
}

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn known(prop: &str, v: &Value) -> Option<String> {
    let sig = v["detail"]["signature"].as_str()?;
    let text = std::fs::read_to_string(root().join("KNOWN_FINDINGS")).ok()?;
    text.lines()
        .find(|l| l.starts_with(&format!("known: property={prop} signature={sig} ")))
        .map(str::to_string)
}

fn supervise(id: &str, only: Option<(String, u64, String, u64)>) -> i32 {
    let Some(p) = props::find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let start = Instant::now();
    let (tier, seed) = match &only {
        Some((_, _, t, s)) => (t.clone(), *s),
        None => (
            if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" }.to_string(),
            env_seed(),
        ),
    };
    let tier = tier.as_str();
    let dir = std::env::temp_dir().join(format!("vmon.{}.{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let n = if only.is_some() { 1 } else { p.workers };
    let stall = Duration::from_secs(150);
    let runs = (0..n)
        .map(|s| spawn(&dir, id, tier, seed, s, n, only.as_ref().map(|o| (o.0.as_str(), o.1)), "w"))
        .collect();
    let ends = wait_all(runs, stall);

    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut evals = 0;
    let mut distinct: HashSet<String> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut violations: Vec<Value> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut truncated: Vec<String> = vec![];
    let mut hung = vec![];
    for (r, end) in ends {
        match end {
            End::Ok(v) => {
                for (k, x) in v["counters"].as_object().into_iter().flatten() {
                    *counters.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
                }
                evals += v["evals"].as_u64().unwrap_or(0);
                distinct.extend(v["distinct"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)));
                if samples.len() < 6 {
                    samples.extend(v["samples"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).take(2));
                }
                violations.extend(v["violations"].as_array().into_iter().flatten().cloned());
                errors.extend(v["harness_errors"].as_array().into_iter().flatten().map(ToString::to_string));
                truncated.extend(v["truncated"].as_array().into_iter().flatten().map(ToString::to_string));
            }
            End::Exit(c) if c == props::ASAN_EXIT => {
                let at = read_journal(&r.journal);
                violations.push(json!({
                    "property": id, "seed": seed, "tier": tier,
                    "phase": at.as_ref().map(|a| a.0.clone()), "case": at.as_ref().map(|a| a.1),
                    "what": format!("sanitizer report during {:?}", at.map(|a| a.3.trim().to_string())),
                    "detail": {"log": tail(&r.log, 60)},
                }));
            }
            End::Exit(c) => errors.push(format!("worker {} exited with {c}: {}", r.shard, tail(&r.log, 20))),
            End::Signal(9) => errors.push(format!("worker {} was killed: {}", r.shard, tail(&r.log, 20))),
            End::Signal(s) => match read_journal(&r.journal) {
                Some((phase, idx, step, what)) => {
                    violations.push(json!({
                        "property": id, "seed": seed, "tier": tier, "phase": phase, "case": idx,
                        "what": format!("the process died with signal {s} during step {step}: {}", what.trim()),
                        "detail": {"log": tail(&r.log, 40)},
                    }));
                }
                None => errors.push(format!("worker {} died with signal {s} before any case", r.shard)),
            },
            End::Hang => match read_journal(&r.journal) {
                Some(at) => hung.push((r.shard, at)),
                None => errors.push(format!("worker {} stalled before any case", r.shard)),
            },
        }
    }
    // a stall is a verdict only if the case alone stalls again
    let alone: Vec<Run> = hung
        .iter()
        .filter(|_| only.is_none() && violations.is_empty())
        .map(|(shard, at)| spawn(&dir, id, tier, seed, 0, 1, Some((&at.0, at.1)), &format!("h{shard}_")))
        .collect();
    let stuck: Vec<PathBuf> = wait_all(alone, Duration::from_secs(60))
        .into_iter()
        .filter(|(_, e)| matches!(e, End::Hang))
        .map(|(r, _)| r.journal)
        .collect();
    for (shard, (phase, idx, step, what)) in hung {
        let tag = format!("h{shard}_");
        let name = |p: &PathBuf| p.file_name().is_some_and(|f| f.to_string_lossy().starts_with(&tag));
        if only.is_some() || stuck.iter().any(name) {
            violations.push(json!({
                "property": id, "seed": seed, "tier": tier, "phase": phase, "case": idx,
                "what": format!("no progress during step {step}: {}", what.trim()),
                "detail": {},
            }));
        } else {
            errors.push(format!("worker {shard} stalled once in {phase}#{idx}, inconclusive"));
        }
    }
    let wall = start.elapsed().as_secs_f64();
    let _ = std::fs::remove_dir_all(&dir);

    let mut known_lines = vec![];
    violations.retain(|v| match known(id, v) {
        Some(l) => {
            known_lines.push(l);
            false
        }
        None => true,
    });
    known_lines.sort();
    known_lines.dedup();

    if only.is_none() {
        if violations.is_empty() && std::env::var_os("VMON_NO_FLOOR").is_none() {
            for (k, min) in p.floors {
                // a library the transparent groups no longer fit is checked without them
                if !cfg!(feature = "clear") && k.starts_with("transparent") {
                    continue;
                }
                let absent = |var| std::env::var_os(var).is_none();
                if k.starts_with("Python: ") && absent("VMON_PYTHON") || k.starts_with("WebAssembly: ") && absent("VMON_WASM") {
                    continue;
                }
                let got = counters.get(*k).copied().unwrap_or(0);
                if got < *min {
                    errors.push(format!("only {got} of '{k}' observed, at least {min} expected"));
                }
            }
        }
        let mut cov = json!({
            "evaluations": evals,
            "distinct_nontrivial": distinct.len(),
            "rule": p.rule,
            "samples": samples,
            "observed": counters,
            "workers": n,
        });
        if !truncated.is_empty() {
            cov["truncated"] = json!(truncated);
        }
        let ev = json!({
            "property": id, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": cov, "assumptions": p.assumptions, "wall_s": wall,
            "violations": violations.len(),
        });
        let ed = root().join("evidence");
        let _ = std::fs::create_dir_all(&ed);
        let name = match std::env::var("VMON_PART") {
            Ok(part) => format!("{id}.{part}.json"),
            Err(_) => format!("{id}.json"),
        };
        if let Err(e) = std::fs::write(ed.join(name), serde_json::to_vec_pretty(&ev).unwrap()) {
            errors.push(format!("cannot write the evidence: {e}"));
        }
    }
    println!("{id} tier={tier} seed={seed}: {evals} evaluations, {} distinct, {wall:.1} s", distinct.len());
    for (k, v) in &counters {
        println!("  {k}: {v}");
    }
    for t in &truncated {
        println!("  truncated: {t}");
    }
    for l in &known_lines {
        println!("KNOWN-FINDING: {}", l.trim_start_matches("known: "));
    }
    if !violations.is_empty() {
        let rd = root().join("replay");
        let _ = std::fs::create_dir_all(&rd);
        for (i, v) in violations.iter().take(5).enumerate() {
            let f = match std::env::var("VMON_PART") {
                Ok(part) => rd.join(format!("{id}-{seed}-{part}-{i}.json")),
                Err(_) => rd.join(format!("{id}-{seed}-{i}.json")),
            };
            let _ = std::fs::write(&f, serde_json::to_vec_pretty(v).unwrap());
            println!("  {} [{} #{}]", v["what"].as_str().unwrap_or("?"), v["phase"].as_str().unwrap_or("?"), v["case"]);
            println!("VIOLATION property={id} replay={}", f.display());
        }
        for e in &errors {
            println!("  (also: {e})");
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            println!("ERROR: {e}");
        }
        return 2;
    }
    0
}

fn replay(file: &str) -> i32 {
    let v: Value = match std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {file}");
            return 2;
        }
    };
    let g = |k: &str| v[k].as_str().unwrap_or("").to_string();
    supervise(
        &g("property"),
        Some((g("phase"), v["case"].as_u64().unwrap_or(0), g("tier"), v["seed"].as_u64().unwrap_or(1))),
    )
}
