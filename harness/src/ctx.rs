//! Worker side: cases, journal, counters, violations.
use crate::rng::{hash_bytes, mix, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub shard: usize,
    pub nshards: usize,
    pub only: Option<(String, u64)>,
    pub counters: BTreeMap<String, u64>,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Value>,
    pub harness_errors: Vec<String>,
    pub truncated: Vec<String>,
    pub deadline: Instant,
    /// which violations belong to this property, when others are seen too
    pub keep: Option<fn(&str) -> bool>,
    journal: Option<std::fs::File>,
    phase: String,
    idx: u64,
    step: u64,
    case_violated: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(true) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if std::env::var_os("VMON_BT").is_some() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| ("?".into(), "?".into()))
}

/// A panic raised by the harness itself (as opposed to the code under test)
pub fn is_harness_loc(loc: &str) -> bool {
    loc.starts_with("src/") && !loc.contains("cosmian")
}

impl Ctx {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        prop: &str,
        tier: Tier,
        seed: u64,
        shard: usize,
        nshards: usize,
        only: Option<(String, u64)>,
        journal: Option<std::fs::File>,
        budget: Duration,
    ) -> Self {
        Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            shard,
            nshards,
            only,
            counters: BTreeMap::new(),
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            violations: vec![],
            harness_errors: vec![],
            truncated: vec![],
            deadline: Instant::now() + budget,
            keep: None,
            journal,
            phase: String::new(),
            idx: 0,
            step: 0,
            case_violated: false,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    pub fn count(&mut self, k: &str, n: u64) {
        // what is seen over the transparent groups is counted apart
        let own;
        let k = if self.phase.starts_with("transparent-") && !k.contains("transparent") {
            own = format!("transparent: {k}");
            &own
        } else if let (Some(i), false) = (self.phase.strip_prefix("interface-"), k.starts_with("cases.") || k.starts_with("ms.")) {
            own = format!("{}: {k}", i.split(' ').next().unwrap_or(i));
            &own
        } else {
            k
        };
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }

    /// One evaluation of the oracle, with the signature of the case when it is
    /// non-trivial.
    pub fn eval(&mut self, signature: Option<&str>) {
        self.evals += 1;
        if let Some(s) = signature {
            if self.distinct.len() < 400_000 {
                let apart = self.phase.starts_with("transparent-") as u64;
                self.distinct.insert(hash_bytes(s.as_bytes()) ^ apart);
            }
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 600 {
                let mut i = 600;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }

    /// Writes in the journal what is about to be done: this is what a crash or
    /// a hang of this process is attributed to.
    pub fn journal(&mut self, what: &str) {
        self.step += 1;
        if let Some(j) = &self.journal {
            let mut line = format!(
                "{}\n{}\n{}\n{}\n",
                self.phase,
                self.idx,
                self.step,
                what.replace('\n', " ")
            )
            .into_bytes();
            line.resize(line.len().max(4096), b' ');
            let _ = j.write_at(&line[..4096], 0);
        }
    }

    pub fn violation(&mut self, what: impl Into<String>, detail: Value) {
        let what = what.into();
        self.case_violated = true;
        if self.keep.is_some_and(|k| !k(&what)) {
            self.count("observations left to other properties", 1);
            return;
        }
        if self.violations.len() < 8 {
            self.violations.push(json!({
                "property": self.prop, "seed": self.seed, "phase": self.phase, "case": self.idx,
                "tier": if self.thorough() {"thorough"} else {"quick"},
                "what": what, "detail": detail,
            }));
        }
    }

    /// index of the current case
    pub fn case(&self) -> u64 {
        self.idx
    }

    pub fn violated(&self) -> bool {
        self.case_violated
    }

    /// Runs the code under test on inputs for which it must not panic.
    pub fn guard<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.journal(what);
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(_) => {
                let (loc, msg) = take_panic();
                if is_harness_loc(&loc) {
                    self.harness_errors.push(format!("{what}: {loc}: {msg}"));
                } else {
                    self.violation(format!("panic in {what} at {loc}: {msg}"), json!({}));
                }
                None
            }
        }
    }

    /// Runs `quick` or `thorough` cases, sharded, each with its own generator.
    pub fn phase(
        &mut self,
        name: &str,
        quick: u64,
        thorough: u64,
        mut f: impl FnMut(&mut Ctx, &mut Rng),
    ) {
        let n = self.n(quick, thorough);
        self.phase = name.to_string();
        let start = Instant::now();
        for idx in 0..n {
            if let Some((p, i)) = &self.only {
                if p != name || *i != idx {
                    continue;
                }
            } else if idx as usize % self.nshards != self.shard {
                continue;
            }
            if self.violations.len() >= 3 {
                return;
            }
            if Instant::now() > self.deadline {
                self.truncated.push(format!("{name} at {idx}/{n}"));
                return;
            }
            self.idx = idx;
            self.case_violated = false;
            self.journal("start");
            let mut rng = Rng::new(
                mix(self.seed)
                    ^ hash_bytes(self.prop.as_bytes())
                    ^ mix(hash_bytes(name.as_bytes()))
                    ^ mix(idx.wrapping_mul(0x1234_5678_9abc_def1)),
            );
            let r = catch_unwind(AssertUnwindSafe(|| f(self, &mut rng)));
            if r.is_err() {
                let (loc, msg) = take_panic();
                if is_harness_loc(&loc) {
                    self.harness_errors.push(format!("{name}#{idx}: {loc}: {msg}"));
                    if self.harness_errors.len() > 3 {
                        return;
                    }
                } else {
                    self.violation(format!("panic at {loc}: {msg}"), json!({}));
                }
            }
            self.count(&format!("cases.{name}"), 1);
        }
        self.count(&format!("ms.{name}"), start.elapsed().as_millis() as u64);
    }

    pub fn result(&self, wall: f64) -> Value {
        json!({
            "counters": self.counters, "evals": self.evals,
            "samples": self.samples, "violations": self.violations,
            "harness_errors": self.harness_errors, "truncated": self.truncated,
            "distinct": self.distinct.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>(),
            "wall": wall,
        })
    }
}

/// Takes the value of a result which must be a success, or records a violation
#[macro_export]
macro_rules! must {
    ($ctx:expr, $e:expr, $($what:tt)*) => {
        match $e {
            Ok(v) => v,
            Err(e) => {
                let w = format!($($what)*);
                $ctx.violation(format!("{} failed: {}", w, e), serde_json::json!({}));
                return;
            }
        }
    };
}
