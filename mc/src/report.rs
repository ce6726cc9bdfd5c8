//! Case bookkeeping, panic capture, watchdog, evidence and verdicts.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub level: &'static str,
    only: Option<String>,
    start: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    nontrivial: AtomicU64,
    outcomes: Mutex<BTreeMap<String, u64>>,
    counts: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<(String, String)>>,
    bounds: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    rule: Mutex<String>,
    stop: AtomicBool,
    slots: Mutex<Vec<Option<(Instant, String, u64)>>>,
    nslots: AtomicUsize,
    harness_error: Mutex<Option<String>>,
    /// the cases being executed, for the driver, should the process die
    journal: Option<std::fs::File>,
}

/// Nodes of the execution trees explored so far (hashes of observable histories) and edges executed.
static VISITED: Mutex<Vec<HashSet<u64>>> = Mutex::new(Vec::new());
static EDGES: AtomicU64 = AtomicU64::new(0);

pub fn visit(v: &[u64]) {
    EDGES.fetch_add(v.len() as u64, Relaxed);
    let mut g = VISITED.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_empty() {
        g.push(HashSet::new());
    }
    // beyond this the count is a lower bound
    if g[0].len() < 40_000_000 {
        g[0].extend(v);
    }
}

thread_local! {
    static SLOT: RefCell<Option<usize>> = RefCell::new(None);
    static WATCHED: Cell<bool> = Cell::new(false);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

const MAX_VIOLATIONS: usize = 12;
const CASE_LIMIT_S: u64 = 120;
const JOURNAL_SLOT: u64 = 4096;

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}

/// Run code under test; a panic becomes Err(description).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn new(property: &str, level: &'static str) -> Ctx {
        quiet_panics();
        let args: Vec<String> = std::env::args().collect();
        let mut only = None;
        let mut i = 0;
        while i < args.len() {
            if args[i] == "--case" && i + 1 < args.len() {
                only = Some(args[i + 1].clone());
            }
            i += 1;
        }
        if let Err(e) = crate::refcrypto::selftest() {
            eprintln!("HARNESS ERROR: {}", e);
            std::process::exit(2);
        }
        Ctx {
            property: property.to_string(),
            tier: match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => "thorough".into(),
                _ => "quick".into(),
            },
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            level,
            only,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            outcomes: Mutex::new(BTreeMap::new()),
            counts: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(Vec::new()),
            violations: Mutex::new(Vec::new()),
            bounds: Mutex::new(Vec::new()),
            assumptions: Mutex::new(Vec::new()),
            rule: Mutex::new(String::new()),
            stop: AtomicBool::new(false),
            slots: Mutex::new(vec![None; 64]),
            nslots: AtomicUsize::new(0),
            harness_error: Mutex::new(None),
            journal: std::env::var("MC_JOURNAL").ok().and_then(|f| std::fs::File::create(f).ok()),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn rule(&self, s: impl Into<String>) {
        *self.rule.lock().unwrap() = s.into();
    }
    pub fn add_states(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn add_transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn add_traces(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    pub fn add_nontrivial(&self, n: u64) {
        self.nontrivial.fetch_add(n, Relaxed);
    }
    pub fn count(&self, name: &str, n: u64) {
        let mut o = self.counts.lock().unwrap();
        *o.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn outcome(&self, s: &str) {
        let mut o = self.outcomes.lock().unwrap();
        if let Some(c) = o.get_mut(s) {
            *c += 1;
        } else {
            o.insert(s.to_string(), 1);
        }
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s.into());
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }
    /// While replaying: is this case (or anything below it) wanted?
    pub fn wants_prefix(&self, prefix: &str) -> bool {
        match &self.only {
            None => true,
            Some(o) => o.starts_with(prefix),
        }
    }

    pub fn violate(&self, key: &str, msg: String) {
        let mut v = self.violations.lock().unwrap();
        v.push((key.to_string(), msg));
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Relaxed);
        }
    }

    fn slot(&self) -> usize {
        SLOT.with(|s| {
            let mut s = s.borrow_mut();
            if s.is_none() {
                let i = self.nslots.fetch_add(1, Relaxed);
                let mut sl = self.slots.lock().unwrap();
                while sl.len() <= i {
                    sl.push(None);
                }
                *s = Some(i);
            }
            s.unwrap()
        })
    }

    fn note(&self, slot: usize, key: &str) {
        if let Some(j) = &self.journal {
            let mut b = key.as_bytes().to_vec();
            b.truncate(JOURNAL_SLOT as usize - 2);
            b.extend(b"\n\0");
            let _ = j.write_all_at(&b, slot as u64 * JOURNAL_SLOT);
        }
    }

    /// One execution of the code under test. Ok(outcome class) or Err(what is wrong).
    pub fn case(&self, key: &str, f: impl Fn() -> Result<String, String>) -> bool {
        self.case_within(key, CASE_LIMIT_S, f)
    }

    fn watch(&self, done: &AtomicBool) {
        while !done.load(Relaxed) {
            std::thread::park_timeout(Duration::from_millis(50));
            let hung = self.slots.lock().unwrap().iter().flatten().find(|x| x.0.elapsed() > Duration::from_secs(x.2)).cloned();
            if let Some((_, k, n)) = hung {
                self.violate(&k, format!("one execution did not finish within {} s", n));
                std::process::exit(self.conclude());
            }
        }
    }

    /// `case` with a time limit of its own.
    pub fn case_within(&self, key: &str, limit_s: u64, f: impl Fn() -> Result<String, String>) -> bool {
        if !WATCHED.with(|w| w.get()) {
            let done = AtomicBool::new(false);
            return std::thread::scope(|s| {
                let w = s.spawn(|| self.watch(&done));
                WATCHED.with(|x| x.set(true));
                let r = self.case_within(key, limit_s, f);
                WATCHED.with(|x| x.set(false));
                done.store(true, Relaxed);
                w.thread().unpark();
                r
            });
        }
        if self.stopped() {
            return false;
        }
        if let Some(o) = &self.only {
            if o != key {
                return true;
            }
        }
        let slot = self.slot();
        self.slots.lock().unwrap()[slot] = Some((Instant::now(), key.to_string(), limit_s));
        self.note(slot, key);
        let r = guard(&f);
        self.slots.lock().unwrap()[slot] = None;
        self.traces.fetch_add(1, Relaxed);
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                if p.contains("HARNESS") {
                    *self.harness_error.lock().unwrap() = Some(format!("{} in case {}", p, key));
                    self.stop.store(true, Relaxed);
                    return false;
                }
                Err(p)
            }
        };
        match r {
            Ok(o) => {
                self.outcome(&o);
                if self.replaying() {
                    println!("case {}\n  outcome: {}", key, o);
                }
                let n = self.traces.load(Relaxed);
                if n < 3 || n.is_power_of_two() {
                    self.sample(format!("{} -> {}", key, o));
                }
                true
            }
            Err(e) => {
                // the same case must fail the same way when it is run again
                let again = match guard(&f) {
                    Ok(Ok(o)) => format!("NOT reproduced on an immediate second run ({})", o),
                    Ok(Err(e2)) if e2 == e => "reproduced identically on a second run".into(),
                    Ok(Err(e2)) => format!("second run: {}", e2),
                    Err(p) if p == e => "reproduced identically on a second run".into(),
                    Err(p) => format!("second run: {}", p),
                };
                self.violate(key, format!("{} [{}]", e, again));
                false
            }
        }
    }

    /// Run f(0..n) on all cores.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(n.max(1));
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..workers)
                .map(|_| {
                    s.spawn(|| {
                        WATCHED.with(|w| w.set(true));
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= n || self.stopped() {
                                break;
                            }
                            if let Err(p) = guard(|| f(i)) {
                                *self.harness_error.lock().unwrap() = Some(format!("worker: {}", p));
                                self.stop.store(true, Relaxed);
                            }
                        }
                    })
                })
                .collect();
            let w = s.spawn(|| self.watch(&done));
            for h in hs {
                let _ = h.join();
            }
            done.store(true, Relaxed);
            w.thread().unpark();
        });
    }

    fn known(&self) -> Vec<(String, String)> {
        let f = std::env::var("MC_KNOWN").unwrap_or_else(|_| "/verif/known_findings.txt".into());
        let mut v = Vec::new();
        if let Ok(s) = std::fs::read_to_string(f) {
            let pre = format!("finding: property={} case=<", self.property);
            for l in s.lines() {
                if let Some(r) = l.strip_prefix(&pre) {
                    if let Some(i) = r.find('>') {
                        v.push((r[..i].to_string(), r[i + 1..].trim().to_string()));
                    }
                }
            }
        }
        v
    }

    fn conclude(&self) -> i32 {
        if let Ok(mut g) = VISITED.lock() {
            if let Some(s) = g.pop() {
                self.states.fetch_add(s.len() as u64, Relaxed);
            }
        }
        self.transitions.fetch_add(EDGES.swap(0, Relaxed), Relaxed);
        let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
        if let Some(e) = &*self.harness_error.lock().unwrap() {
            eprintln!("HARNESS ERROR: {}", e);
            return 2;
        }
        let known = self.known();
        let mut vs = self.violations.lock().unwrap().clone();
        vs.sort_by_key(|v| (v.0.len(), v.0.clone()));
        let mut fresh = Vec::new();
        let mut seen_known: BTreeMap<String, String> = BTreeMap::new();
        for (k, m) in vs {
            match known.iter().find(|x| x.0 == k) {
                Some((k, what)) => {
                    seen_known.insert(k.clone(), what.clone());
                }
                None => fresh.push((k, m)),
            }
        }
        for (k, w) in &seen_known {
            println!("KNOWN-FINDING: property={} case=<{}> {}", self.property, k, w);
        }
        let n_out = self.outcomes.lock().unwrap().len();
        if self.only.is_none() {
            let mut j = String::new();
            j.push_str("{\n");
            j.push_str(&format!(
                " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n",
                esc(&self.property),
                esc(&self.tier),
                self.seed,
                esc(self.level)
            ));
            j.push_str(" \"coverage\": {\n");
            if self.level == "model_checking" {
                j.push_str(&format!(
                    "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n",
                    self.states.load(Relaxed),
                    self.transitions.load(Relaxed),
                    self.traces.load(Relaxed)
                ));
            } else {
                j.push_str(&format!(
                    "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n",
                    self.traces.load(Relaxed),
                    self.nontrivial.load(Relaxed)
                ));
            }
            j.push_str(&format!("  \"rule\": {},\n", esc(&self.rule.lock().unwrap())));
            j.push_str(&format!(
                "  \"bounds\": [{}],\n",
                self.bounds.lock().unwrap().iter().map(|b| esc(b)).collect::<Vec<_>>().join(", ")
            ));
            j.push_str(&format!(
                "  \"outcomes\": {{{}}},\n",
                self.outcomes
                    .lock()
                    .unwrap()
                    .iter()
                    .map(|(k, v)| format!("{}: {}", esc(k), v))
                    .collect::<Vec<_>>()
                    .join(", ")
            ));
            j.push_str(&format!(
                "  \"counts\": {{{}}},\n",
                self.counts.lock().unwrap().iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")
            ));
            j.push_str(&format!(
                "  \"samples\": [{}],\n",
                self.samples.lock().unwrap().iter().map(|b| esc(b)).collect::<Vec<_>>().join(", ")
            ));
            j.push_str(&format!("  \"exhaustive\": {}\n }},\n", !self.stopped()));
            j.push_str(&format!(
                " \"assumptions\": [{}],\n",
                self.assumptions.lock().unwrap().iter().map(|b| esc(b)).collect::<Vec<_>>().join(", ")
            ));
            j.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", self.start.elapsed().as_secs_f64(), fresh.len()));
            let _ = std::fs::create_dir_all(format!("{}/evidence", root));
            let f = std::env::var("MC_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence/{}.json", root, self.property));
            if let Err(e) = std::fs::write(&f, j) {
                eprintln!("HARNESS ERROR: cannot write {}: {}", f, e);
                return 2;
            }
        }
        println!(
            "{} {}: executions={} states={} transitions={} distinct_outcomes={} violations={} wall={:.1}s",
            self.property,
            self.tier,
            self.traces.load(Relaxed),
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            n_out,
            fresh.len(),
            self.start.elapsed().as_secs_f64()
        );
        if std::env::var("MC_VERBOSE").is_ok() {
            for (k, v) in self.outcomes.lock().unwrap().iter() {
                println!("  outcome {:>8}  {}", v, k);
            }
        }
        if fresh.is_empty() {
            return 0;
        }
        let dir = format!("{}/replay", root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}.txt", dir, self.property);
        let mut body = String::new();
        for (k, m) in &fresh {
            body.push_str(&format!("case: {}\nwhat: {}\n\n", k, m));
        }
        if self.only.is_none() {
            let _ = std::fs::write(&path, format!("property: {}\ntier: {}\n{}", self.property, self.tier, body));
        }
        for (k, m) in fresh.iter().take(5) {
            println!("  violating case: {}\n    {}", k, m);
        }
        println!("VIOLATION property={} replay={}", self.property, path);
        1
    }

    pub fn finish(self) -> ! {
        let c = self.conclude();
        std::process::exit(c)
    }
}

/// Run the stand-in cipher of `c07x` on the record layer's own writer or reader.  The driver names the
/// program in MC_AUX when it could be built; it uses internal interfaces, so it is not required.
pub fn aux(what: &str, bits: u32, limit: u64) -> Result<Option<u64>, String> {
    let Ok(p) = std::env::var("MC_AUX") else { return Ok(None) };
    let o = std::process::Command::new(p)
        .args([what, &((1u64 << bits) + 300).to_string(), &limit.to_string()])
        .output()
        .map_err(|e| e.to_string())?;
    let out = String::from_utf8_lossy(&o.stdout);
    match (o.status.success(), out.trim().parse::<u64>()) {
        (true, Ok(n)) => Ok(Some(n)),
        _ => Err(format!(
            "{} {}",
            out.trim(),
            String::from_utf8_lossy(&o.stderr).lines().take(3).collect::<Vec<_>>().join(" ")
        )),
    }
}
