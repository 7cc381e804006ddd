//! Monitor framework: cases, guards, verdicts, evidence.
//!
//! Verdicts are three-valued: violated (exit 1), held on what was observed (exit 0),
//! inconclusive (exit 3; nothing observed, a required event never seen, harness error, timeout).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::rng::{hash_str, mix, Rng};

// ---------------------------------------------------------------- allocation monitor

pub struct CountingAlloc;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static MAXREQ: Cell<u64> = const { Cell::new(0) };
}

/// A single request above this size is refused: `Vec::with_capacity(attacker_controlled)` aborts
/// the (child) process instead of taking the sandbox down, and the parent reports it.
const REFUSE: usize = 3 << 30;

fn on_alloc(n: usize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n as i64;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
    let _ = MAXREQ.try_with(|t| {
        if n as u64 > t.get() {
            t.set(n as u64)
        }
    });
}
fn on_free(n: usize) { let _ = CUR.try_with(|c| c.set(c.get() - n as i64)); }

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        on_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        on_free(l.size());
        on_alloc(n);
        System.realloc(p, l, n)
    }
}

#[derive(Debug, Clone, Copy)]
pub struct AllocStats {
    /// Peak live bytes above the level at entry.
    pub peak: u64,
    /// Largest single request.
    pub max_request: u64,
}

/// Measures what `f` allocates on this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, AllocStats) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    MAXREQ.with(|m| m.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get()) - base;
    (r, AllocStats { peak: peak.max(0) as u64, max_request: MAXREQ.with(|m| m.get()) })
}

// ---------------------------------------------------------------- panic capture

#[derive(Debug, Clone)]
pub struct PanicInfo {
    pub msg: String,
    pub file: String,
    pub line: u32,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_hook() {
    panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let (file, line) =
            i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or(("?".into(), 0));
        if !QUIET.with(|q| q.get()) {
            eprintln!("harness panic at {}:{}: {}", file, line, msg);
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(PanicInfo { msg, file, line }));
    }));
}

/// Runs `f`, turning a panic into `Err`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    let was = QUIET.with(|q| q.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| {
        LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(PanicInfo {
            msg: "?".into(),
            file: "?".into(),
            line: 0,
        })
    })
}

/// A panic's stable identity: no line numbers, no data.
/// Identifies a panic by operation and site. One panic belongs to a dependency and is the
/// same defect whichever operation reaches it: the non-malleable satisfaction of a threshold
/// in which all of the branches are needed (rust-miniscript 12.2.0).
pub fn op_panic_sig(op: &str, p: &PanicInfo) -> String {
    if p.file.contains("miniscript-12") && p.file.ends_with("miniscript/satisfy.rs") && p.msg.starts_with("index out of bounds") {
        return "panic:miniscript-thresh-all".into();
    }
    format!("{}:{}", op, panic_sig(p))
}

pub fn panic_sig(p: &PanicInfo) -> String {
    let file = match p.file.rfind("/repo/src/") {
        Some(i) => p.file[i + 10..].to_string(),
        None => {
            let parts: Vec<&str> = p.file.split('/').collect();
            parts[parts.len().saturating_sub(3)..].join("/")
        }
    };
    let msg: String = p
        .msg
        .chars()
        .take(48)
        .map(|c| if c.is_ascii_alphabetic() { c } else { '_' })
        .collect();
    let mut m = String::new();
    for c in msg.chars() {
        if c == '_' && m.ends_with('_') {
            continue;
        }
        m.push(c);
    }
    format!("panic({}:{})", file, m.trim_matches('_'))
}

// ---------------------------------------------------------------- run state

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub detail: String,
    pub phase: String,
    pub case: u64,
    pub count: u64,
}

#[derive(Default)]
struct Shared {
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: BTreeMap<String, Vec<String>>,
    violations: BTreeMap<String, Violation>,
    harness_errors: Vec<String>,
    required: Vec<(String, u64)>,
    rule: Vec<String>,
    assumptions: Vec<String>,
    capped: BTreeSet<String>,
}

pub struct Ctx {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub threads: usize,
    pub only_case: Option<(String, u64)>,
    pub deadline: Instant,
    pub state_path: Option<std::path::PathBuf>,
    sh: Mutex<Shared>,
    start: Instant,
    pub scale: u64,
}

pub struct Case<'a> {
    pub rng: Rng,
    pub phase: &'a str,
    pub index: u64,
    pub ctx: &'a Ctx,
    counters: BTreeMap<String, u64>,
    distinct: Vec<u64>,
    samples: Vec<(String, String)>,
    fails: Vec<(String, String)>,
}

impl<'a> Case<'a> {
    pub fn count(&mut self, name: &str) { self.add(name, 1) }
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    /// Registers a distinct, non-trivial observation.
    pub fn distinct(&mut self, h: u64) { self.distinct.push(h) }
    pub fn sample(&mut self, kind: &str, f: impl FnOnce() -> String) {
        if self.index < 8 || self.index % 997 == 0 {
            let s = f();
            self.samples.push((kind.to_string(), s.chars().take(600).collect()))
        }
    }
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let s: String =
            sig.into().chars().map(|c| if c.is_whitespace() { '_' } else { c }).collect();
        self.fails.push((s, detail.into()))
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.fail(sig, d);
        }
        ok
    }
    /// Runs an operation of the code under test; a panic is a violation.
    pub fn guard<T>(&mut self, op: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(t) => Some(t),
            Err(p) => {
                self.fail(
                    op_panic_sig(op, &p),
                    format!("{} panicked at {}:{}: {}", op, p.file, p.line, p.msg),
                );
                None
            }
        }
    }
    /// As `guard`, with the operation's inputs in the report.
    pub fn guard_with<T>(
        &mut self,
        op: &str,
        input: impl FnOnce() -> String,
        f: impl FnOnce() -> T,
    ) -> Option<T> {
        match catch(f) {
            Ok(t) => Some(t),
            Err(p) => {
                self.fail(
                    op_panic_sig(op, &p),
                    format!("{} panicked at {}:{}: {}\ninput: {}", op, p.file, p.line, p.msg, input()),
                );
                None
            }
        }
    }
}

impl Ctx {
    pub fn new(id: &str, tier: &str, seed: u64, budget_s: u64) -> Self {
        let scale = if tier == "thorough" { 1 } else { 0 };
        Ctx {
            id: id.into(),
            tier: tier.into(),
            seed,
            threads: match std::env::var("MON_THREADS").ok().and_then(|s| s.parse().ok()) {
                Some(n) => n,
                None => std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
            },
            only_case: None,
            deadline: Instant::now() + Duration::from_secs(budget_s),
            state_path: None,
            sh: Mutex::new(Shared::default()),
            start: Instant::now(),
            scale,
        }
    }
    pub fn quick(&self) -> bool { self.tier != "thorough" }
    pub fn rule(&self, s: &str) { self.sh.lock().unwrap().rule.push(s.into()) }
    pub fn assume(&self, s: &str) { self.sh.lock().unwrap().assumptions.push(s.into()) }
    /// The run is inconclusive unless `counter` reaches `min`.
    pub fn require(&self, counter: &str, min: u64) {
        self.sh.lock().unwrap().required.push((counter.into(), min))
    }

    /// Runs `n` independent cases over all threads. Each case's PRNG depends only on (seed, phase,
    /// index), so one case can be replayed alone.
    pub fn cases(
        &self,
        phase: &str,
        n_quick: u64,
        n_thorough: u64,
        f: impl Fn(&mut Case) + Sync,
    ) {
        let n = if self.quick() { n_quick } else { n_thorough };
        // For trying the monitors out: a part of the cases only.
        let n = match std::env::var("MON_PERCENT").ok().and_then(|s| s.parse::<u64>().ok()) {
            Some(p) => (n * p).div_ceil(100),
            None => n,
        };
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let mut first = 0;
        let mut last = n;
        if let Some((p, i)) = &self.only_case {
            if p != phase {
                return;
            }
            first = *i;
            last = *i + 1;
        }
        next.store(first, Ordering::SeqCst);
        let nthreads = if last - first < 2 { 1 } else { self.threads };
        std::thread::scope(|s| {
            for t in 0..nthreads {
                let (next, stop, f) = (&next, &stop, &f);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut slot = self.slot(t);
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= last {
                                break;
                            }
                            if i % 16 == 0 && Instant::now() > self.deadline {
                                stop.store(true, Ordering::SeqCst);
                            }
                            if stop.load(Ordering::SeqCst) {
                                break;
                            }
                            slot.begin(phase, i);
                            let mut c = Case {
                                rng: Rng::new(mix(mix(self.seed, hash_str(phase)), mix(hash_str(&self.id), i))),
                                phase,
                                index: i,
                                ctx: self,
                                counters: BTreeMap::new(),
                                distinct: vec![],
                                samples: vec![],
                                fails: vec![],
                            };
                            let r = panic::catch_unwind(AssertUnwindSafe(|| f(&mut c)));
                            if r.is_err() {
                                let p = LAST_PANIC.with(|p| p.borrow_mut().take());
                                match p {
                                    Some(p) if p.file.contains("/repo/src/") => {
                                        c.fail(
                                            format!("unguarded:{}", panic_sig(&p)),
                                            format!("panic in the code under test at {}:{}: {}", p.file, p.line, p.msg),
                                        );
                                    }
                                    p => {
                                        let mut sh = self.sh.lock().unwrap();
                                        if sh.harness_errors.len() < 20 {
                                            sh.harness_errors.push(format!("{}/{}: {:?}", phase, i, p));
                                        }
                                    }
                                }
                            }
                            self.merge(c);
                        }
                        slot.end();
                    })
                    .expect("spawn");
            }
        });
        if stop.load(Ordering::SeqCst) {
            self.sh.lock().unwrap().capped.insert(phase.to_string());
        }
    }

    fn merge(&self, c: Case) {
        let Case { phase, index, counters, distinct, samples, fails, .. } = c;
        let mut sh = self.sh.lock().unwrap();
        sh.evaluations += 1;
        *sh.counters.entry(format!("cases.{}", phase)).or_default() += 1;
        for (k, v) in counters {
            *sh.counters.entry(k).or_default() += v;
        }
        if sh.distinct.len() < 4_000_000 {
            sh.distinct.extend(distinct);
        }
        for (k, s) in samples {
            let v = sh.samples.entry(k).or_default();
            if v.len() < 3 {
                v.push(s);
            }
        }
        for (sig, detail) in fails {
            let v = sh.violations.entry(sig.clone()).or_insert(Violation {
                sig,
                detail,
                phase: phase.to_string(),
                case: index,
                count: 0,
            });
            v.count += 1;
        }
    }

    fn slot(&self, t: usize) -> Slot {
        use std::os::unix::fs::FileExt;
        let file = self.state_path.as_ref().and_then(|p| {
            std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(p).ok()
        });
        let _ = file.as_ref().map(|f| f.write_at(&[b' '; 128], t as u64 * 128));
        Slot { file, t }
    }

    pub fn finish(&self, known_path: &str, evidence: Option<&str>, replay_dir: &str) -> i32 {
        let sh = self.sh.lock().unwrap();
        let known = load_known(known_path, &self.id);
        let mut new = vec![];
        let mut seen_known = BTreeMap::new();
        for v in sh.violations.values() {
            match known.iter().find(|k| k.0 == v.sig) {
                Some(k) => {
                    seen_known.insert(k.0.clone(), v.count);
                }
                None => new.push(v.clone()),
            }
        }
        for (sig, text) in &known {
            println!(
                "KNOWN-FINDING: property={} {} [{}; observed {} times in this run]",
                self.id,
                text,
                sig,
                seen_known.get(sig).copied().unwrap_or(0)
            );
        }
        for v in &new {
            let name = format!("{}-{:016x}.txt", self.id, hash_str(&v.sig));
            let path = format!("{}/{}", replay_dir, name);
            let _ = std::fs::create_dir_all(replay_dir);
            let _ = std::fs::write(
                &path,
                format!(
                    "property: {}\nsignature: {}\nphase: {}\ncase: {}\nseed: {}\ntier: {}\noccurrences in this run: {}\nreplay: VERIF_SEED={} /verif/check.sh {} --case {}:{}\n\n{}\n",
                    self.id, v.sig, v.phase, v.case, self.seed, self.tier, v.count, self.seed, self.id, v.phase, v.case, v.detail
                ),
            );
            println!("-- {} ({} occurrences): {}", v.sig, v.count, v.detail.chars().take(1500).collect::<String>());
            println!("VIOLATION property={} replay={}", self.id, path);
        }
        let mut inconclusive = vec![];
        if self.only_case.is_none() {
            if sh.evaluations == 0 || sh.distinct.is_empty() {
                inconclusive.push("nothing was observed".to_string());
            }
            for (c, min) in &sh.required {
                let got = sh.counters.get(c).copied().unwrap_or(0);
                if got < *min {
                    inconclusive.push(format!("event {} observed {} times, {} required", c, got, min));
                }
            }
        }
        for e in &sh.harness_errors {
            inconclusive.push(format!("harness error: {}", e));
        }
        let wall = self.start.elapsed().as_secs_f64();
        if let Some(ev) = evidence {
            let samples: Vec<serde_json::Value> = sh
                .samples
                .iter()
                .flat_map(|(k, v)| v.iter().map(move |s| serde_json::json!({"kind": k, "case": s})))
                .take(24)
                .collect();
            let j = serde_json::json!({
                "property": self.id,
                "tier": if self.quick() { "quick" } else { "thorough" },
                "seed": self.seed,
                "level": "exploration",
                "coverage": {
                    "evaluations": sh.evaluations,
                    "distinct_nontrivial": sh.distinct.len(),
                    "rule": sh.rule.join(" "),
                    "samples": samples,
                    "observed_events": sh.counters,
                    "phases_stopped_by_time_cap": sh.capped,
                    "known_findings_observed": seen_known,
                    "inconclusive": inconclusive,
                },
                "assumptions": sh.assumptions,
                "wall_s": wall,
                "violations": new.len(),
            });
            if let Some(d) = std::path::Path::new(ev).parent() {
                let _ = std::fs::create_dir_all(d);
            }
            let _ = std::fs::write(ev, serde_json::to_string_pretty(&j).unwrap() + "\n");
        }
        println!(
            "{}: {} cases, {} distinct, {} new violation signature(s), {} known finding(s) observed, {:.1} s",
            self.id,
            sh.evaluations,
            sh.distinct.len(),
            new.len(),
            seen_known.len(),
            wall
        );
        if !new.is_empty() {
            return 1;
        }
        if !inconclusive.is_empty() {
            for i in &inconclusive {
                println!("INCONCLUSIVE: {}", i);
            }
            return 3;
        }
        0
    }
    pub fn dump_counters(&self) {
        let sh = self.sh.lock().unwrap();
        for (k, v) in &sh.counters {
            println!("   {:50} {}", k, v);
        }
    }
}

/// Per-thread record of the case under way, readable by the parent after a crash.
pub struct Slot {
    file: Option<std::fs::File>,
    t: usize,
}
impl Slot {
    pub fn begin(&mut self, phase: &str, i: u64) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.file {
            let mut b = format!("{}:{} tid={}", phase, i, tid());
            b.truncate(120);
            while b.len() < 127 {
                b.push(' ');
            }
            b.push('\n');
            let _ = f.write_at(b.as_bytes(), self.t as u64 * 128);
        }
    }
    pub fn end(&mut self) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.file {
            let mut b = " ".repeat(127);
            b.push('\n');
            let _ = f.write_at(b.as_bytes(), self.t as u64 * 128);
        }
    }
}
fn tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}

/// Lines `finding: property=<id> sig=<signature> <what fails>`.
pub fn load_known(path: &str, id: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("");
                let sig = it.next().unwrap_or("");
                let text = it.next().unwrap_or("");
                if p == format!("property={}", id) {
                    if let Some(sig) = sig.strip_prefix("sig=") {
                        out.push((sig.to_string(), text.to_string()));
                    }
                }
            }
        }
    }
    out
}
