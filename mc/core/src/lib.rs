//! Shared by every harness: the reference arithmetic, the explorer's
//! bookkeeping (states, transitions, traces), evidence and violation output.
pub mod big;
pub mod ec;
pub mod field;
pub mod tamper;
pub use big::{Fp, U, P, Q};
pub use serde_json::{self, json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

pub struct Check {
    pub id: String,
    pub tier: String,
    t0: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    samples: Mutex<Vec<Value>>,
    bounds: Mutex<Vec<String>>,
    parts: Mutex<BTreeMap<String, u64>>,
    fails: Mutex<BTreeMap<String, (u64, Value)>>,
    known: Vec<(String, String)>,
}

fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

impl Check {
    pub fn new(id: &str) -> Self {
        let known = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default().lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let mut it = l.splitn(3, ' ');
                let (p, k, d) = (it.next()?, it.next()?.strip_prefix("key=")?, it.next().unwrap_or(""));
                (p == id).then(|| (k.to_string(), d.to_string()))
            }).collect();
        Check { id: id.into(), tier: std::env::var("VERIF_TIER").unwrap_or("quick".into()), t0: Instant::now(),
            states: 0.into(), transitions: 0.into(), traces: 0.into(), samples: Default::default(), bounds: Default::default(),
            parts: Default::default(), fails: Default::default(), known }
    }
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    /// `n` states (inputs, configurations) of the explored space, counted once each.
    pub fn states(&self, n: u64) { self.states.fetch_add(n, Relaxed); }
    /// `n` steps of the real code executed and compared with the reference.
    pub fn steps(&self, n: u64) { self.transitions.fetch_add(n, Relaxed); }
    /// `n` complete executions (call sequences, protocol runs) replayed on the real code.
    pub fn traces(&self, n: u64) { self.traces.fetch_add(n, Relaxed); }
    pub fn part(&self, k: &str, n: u64) { *self.parts.lock().unwrap().entry(k.into()).or_default() += n; }
    pub fn sample(&self, v: Value) { let mut s = self.samples.lock().unwrap(); if s.len() < 12 { s.push(v) } }
    /// What was enumerated, in words.
    pub fn bound(&self, s: &str) { self.bounds.lock().unwrap().push(s.into()) }
    /// The property is broken. `key` identifies the failing call site / input class.
    pub fn fail(&self, key: &str, detail: Value) {
        let key: String = key.chars().map(|c| if c.is_ascii_alphanumeric() || "-_.:".contains(c) { c } else { '_' }).collect();
        let mut f = self.fails.lock().unwrap();
        let e = f.entry(key).or_insert((0, detail));
        e.0 += 1;
    }
    pub fn ensure(&self, ok: bool, key: &str, detail: impl FnOnce() -> Value) -> bool {
        if !ok { self.fail(key, detail()) }
        ok
    }
    /// Run code under test; a panic is an outcome, not a crash of the harness.
    pub fn run<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> { guarded(f) }
    pub fn failed(&self) -> bool { !self.fails.lock().unwrap().is_empty() }
    pub fn elapsed(&self) -> f64 { self.t0.elapsed().as_secs_f64() }
    pub fn finish(self) -> ! {
        let fails = self.fails.into_inner().unwrap();
        let mut viols = vec![];
        let mut knowns = vec![];
        let dir = root().join("evidence");
        let rdir = dir.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        for (k, (n, d)) in &fails {
            if let Some((_, desc)) = self.known.iter().find(|x| &x.0 == k) {
                println!("KNOWN-FINDING: property={} {} ({} cases)", self.id, if desc.is_empty() { k } else { desc }, n);
                knowns.push(json!({"key": k, "cases": n}));
                continue;
            }
            let path = rdir.join(format!("{}-{}.json", self.id, k.chars().take(80).map(|c| if c == ':' { '_' } else { c }).collect::<String>()));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": self.id, "key": k, "cases": n, "first": d})).unwrap());
            println!("VIOLATION property={} replay={}", self.id, path.display());
            println!("  {} ({} cases): {}", k, n, d);
            viols.push(json!({"key": k, "cases": n, "replay": path.display().to_string()}));
        }
        let (st, tr, tc) = (self.states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed));
        if st == 0 || tr == 0 || tc == 0 {
            if viols.is_empty() { eprintln!("check {} explored nothing: states {st} transitions {tr} traces {tc}", self.id); std::process::exit(3) }
        }
        let ev = json!({
            "property": self.id, "tier": self.tier,
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": "model_checking",
            "coverage": {"states": st, "transitions": tr, "traces_validated_against_impl": tc,
                "explored": self.bounds.into_inner().unwrap(), "by_part": self.parts.into_inner().unwrap(),
                "samples": self.samples.into_inner().unwrap(), "known_findings_seen": knowns},
            "wall_s": self.t0.elapsed().as_secs_f64(),
            "violations": viols,
        });
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        println!("{} {}: {} states, {} transitions, {} traces, {} violation(s), {:.1}s", self.id, self.tier, st, tr, tc, viols.len(), self.t0.elapsed().as_secs_f64());
        std::process::exit(if viols.is_empty() { 0 } else { 1 })
    }
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    static Q: std::sync::Once = std::sync::Once::new();
    Q.call_once(|| std::panic::set_hook(Box::new(|i| {
        if !QUIET.with(|q| q.get()) { eprintln!("{i}") }
    })));
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|e| e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or("panic".into()))
}
thread_local! { static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) } }

/// Split `0..n` over the cores; every index is visited exactly once.
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicU64::new(0);
    let t = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8).min(n.max(1));
    std::thread::scope(|s| {
        for _ in 0..t {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
                let i = next.fetch_add(1, Relaxed) as usize;
                if i >= n { break }
                f(i)
            }).unwrap();
        }
    });
}

/// Lengths for code that handles lists of any length: each of the small ones, then every power
/// of two and its neighbours, and some in between, up to `top`.
pub fn lengths(top: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=70).chain((7..20).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1])).chain([100, 200, 300, 1000]).filter(|n| *n <= top).collect();
    v.sort(); v.dedup(); v
}

/// Positions of a list of `n`: all of a short one, of a long one the ends and both sides of powers of two.
pub fn places(n: usize) -> Vec<usize> {
    if n <= 70 { return (0..n).collect() }
    let mut v: Vec<usize> = (0..4).chain((2..20).flat_map(|k| [(1 << k) - 1, 1 << k])).chain([100, 200, 300, n / 2, n - 2, n - 1]).filter(|x| *x < n).collect();
    v.sort(); v.dedup(); v
}

/// One function on inputs that differ from the first one in a single part, the first one in between each
/// two of them, all on one thread: an answer taken from another call (an incomplete memory of earlier
/// calls, a leftover of state) is a wrong one somewhere.
pub fn neighbours<T, V: PartialEq + std::fmt::Debug>(c: &Check, key: &str, items: &[T], call: impl Fn(&T) -> V, want: impl Fn(&T) -> V) {
    let ws: Vec<V> = items.iter().map(&want).collect();
    c.states(items.len() as u64); c.traces(items.len() as u64);
    for i in 0..items.len() { for j in [0, i] {
        c.steps(1);
        let g = guarded(|| call(&items[j]));
        if !c.ensure(g.as_ref() == Ok(&ws[j]), key, || json!({"neighbour": j, "after": [i.saturating_sub(1), 0], "want": format!("{:?}", ws[j]), "got": format!("{g:?}")})) { return }
    } }
}

/// Every vector of `len` digits below `base`, in order.
pub fn tuples(base: usize, len: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = (base as u64).checked_pow(len as u32).expect("too many tuples");
    (0..total).map(move |mut k| (0..len).map(|_| { let d = (k % base as u64) as usize; k /= base as u64; d }).collect())
}

/// `main` of a harness: `bin <property id>`.
pub fn main_with(table: &[(&str, fn(&Check))]) {
    let id = std::env::args().nth(1).expect("property id");
    let f = table.iter().find(|x| x.0 == id).unwrap_or_else(|| panic!("no check for {id}")).1;
    let c = Check::new(&id);
    // A panic that escapes here is a panic of the harness or an unguarded one of the code
    // under test; in either case the property was not shown to hold, so say what happened.
    match catch_unwind(AssertUnwindSafe(|| f(&c))) {
        Ok(()) => {}
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or("panic".into());
            c.fail("unexpected-panic", json!({"panic": m}));
        }
    }
    c.finish()
}
