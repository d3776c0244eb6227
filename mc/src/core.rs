//! Reporting, evidence, replay and parallel helpers shared by every check.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    /// Replay: evaluate only the case with this key.
    pub only: Option<String>,
}

impl Opts {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub what: String,
    pub expected: String,
    pub actual: String,
}

const MAX_FAILS: usize = 25;
const MAX_SAMPLES: usize = 12;

#[derive(Default)]
pub struct Stats {
    /// Distinct histories (nodes of the exploration tree) or abstract states.
    pub states: u64,
    /// Edges taken: operations applied / items consumed.
    pub transitions: u64,
    /// Executions of the real code whose observation was compared to the model.
    pub traces: u64,
    pub outcomes: HashSet<u64>,
    pub model_states: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub nfails: u64,
    /// known finding id -> (count, first case)
    pub known: BTreeMap<&'static str, (u64, String)>,
    pub extra: BTreeMap<String, u64>,
    pub bounds: Vec<String>,
    pub only: Option<String>,
    pub replayed: u64,
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Stats {
    pub fn new(o: &Opts) -> Self {
        Stats {
            only: o.only.clone(),
            ..Default::default()
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.replayed += o.replayed;
        self.nfails += o.nfails;
        if self.outcomes.len() < 8_000_000 {
            self.outcomes.extend(o.outcomes);
        }
        self.model_states.extend(o.model_states);
        for s in o.samples {
            self.sample(|| s);
        }
        for f in o.fails {
            self.keep(f);
        }
        for (k, (n, c)) in o.known {
            match self.known.get_mut(k) {
                None => {
                    self.known.insert(k, (n, c));
                }
                Some(e) => {
                    e.0 += n;
                    if c.len() < e.1.len() {
                        e.1 = c;
                    }
                }
            }
        }
        for (k, n) in o.extra {
            *self.extra.entry(k).or_insert(0) += n;
        }
        self.bounds.extend(o.bounds);
    }
    pub fn bump(&mut self, k: &str, n: u64) {
        if let Some(e) = self.extra.get_mut(k) {
            *e += n;
        } else {
            self.extra.insert(k.to_string(), n);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < MAX_SAMPLES {
            self.samples.push(f());
        }
    }
    /// Record the observation for non-vacuity counting (bounded memory).
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(hash(t));
        }
    }
    pub fn model_state<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.model_states.len() < 2_000_000 {
            self.model_states.insert(hash(t));
        }
    }
    pub fn skip(&self, key: impl FnOnce() -> String) -> bool {
        match &self.only {
            None => false,
            Some(k) => *k != key(),
        }
    }
    pub fn fail(
        &mut self,
        key: impl Into<String>,
        what: impl Into<String>,
        expected: impl Into<String>,
        actual: impl Into<String>,
    ) {
        let key = key.into();
        if let Some(k) = &self.only {
            if *k != key {
                return;
            }
        }
        self.nfails += 1;
        self.keep(Fail {
            key,
            what: what.into(),
            expected: expected.into(),
            actual: actual.into(),
        });
    }
    /// Keep the simplest counterexamples.
    fn keep(&mut self, f: Fail) {
        if self.fails.iter().any(|x| x.key == f.key && x.what == f.what) {
            return;
        }
        if self.fails.len() < MAX_FAILS {
            self.fails.push(f);
            return;
        }
        let (i, worst) = self.fails.iter().enumerate().max_by_key(|(_, x)| x.key.len()).unwrap();
        if f.key.len() < worst.key.len() {
            self.fails[i] = f;
        }
    }
    pub fn known(&mut self, id: &'static str, case: impl FnOnce() -> String) {
        let e = self.known.entry(id).or_insert_with(|| (0, case()));
        e.0 += 1;
    }
    pub fn too_many(&self) -> bool {
        self.nfails >= 2000
    }
    /// Compare and record in one go.
    pub fn check_eq(
        &mut self,
        key: impl FnOnce() -> String,
        what: &str,
        expected: &str,
        actual: &Result<String, String>,
    ) -> bool {
        self.traces += 1;
        match actual {
            Ok(a) if a == expected => true,
            other => {
                let a = match other {
                    Ok(a) => a.clone(),
                    Err(e) => format!("<<{e}>>"),
                };
                self.fail(key(), what, expected, a);
                false
            }
        }
    }
}

thread_local! {
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            prev(i)
        }
    }));
}

/// One counter per thread: odd while inside of the code under test.
static SLOTS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static SLOT: usize = NEXT_SLOT.fetch_add(1, Ordering::Relaxed);
    static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Ends the check with a violation when one call of the code under test does
/// not return: every call explored takes microseconds.
pub fn watch(id: &'static str, tier: Tier) {
    std::thread::spawn(move || {
        let mut last = [(0u64, 0u32); 64];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for (i, s) in SLOTS.iter().enumerate() {
                let v = s.load(Ordering::Relaxed);
                if v % 2 == 0 || v != last[i].0 {
                    last[i] = (v, 0);
                    continue;
                }
                last[i].1 += 1;
                if last[i].1 >= 60 {
                    stuck(id, tier, "a call of the code under test does not return within 60 s");
                }
            }
        }
    });
}

fn stuck(id: &str, tier: Tier, what: &str) -> ! {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let _ = std::fs::create_dir_all(format!("{root}/replays"));
    let path = format!("{root}/replays/{id}-hang.json");
    let tier = if tier == Tier::Thorough { "thorough" } else { "quick" };
    let body = format!("{{\"property\": {}, \"tier\": \"{tier}\", \"key\": \"\", \"what\": {}}}\n", json_str(id), json_str(what));
    let _ = std::fs::write(&path, body);
    println!("  {what}\nVIOLATION property={id} replay={path}");
    std::process::exit(1);
}

/// Run the code under test; panics become values.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let slot = SLOT.with(|s| *s) % 64;
    let outer = DEPTH.with(|d| d.replace(d.get() + 1)) == 0;
    if outer {
        SLOTS[slot].fetch_add(1, Ordering::Relaxed);
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if outer {
        SLOTS[slot].fetch_add(1, Ordering::Relaxed);
    }
    DEPTH.with(|d| d.set(d.get() - 1));
    QUIET.with(|q| q.set(old));
    r.map_err(|e| {
        let m = e
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        format!("panic: {m}")
    })
}

/// Same for a formatting call.
pub fn rendered(f: impl FnOnce() -> genco::fmt::Result<String>) -> Result<String, String> {
    match guarded(f) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(_)) => Err("fmt::Error".into()),
        Err(p) => Err(p),
    }
}

/// Deterministic parallel map over shards; results are merged in shard order.
pub fn par(o: &Opts, shards: usize, f: impl Fn(usize, &mut Stats) + Sync) -> Stats {
    let next = AtomicUsize::new(0);
    let slots: Vec<Mutex<Option<Stats>>> = (0..shards).map(|_| Mutex::new(None)).collect();
    let n = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .min(16);
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= shards {
                        break;
                    }
                    let mut st = Stats::new(o);
                    f(i, &mut st);
                    *slots[i].lock().unwrap() = Some(st);
                })
                .unwrap();
        }
    });
    let mut out = Stats::new(o);
    for s in slots {
        if let Some(s) = s.into_inner().unwrap() {
            out.merge(s);
        }
    }
    out
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Meta {
    pub id: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
}

/// Print verdict lines, write evidence and replay files, return the exit code.
pub fn finish(m: &Meta, o: &Opts, st: &Stats, start: Instant, rule: &str) -> i32 {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let mut cov = String::new();
    if m.level == "fault_enumeration" {
        let _ = write!(
            cov,
            "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"histories\": {}, \"fault_points\": {}",
            st.traces, st.outcomes.len(), st.states, st.transitions
        );
    } else {
        let _ = write!(
            cov,
            "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"distinct_outcomes\": {}",
            st.states, st.transitions, st.traces, st.outcomes.len()
        );
        if !st.model_states.is_empty() {
            let _ = write!(cov, ", \"distinct_model_states\": {}", st.model_states.len());
        }
    }
    for (k, v) in &st.extra {
        let _ = write!(cov, ", {}: {}", json_str(k), v);
    }
    let _ = write!(cov, ", \"exhaustive\": {}", st.only.is_none());
    let _ = write!(cov, ", \"rule\": {}", json_str(rule));
    let _ = write!(
        cov,
        ", \"bounds\": [{}]",
        st.bounds.iter().map(|b| json_str(b)).collect::<Vec<_>>().join(", ")
    );
    let _ = write!(
        cov,
        ", \"samples\": [{}]",
        st.samples.iter().map(|b| json_str(b)).collect::<Vec<_>>().join(", ")
    );
    let _ = write!(
        cov,
        ", \"known_findings\": {{{}}}",
        st.known
            .iter()
            .map(|(k, (n, _))| format!("{}: {}", json_str(k), n))
            .collect::<Vec<_>>()
            .join(", ")
    );
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        json_str(m.id),
        json_str(if o.thorough() { "thorough" } else { "quick" }),
        o.seed,
        json_str(m.level),
        cov,
        m.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", "),
        start.elapsed().as_secs_f64(),
        st.nfails
    );
    if o.only.is_none() {
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        std::fs::write(format!("{root}/evidence/{}.json", m.id), ev).expect("write evidence");
    }
    println!(
        "{}: states={} transitions={} impl-executions={} outcomes={} known={} violations={} wall={:.1}s",
        m.id,
        st.states,
        st.transitions,
        st.traces,
        st.outcomes.len(),
        st.known.values().map(|k| k.0).sum::<u64>(),
        st.nfails,
        start.elapsed().as_secs_f64()
    );
    // Findings listed in the committed file; anything else is a violation.
    let listed = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    let mut unlisted = 0;
    let mut fails = st.fails.clone();
    for (k, (n, case)) in &st.known {
        let line = listed
            .lines()
            .find(|l| l.starts_with(&format!("finding: property={} id={} ", m.id, k)));
        match line {
            Some(l) => {
                let text = l.splitn(4, ' ').nth(3).unwrap_or("");
                println!("KNOWN-FINDING: property={} {} -- {} ({} histories, e.g. {})", m.id, k, text, n, case.replace('\n', "\\n"));
            }
            None => {
                unlisted += 1;
                fails.push(Fail {
                    key: case.clone(),
                    what: format!("finding {k} is not listed in known_findings.txt"),
                    expected: "-".into(),
                    actual: "-".into(),
                });
            }
        }
    }
    if o.only.is_none() {
        // A known finding that is listed but no longer fails is simply not printed.
    }
    if st.nfails == 0 && unlisted == 0 {
        return 0;
    }
    let _ = std::fs::create_dir_all(format!("{root}/replays"));
    // Simplest first.
    fails.sort_by_key(|f| (f.key.len(), f.key.clone()));
    for (i, f) in fails.iter().enumerate() {
        let path = format!("{root}/replays/{}-{}.json", m.id, i);
        let body = format!(
            "{{\"property\": {}, \"tier\": {}, \"key\": {}, \"what\": {}, \"expected\": {}, \"actual\": {}, \"replay\": {}}}\n",
            json_str(m.id),
            json_str(if o.thorough() { "thorough" } else { "quick" }),
            json_str(&f.key),
            json_str(&f.what),
            json_str(&f.expected),
            json_str(&f.actual),
            json_str(&format!("/verif/check.sh --replay {path}")),
        );
        let _ = std::fs::write(&path, body);
        if i < 5 {
            println!("  case: {}\n    {}\n    expected: {:?}\n    actual:   {:?}", f.key, f.what, f.expected, f.actual);
        }
        println!("VIOLATION property={} replay={}", m.id, path);
        if i >= 4 {
            break;
        }
    }
    1
}
