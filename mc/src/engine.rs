//! Exhaustive parallel enumeration with minimal counterexamples, a watchdog,
//! coverage accounting, evidence and replay artefacts.

use std::{
    cell::RefCell,
    collections::{hash_map::DefaultHasher, BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Mutex, OnceLock,
    },
    time::{Duration, Instant},
};

use serde_json::{json, Value};

/// A case running for longer than this is a hang of the code under test.
pub static HANG_S: AtomicU64 = AtomicU64::new(300);

#[derive(Clone, Debug, Default)]
pub struct Cov {
    /// Distinct states (tries, key sequences, pairs, ...) visited, where the
    /// enumeration itself does not repeat any.
    pub states: u64,
    /// Fingerprints of the states of enumerations that may repeat some.
    seen: HashSet<u64>,
    /// Operations executed on the implementation and compared with the model.
    pub transitions: u64,
    /// Complete histories executed on the implementation from an initial state.
    pub traces: u64,
    /// How often interesting situations occurred (guards against vacuity).
    pub kinds: BTreeMap<&'static str, u64>,
}

impl Cov {
    /// Counts a state once, however often it is reached.
    pub fn visit(&mut self, x: impl Hash) {
        let mut h = DefaultHasher::new();
        x.hash(&mut h);
        self.seen.insert(h.finish());
    }
    pub fn all_states(&self) -> u64 {
        self.states + self.seen.len() as u64
    }
    pub fn kind(&mut self, k: &'static str) {
        *self.kinds.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, o: &Cov) {
        self.states += o.states;
        self.seen.extend(&o.seen);
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, v) in &o.kinds {
            *self.kinds.entry(k).or_insert(0) += v;
        }
    }
}

/// A failed case: what was done and what was wrong.
#[derive(Clone, Debug)]
pub struct Fail(pub String);

impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail(s)
    }
}

pub type Case = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::engine::Fail(format!($($a)*)).into()) };
}

pub struct Run {
    pub prop: String,
    pub thorough: bool,
    seed: i64,
    dir: String,
    only: Option<(String, Option<u64>)>,
    start: Instant,
    cov: Mutex<Cov>,
    scopes: Mutex<Vec<Value>>,
    samples: Mutex<Vec<String>>,
    known: Mutex<BTreeMap<String, u64>>,
    work: Vec<Mutex<Option<(String, u64, Instant)>>>,
    merge: bool,
}

static RUN: OnceLock<Run> = OnceLock::new();

pub fn run() -> &'static Run {
    RUN.get().unwrap()
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn note_panic(msg: String) {
    PANIC.with(|p| *p.borrow_mut() = msg);
}

/// Whether a type can be shared between threads, without requiring it.
pub struct Shareable<T>(std::marker::PhantomData<T>);

#[allow(dead_code)]
pub trait NotShareable {
    const IT_IS: bool = false;
}

impl<T> NotShareable for Shareable<T> {}

impl<T: Send + Sync> Shareable<T> {
    pub const IT_IS: bool = true;
}

pub fn tries_shareable() -> bool {
    use eth_trie_utils::partial_trie::*;
    Shareable::<HashedPartialTrie>::IT_IS && Shareable::<StandardTrie>::IT_IS
}

pub static OVERSUBSCRIBE: AtomicU64 = AtomicU64::new(1);

pub fn threads() -> usize {
    if !tries_shareable() {
        return 1;
    }
    let n = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    // Workers that mostly wait for other threads.
    (n * OVERSUBSCRIBE.load(SeqCst) as usize).min(64)
}

pub fn init(prop: &str, thorough: bool, only: Option<(String, Option<u64>)>) {
    std::panic::set_hook(Box::new(|info| {
        note_panic(info.to_string());
    }));
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.into());
    let r = Run {
        prop: prop.into(),
        thorough,
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        dir: env("MC_EVIDENCE", "/verif/evidence"),
        only,
        start: Instant::now(),
        cov: Mutex::default(),
        scopes: Mutex::default(),
        samples: Mutex::default(),
        known: Mutex::default(),
        work: (0..64).map(|_| Mutex::default()).collect(),
        merge: env("MC_MERGE", "0") == "1",
    };
    assert!(RUN.set(r).is_ok());
    // The largest cases of the thorough tier take half a minute on an idle machine.
    if thorough {
        HANG_S.store(1800, SeqCst);
    }
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        for w in &run().work {
            let g = w.lock().unwrap().clone();
            if let Some((scope, i, t)) = g {
                if t.elapsed().as_secs() > HANG_S.load(SeqCst) {
                    violation(&scope, Some(i), "the code under test does not terminate");
                }
            }
        }
    });
}

/// Runs code under test; a panic becomes `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().replace('\n', " ")))
}

/// Records an example of what was explored.
pub fn sample(f: impl FnOnce() -> String) {
    let mut s = run().samples.lock().unwrap();
    if s.len() < 12 {
        let t = f();
        s.push(t);
    }
}

/// Counts an occurrence of a listed known finding.
pub fn known_finding(what: &str) {
    *run().known.lock().unwrap().entry(what.into()).or_insert(0) += 1;
}

pub fn skip_scope(name: &str) -> bool {
    matches!(&run().only, Some((s, _)) if s != name)
}

/// Executes cases `0..n`, all of them, in parallel. Stops the process with a
/// violation for the failing case with the smallest index.
pub fn scope(name: &str, n: u64, f: impl Fn(u64, &mut Cov) -> Case + Sync) {
    if skip_scope(name) {
        return;
    }
    let t = Instant::now();
    let (cov, bad) = par(name, n, &f);
    if let Some((i, w)) = bad {
        violation(name, Some(i), &w);
    }
    record(name, n, &cov, t);
}

/// As `scope`, for cases that need something that is expensive to build and
/// that every worker builds for itself.
pub fn scope_with<S>(name: &str, n: u64, init: impl Fn() -> S + Sync, f: impl Fn(u64, &S, &mut Cov) -> Case + Sync) {
    if skip_scope(name) {
        return;
    }
    let t = Instant::now();
    let (cov, bad) = par_with(name, n, &init, &f);
    if let Some((i, w)) = bad {
        violation(name, Some(i), &w);
    }
    record(name, n, &cov, t);
}

pub fn record(name: &str, n: u64, cov: &Cov, t: Instant) {
    run().cov.lock().unwrap().add(cov);
    run().scopes.lock().unwrap().push(json!({
        "scope": name, "cases": n, "states": cov.all_states(), "transitions": cov.transitions,
        "traces": cov.traces, "kinds": cov.kinds, "wall_s": t.elapsed().as_secs_f64(),
    }));
    if std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("{name}: n={n} states={} transitions={} traces={} {:?} {:.1}s", cov.all_states(), cov.transitions, cov.traces, cov.kinds, t.elapsed().as_secs_f64());
    }
}

/// As `scope`, without recording; returns the first failure.
pub fn par(name: &str, n: u64, f: &(impl Fn(u64, &mut Cov) -> Case + Sync)) -> (Cov, Option<(u64, String)>) {
    par_with(name, n, &|| (), &|i, _: &(), cov| f(i, cov))
}

fn par_with<S>(
    name: &str,
    n: u64,
    init: &(impl Fn() -> S + Sync),
    f: &(impl Fn(u64, &S, &mut Cov) -> Case + Sync),
) -> (Cov, Option<(u64, String)>) {
    let only = match &run().only {
        Some((s, Some(i))) if s == name => Some(*i),
        _ => None,
    };
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let first_bad = AtomicU64::new(u64::MAX);
    let bad: Mutex<BTreeMap<u64, String>> = Mutex::default();
    let total: Mutex<Cov> = Mutex::default();
    let nt = threads();
    let chunk = (n / (nt as u64 * 64)).clamp(1, 256);
    std::thread::scope(|s| {
        for w in 0..nt {
            let (next, done, first_bad, bad, total) = (&next, &done, &first_bad, &bad, &total);
            s.spawn(move || {
                let slot = &run().work[w];
                let mut cov = Cov::default();
                let state = init();
                loop {
                    let lo = next.fetch_add(chunk, SeqCst);
                    if lo >= n || lo > first_bad.load(SeqCst) {
                        break;
                    }
                    for i in lo..(lo + chunk).min(n) {
                        if only.map_or(false, |o| o != i) {
                            done.fetch_add(1, SeqCst);
                            continue;
                        }
                        if i > first_bad.load(SeqCst) {
                            break;
                        }
                        *slot.lock().unwrap() = Some((name.into(), i, Instant::now()));
                        let r = match catch(|| f(i, &state, &mut cov)) {
                            Ok(r) => r,
                            Err(p) => Err(Fail(format!("unexpected panic: {p}"))),
                        };
                        done.fetch_add(1, SeqCst);
                        if let Err(Fail(what)) = r {
                            first_bad.fetch_min(i, SeqCst);
                            bad.lock().unwrap().insert(i, what);
                            break;
                        }
                    }
                    *slot.lock().unwrap() = None;
                }
                *slot.lock().unwrap() = None;
                total.lock().unwrap().add(&cov);
            });
        }
    });
    let bad = bad.into_inner().unwrap().into_iter().next();
    if bad.is_none() && done.load(SeqCst) != n {
        eprintln!("internal error: scope {name} enumerated {} of {n} cases", done.load(SeqCst));
        std::process::exit(3);
    }
    (total.into_inner().unwrap(), bad)
}

fn evidence(violations: u64) {
    let r = run();
    let mut cov = r.cov.lock().unwrap().clone();
    cov.states = cov.all_states();
    let mut scopes = r.scopes.lock().unwrap().clone();
    let build = if cfg!(debug_assertions) { "checked" } else { "release" };
    for s in scopes.iter_mut() {
        s["build"] = json!(build);
    }
    let mut samples: Vec<Value> = r.samples.lock().unwrap().iter().map(|s| json!(s)).collect();
    let mut wall = r.start.elapsed().as_secs_f64();
    let mut known: BTreeMap<String, u64> = r.known.lock().unwrap().clone();
    let path = format!("{}/{}.json", r.dir, r.prop);
    let mut kinds: BTreeMap<String, u64> = cov.kinds.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    if r.merge {
        let old: Value = std::fs::read(&path).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
        let c = &old["coverage"];
        let n = |k: &str| c[k].as_u64().unwrap_or(0);
        cov.states += n("states");
        cov.transitions += n("transitions");
        cov.traces += n("traces_validated_against_impl");
        wall += old["wall_s"].as_f64().unwrap_or(0.0);
        let list = |k: &str| c[k].as_array().cloned().unwrap_or_default();
        let mut s = list("scopes");
        s.append(&mut scopes);
        scopes = s;
        let mut s = list("samples");
        s.append(&mut samples);
        s.truncate(12);
        samples = s;
        for (m, k) in [(&mut kinds, "situations"), (&mut known, "known_findings_hit")] {
            for (a, b) in c[k].as_object().into_iter().flatten() {
                *m.entry(a.clone()).or_insert(0) += b.as_u64().unwrap_or(0);
            }
        }
    }
    let v = json!({
        "property": r.prop,
        "tier": if r.thorough { "thorough" } else { "quick" },
        "seed": r.seed,
        "level": "model_checking",
        "coverage": {
            "states": cov.states,
            "transitions": cov.transitions,
            "traces_validated_against_impl": cov.traces,
            "samples": samples,
            "situations": kinds,
            "known_findings_hit": known,
            "scopes": scopes,
            "exhaustive": violations == 0 && r.only.is_none() && !cov.kinds.contains_key("programs explored incompletely"),
        },
        "assumptions": [
            "bounds: the scopes listed in coverage, each enumerated completely",
            "domain: keys of at most 64 nibbles, non-empty values, hash nodes only for sub-tries with RLP >= 32 bytes",
            "trusted: the reference model (self-tested against published vectors), rustc, the crate's dependencies",
        ],
        "wall_s": wall,
        "violations": violations,
    });
    std::fs::create_dir_all(&r.dir).unwrap();
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

/// Reports a violation and ends the process.
pub fn violation(scope: &str, index: Option<u64>, what: &str) -> ! {
    static ONCE: Mutex<()> = Mutex::new(());
    let g = ONCE.lock();
    let r = run();
    evidence(1);
    let path = format!("{}/replay/{}.txt", r.dir, r.prop);
    std::fs::create_dir_all(format!("{}/replay", r.dir)).unwrap();
    let sel = index.map_or(scope.to_string(), |i| format!("{scope}#{i}"));
    let tier = if r.thorough { "thorough" } else { "quick" };
    let text = format!(
        "property: {}\nscope: {scope}\ncase: {}\nbuild: {}\nre-run: MC_ONLY='{sel}' bash /verif/run.sh {} {tier}\n\n{what}\n",
        r.prop,
        index.map_or("-".into(), |i| i.to_string()),
        if cfg!(debug_assertions) { "checked" } else { "release" },
        r.prop,
    );
    std::fs::write(&path, &text).unwrap();
    println!("{text}");
    println!("VIOLATION property={} replay={path}", r.prop);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::mem::forget(g);
    std::process::exit(1);
}

/// Ends a run that found nothing. `need` lists situations that must have
/// occurred for the exploration not to be vacuous.
pub fn finish(need: &[&str]) -> ! {
    let r = run();
    evidence(0);
    for (k, n) in r.known.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {k} ({n} occurrences)", r.prop);
    }
    let cov = r.cov.lock().unwrap();
    println!(
        "{}: held ({} states, {} transitions, {} traces, {:.1} s, {})",
        r.prop, cov.all_states(), cov.transitions, cov.traces, r.start.elapsed().as_secs_f64(),
        if cfg!(debug_assertions) { "checked" } else { "release" }
    );
    if r.only.is_none() {
        for n in need {
            if cov.kinds.get(n).copied().unwrap_or(0) == 0 {
                eprintln!("internal error: situation '{n}' was never explored");
                std::process::exit(3);
            }
        }
    }
    std::process::exit(0);
}

/// Runs the exploration in a child process, so that a stack overflow or abort
/// of the code under test is reported as what it is.
pub fn supervise(prop: &str) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .args(std::env::args().skip(1))
        .env("MC_CHILD", "1")
        .status()
        .unwrap();
    if let Some(sig) = st.signal() {
        // SIGILL, SIGABRT, SIGBUS, SIGSEGV
        if [4, 6, 7, 11].contains(&sig) {
            init(prop, std::env::args().nth(2).as_deref() == Some("thorough"), None);
            violation("-", None, &format!("the process executing the code under test died of signal {sig} (stack overflow, abort or memory exhaustion; see stderr)"));
        }
        eprintln!("killed by signal {sig}");
        std::process::exit(4);
    }
    std::process::exit(st.code().unwrap_or(4));
}
