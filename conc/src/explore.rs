//! Stateless exploration of all interleavings with dynamic partial-order
//! reduction (races found with vector clocks, sleep sets): every order of
//! operations that do not commute is executed, and no bound on preemptions.

use std::{
    collections::HashMap,
    time::{Duration, Instant},
};

use parking_lot::ctl::{execute, End, Op, Outcome, Step};

struct Frame {
    chosen: usize,
    enabled: u32,
    sleep: u32,
    backtrack: u32,
}

pub type Program = Box<dyn FnOnce() + Send>;

pub struct Stats {
    /// Scheduling decisions taken.
    pub steps: u64,
    /// Distinct states in which such a decision was taken.
    pub states: u64,
    pub schedules: u64,
    pub pruned: u64,
    pub capped: bool,
    /// Explored up to this number of preemptions only.
    pub bounded: Option<usize>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// With partial-order reduction.
    Reduced,
    Full,
    /// All schedules with at most so many preemptions.
    Bounded(usize),
}

pub fn schedule_text(trace: &[Step]) -> String {
    let mut s = String::new();
    let mut last = usize::MAX;
    for st in trace {
        if st.chosen != last {
            s += &format!("\n    thread {}:", st.chosen);
            last = st.chosen;
        }
        s += &format!(" {};", st.pending[st.chosen].map_or("?".into(), |o| o.text()));
    }
    s
}

/// Runs `make`'s programs under all schedules; `check` judges each outcome.
pub fn explore(mode: Mode, most: u64, until: Instant, make: &dyn Fn() -> Vec<Program>, check: &dyn Fn() -> Result<(), String>) -> Result<Stats, String> {
    let mut frames: Vec<Frame> = vec![];
    let mut stats = Stats { steps: 0, states: 0, schedules: 0, pruned: 0, capped: false, bounded: None };
    let full = mode != Mode::Reduced;
    let mut releases = 0;
    loop {
        let prefix: Vec<(usize, u32)> = frames.iter().map(|f| (f.chosen, if full { 0 } else { f.sleep })).collect();
        let known = prefix.len();
        let out = execute(make(), prefix, 0, releases);
        stats.steps += out.trace.len() as u64;
        if out.needed > releases && matches!(out.end, End::Finished | End::Deadlock) {
            // There are more scheduling points than known so far: again.
            releases = out.needed;
            frames.clear();
            continue;
        }
        let fail = |w: String| Err(format!("{w}\n  schedule:{}", schedule_text(&out.trace)));
        match out.end {
            End::Finished => {}
            End::Deadlock => {
                let b: Vec<String> = out.blocked.iter().enumerate().filter_map(|(t, o)| o.map(|o| format!("thread {t} at {}", o.text()))).collect();
                return fail(format!("deadlock: {}", b.join(", ")));
            }
            End::TooLong => return fail("the threads do not terminate".into()),
            End::Diverged => {
                // Behaviour that does not depend on the schedule alone cannot
                // be explored systematically.
                eprintln!("internal error: the same schedule behaves differently");
                std::process::exit(3);
            }
        }
        if let Some((t, p)) = out.panics.iter().enumerate().find_map(|(t, p)| p.as_ref().map(|p| (t, p))) {
            return fail(format!("thread {t} panics: {p}"));
        }
        if let Err(w) = check() {
            return fail(w);
        }
        match out.redundant {
            None => stats.schedules += 1,
            Some(_) => stats.pruned += 1,
        }
        if full {
            let (mut spent, mut last) = (0, None);
            for (i, st) in out.trace.iter().enumerate() {
                let could_stay = last.is_some_and(|l: usize| st.enabled & (1 << l) != 0);
                if i >= known {
                    let backtrack = match mode {
                        Mode::Bounded(b) if could_stay && spent >= b => 1 << st.chosen,
                        _ => st.enabled,
                    };
                    frames.push(Frame { chosen: st.chosen, enabled: st.enabled, sleep: 0, backtrack });
                }
                spent += (could_stay && last != Some(st.chosen)) as usize;
                last = Some(st.chosen);
            }
        } else {
            let len = out.redundant.unwrap_or(out.trace.len()).max(known.min(out.trace.len()));
            for st in &out.trace[known.min(len)..len] {
                frames.push(Frame { chosen: st.chosen, enabled: st.enabled, sleep: st.sleep, backtrack: 1 << st.chosen });
            }
            races(&out, len, &mut frames);
        }
        stats.states += (frames.len() - known) as u64;
        // The deepest decision with something left to try.
        loop {
            let Some(f) = frames.last_mut() else { return Ok(stats) };
            f.sleep |= 1 << f.chosen;
            let todo = f.backtrack & f.enabled & !f.sleep;
            if todo != 0 {
                f.chosen = todo.trailing_zeros() as usize;
                break;
            }
            frames.pop();
        }
        if Instant::now() > until || stats.schedules + stats.pruned >= most {
            stats.capped = true;
            return Ok(stats);
        }
    }
}

/// All schedules, or, if these are too many, those with up to
/// two preemptions.
pub fn explore_capped(most: u64, until: Instant, make: &dyn Fn() -> Vec<Program>, check: &dyn Fn() -> Result<(), String>) -> Result<Stats, String> {
    let mut st = explore(Mode::Reduced, most, until, make, check)?;
    if st.capped {
        for b in 0..3 {
            let s = explore(Mode::Bounded(b), most, until, make, check)?;
            if s.capped {
                break;
            }
            st.bounded = Some(b);
            st.steps += s.steps;
            st.schedules += s.schedules;
        }
    }
    Ok(st)
}

/// An executed step: its index, thread, number in the thread, operation, and
/// the clock after it.
struct Done {
    step: usize,
    thread: usize,
    number: usize,
    op: Op,
    clock: Vec<usize>,
}

/// Adds alternatives for every pair of dependent, unordered operations.
fn races(out: &Outcome, len: usize, frames: &mut [Frame]) {
    let n = out.trace.first().map_or(0, |s| s.pending.len());
    // Only locks that somebody writes to and several threads use matter.
    let mut users: HashMap<u64, (u32, bool)> = HashMap::new();
    let mut note = |t: usize, op: &Op| {
        let u = users.entry(op.lock).or_default();
        u.0 |= 1 << t;
        u.1 |= op.writes();
    };
    for st in &out.trace[..len] {
        note(st.chosen, &st.pending[st.chosen].unwrap());
    }
    if let Some(st) = out.trace.get(len) {
        for (t, op) in st.pending.iter().enumerate() {
            op.iter().for_each(|op| note(t, op));
        }
    }
    users.retain(|_, u| u.1 && u.0.count_ones() > 1);
    // clock[t][u]: number of steps of u that happened before t's next one.
    let mut clock = vec![vec![0usize; n]; n];
    let mut count = vec![0usize; n];
    let mut done: HashMap<u64, Vec<Done>> = HashMap::new();
    let mut add = |thread: usize, op: &Op, clock: &[usize], done: &[Done]| {
        for d in done {
            if d.thread != thread && d.op.depends(op) && clock[d.thread] < d.number {
                let f = &mut frames[d.step];
                if f.enabled & (1 << thread) != 0 {
                    f.backtrack |= 1 << thread;
                } else {
                    f.backtrack |= f.enabled;
                }
            }
        }
    };
    for (j, st) in out.trace[..len].iter().enumerate() {
        let p = st.chosen;
        let op = st.pending[p].unwrap();
        count[p] += 1;
        if !users.contains_key(&op.lock) {
            continue;
        }
        let earlier = done.entry(op.lock).or_default();
        add(p, &op, &clock[p], earlier);
        let mut c = clock[p].clone();
        for d in earlier.iter() {
            if d.op.depends(&op) {
                for t in 0..n {
                    c[t] = c[t].max(d.clock[t]);
                }
            }
        }
        c[p] = count[p];
        clock[p] = c.clone();
        earlier.push(Done { step: j, thread: p, number: count[p], op, clock: c });
    }
    // What the threads would have done next.
    if let Some(st) = out.trace.get(len) {
        for (t, op) in st.pending.iter().enumerate() {
            if let Some(op) = op {
                add(t, op, &clock[t], done.get(&op.lock).map_or(&[], |l| l));
            }
        }
    }
}

/// The explorer must find what is known to be there, and the reduction must
/// not lose any outcome.
pub fn self_test() {
    use parking_lot::{Mutex, RwLock};
    use std::{collections::BTreeSet, sync::Arc};
    type World = (RwLock<u32>, RwLock<u32>, Mutex<u32>);
    type Body = fn(&World);
    let run = |mode: Mode, bodies: &[Body]| -> (Result<u64, String>, BTreeSet<(u32, u32, u32)>) {
        let cur: std::sync::Mutex<Option<Arc<World>>> = Default::default();
        let seen = std::sync::Mutex::new(BTreeSet::new());
        let make = || {
            let w: Arc<World> = Default::default();
            *cur.lock().unwrap() = Some(w.clone());
            bodies
                .iter()
                .map(|b| {
                    let (w, b) = (w.clone(), *b);
                    Box::new(move || b(&w)) as Program
                })
                .collect()
        };
        let check = || {
            let w = cur.lock().unwrap().take().unwrap();
            seen.lock().unwrap().insert((*w.0.read(), *w.1.read(), *w.2.lock()));
            Ok(())
        };
        let r = explore(mode, u64::MAX, Instant::now() + Duration::from_secs(60), &make, &check).map(|s| s.schedules);
        (r, seen.into_inner().unwrap())
    };
    let expect = |what: &str, b: bool| {
        if !b {
            eprintln!("internal error: self-test of the explorer: {what}");
            std::process::exit(3);
        }
    };
    let lost: Body = |w| {
        let v = *w.0.read();
        *w.0.write() = v + 1;
    };
    let both: Body = |w| {
        let a = *w.0.read();
        let b = *w.1.read();
        *w.1.write() = a + 10;
        *w.2.lock() += a + b;
    };
    let cross: Body = |w| {
        let b = *w.1.read();
        *w.0.write() = b + 5;
        let g = w.2.lock();
        *w.1.write() += *g;
    };
    let tried: Body = |w| {
        let g = w.1.read();
        match w.0.try_write() {
            Some(mut x) => *x += *g + 3,
            None => *w.2.lock() += 100,
        }
    };
    let held: Body = |w| {
        let mut g = w.0.write();
        *g += 1;
        *w.1.write() += *g;
    };
    let bodies = [lost, both, cross, tried, held];
    let mut programs: Vec<Vec<Body>> = vec![];
    for i in 0..5 {
        for j in i..5 {
            programs.push(vec![bodies[i], bodies[j]]);
        }
    }
    programs.push(vec![lost, lost, lost]);
    programs.push(vec![lost, tried, held]);
    let (mut saved, mut outcomes) = (0, 0);
    for p in &programs {
        let (full, red) = (run(Mode::Full, p), run(Mode::Reduced, p));
        let (Ok(f), Ok(r)) = (&full.0, &red.0) else {
            // Only the possibility of a deadlock must agree.
            expect("deadlock found by one exploration only", full.0.is_err() && red.0.is_err());
            continue;
        };
        expect("the reduction loses outcomes", full.1 == red.1 && r <= f);
        saved += f - r;
        outcomes += red.1.len();
    }
    let few: Vec<_> = (0..3).map(|b| run(Mode::Bounded(b), &[both, cross])).collect();
    let sizes: Vec<_> = few.iter().map(|r| r.0.clone().unwrap_or(0)).collect();
    expect("more preemptions do not give more schedules", sizes[0] == 2 && sizes[0] < sizes[1] && sizes[1] < sizes[2]);
    expect("no reduction", saved > 0);
    expect("interference is not found", run(Mode::Reduced, &[lost, lost]).1.len() == 2 && outcomes > 30);
    // Lock order inversion.
    let (x, y): (Body, Body) = (
        |w| {
            let _a = w.0.write();
            let _b = w.1.write();
        },
        |w| {
            let _a = w.1.write();
            let _b = w.0.write();
        },
    );
    expect("lock order inversion is not found", run(Mode::Reduced, &[x, y]).0.is_err_and(|e| e.contains("deadlock")));
    // A reader that reads again while a writer waits.
    let again: Body = |w| {
        let _a = w.0.read();
        let _b = w.0.read();
    };
    expect("a harmless program deadlocks", run(Mode::Reduced, &[again, again]).0.is_ok());
    expect("recursive reading is not found", run(Mode::Reduced, &[again, lost]).0.is_err_and(|e| e.contains("deadlock")));
    // A lock that is busy for the time of a single access.
    let busy: Body = |w| {
        if w.0.try_write().is_none() {
            *w.1.write() = 77;
        }
        if w.0.try_read().is_none() {
            *w.2.lock() = 78;
        }
    };
    let reads: Body = |w| {
        let _ = *w.0.read();
    };
    let writes: Body = |w| *w.0.write() = 1;
    for mode in [Mode::Full, Mode::Reduced] {
        let seen = [run(mode, &[busy, reads]).1, run(mode, &[busy, writes]).1];
        expect("a busy lock is not found", seen.iter().all(|s| s.iter().any(|o| o.1 == 77)));
        expect("a busy lock is not found", seen[1].iter().any(|o| o.2 == 78) && seen[0].iter().all(|o| o.2 != 78));
    }
}
