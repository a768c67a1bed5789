//! A controlled scheduler. Exactly one of the threads of an execution runs at
//! any time. Before every visible operation (lock acquisition, release of a
//! lock that was held across other operations, boundary of an API call) a
//! thread publishes the operation and the scheduler decides who continues.

use std::{
    cell::{Cell, RefCell},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, AtomicU8, Ordering::SeqCst},
        Arc, Condvar, Mutex,
    },
    time::Duration,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Read,
    ReadAgain,
    Upgradable,
    Write,
}

const WRITER: u64 = 1 << 63;
const UPG: u64 = 1 << 62;
const READERS: u64 = UPG - 1;

/// What a thread is about to do.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum What {
    Start,
    /// Boundary of an API call; `true` if the call is not read-only.
    Call(bool),
    Acquire(Kind),
    /// The writer waits for the readers to leave.
    Drain,
    /// Never blocks.
    Try(Kind),
    /// An upgradable reader becomes the writer, which is possible at once.
    Upgrade,
    Release(Kind),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Op {
    pub what: What,
    /// Number of the lock, in the order of appearance in the execution.
    pub lock: u64,
}

impl Op {
    pub fn writes(&self) -> bool {
        match self.what {
            What::Start => false,
            What::Call(m) => m,
            What::Acquire(k) | What::Try(k) | What::Release(k) => !matches!(k, Kind::Read | Kind::ReadAgain),
            What::Drain | What::Upgrade => true,
        }
    }
    /// Whether the order of two operations of different threads matters.
    pub fn depends(&self, o: &Op) -> bool {
        self.what != What::Start && o.what != What::Start && self.lock == o.lock && (self.writes() || o.writes())
    }
    pub fn text(&self) -> String {
        match self.what {
            What::Start => "start".into(),
            What::Call(_) => "call boundary".into(),
            w => format!("{w:?} lock {}", self.lock),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Step {
    pub chosen: usize,
    pub enabled: u32,
    pub pending: [Option<Op>; 4],
    /// Threads whose next operation was fully explored from here before.
    pub sleep: u32,
}

#[derive(Default)]
struct State {
    pending: Vec<Option<(Op, usize)>>,
    done: Vec<bool>,
    stuck: Vec<bool>,
    current: Option<usize>,
    prefix: Vec<(usize, u32)>,
    trace: Vec<Step>,
    sleep: u32,
    /// Length of the trace when everything enabled was asleep.
    redundant: Option<usize>,
    panics: Vec<Option<String>>,
    end: Option<End>,
    steps: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Finished,
    Deadlock,
    TooLong,
    /// The prefix could not be followed.
    Diverged,
}

pub struct Exec {
    st: Mutex<State>,
    cv: Vec<Condvar>,
    main: Condvar,
    locks: AtomicU64,
    epoch: u64,
    releases: u8,
    /// The visible releases that would have been needed.
    needed: AtomicU8,
}

pub struct Outcome {
    pub end: End,
    pub trace: Vec<Step>,
    pub redundant: Option<usize>,
    pub panics: Vec<Option<String>>,
    pub blocked: Vec<Option<Op>>,
    pub needed: u8,
}

const MAX_STEPS: usize = 100_000;

/// Releases that are visible even if the lock was held for a single access:
/// it matters to others how long that takes if they do not wait for it.
pub const NO_RELEASE: u8 = 0;
pub const WRITE_RELEASES: u8 = 1;
pub const ALL_RELEASES: u8 = 2;

thread_local! {
    static ME: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

fn me() -> Option<(Arc<Exec>, usize)> {
    ME.try_with(|m| m.borrow().clone()).ok().flatten()
}

impl Exec {
    fn point(&self, t: usize, op: Op, addr: usize) {
        COUNT.with(|c| c.set(c.get() + 1));
        if let What::Try(k) = op.what {
            let shared = matches!(k, Kind::Read | Kind::ReadAgain);
            self.needed.fetch_max(if shared { WRITE_RELEASES } else { ALL_RELEASES }, SeqCst);
        }
        let mut g = self.st.lock().unwrap();
        g.pending[t] = Some((op, addr));
        if g.stuck[t] {
            g.stuck[t] = false;
            if g.current.is_none() {
                self.pick(&mut g);
            }
        } else {
            self.pick(&mut g);
        }
        while g.current != Some(t) {
            g = self.cv[t].wait(g).unwrap();
        }
    }

    /// Decides who runs next.
    fn pick(&self, g: &mut State) {
        let n = g.pending.len();
        g.steps += 1;
        let mut enabled = 0u32;
        for t in 0..n {
            if let (Some((op, addr)), false) = (&g.pending[t], g.done[t]) {
                if enabled_op(op, *addr) {
                    enabled |= 1 << t;
                }
            }
        }
        if enabled == 0 {
            g.current = None;
            if g.done.iter().all(|d| *d) {
                g.end = Some(End::Finished);
                self.main.notify_all();
            } else if g.stuck.iter().zip(&g.done).any(|(s, d)| *s && !*d) {
                // Wait for the thread that blocks elsewhere.
            } else {
                g.end = Some(End::Deadlock);
                self.main.notify_all();
            }
            return;
        }
        if g.trace.len() >= MAX_STEPS {
            g.end = Some(End::TooLong);
            g.current = None;
            self.main.notify_all();
            return;
        }
        let i = g.trace.len();
        let chosen = if i < g.prefix.len() {
            let (c, s) = g.prefix[i];
            g.sleep = s;
            if enabled & (1 << c) == 0 {
                g.end = Some(End::Diverged);
                g.current = None;
                self.main.notify_all();
                return;
            }
            c
        } else {
            let last = g.trace.last().map(|s| s.chosen);
            let free = enabled & !g.sleep;
            if free == 0 {
                g.redundant.get_or_insert(i);
            }
            let set = if free == 0 { enabled } else { free };
            match last {
                Some(l) if set & (1 << l) != 0 => l,
                _ => set.trailing_zeros() as usize,
            }
        };
        let mut pending = [None; 4];
        for (t, p) in g.pending.iter().enumerate() {
            pending[t] = p.map(|p| p.0);
        }
        let op = pending[chosen].unwrap();
        g.trace.push(Step { chosen, enabled, pending, sleep: g.sleep });
        // Sleeping threads wake up when something happens that matters to them.
        let mut s = 0;
        for (t, p) in pending.iter().enumerate() {
            if t != chosen && g.sleep & (1 << t) != 0 && p.map_or(false, |p| !p.depends(&op)) {
                s |= 1 << t;
            }
        }
        g.sleep = s;
        g.pending[chosen] = None;
        g.current = Some(chosen);
        self.cv[chosen].notify_all();
    }
}

fn enabled_op(op: &Op, addr: usize) -> bool {
    if addr == 0 {
        return true;
    }
    // The thread is suspended inside an operation on this lock.
    let s = unsafe { (*(addr as *const Lock)).state.load(SeqCst) };
    match op.what {
        What::Acquire(k) => free_for(k, s),
        What::Drain => s & READERS == 0,
        _ => true,
    }
}

fn free_for(k: Kind, s: u64) -> bool {
    match k {
        Kind::Read => s & WRITER == 0,
        Kind::ReadAgain => s & WRITER == 0 || s & READERS > 0,
        Kind::Upgradable | Kind::Write => s & (WRITER | UPG) == 0,
    }
}

/// Runs the programs under one schedule: the given choices (with the threads
/// asleep at each of them), then without preemptions.
pub fn execute(programs: Vec<Box<dyn FnOnce() + Send>>, prefix: Vec<(usize, u32)>, sleep: u32, releases: u8) -> Outcome {
    static EPOCH: AtomicU64 = AtomicU64::new(1);
    let n = programs.len();
    assert!(n <= 4);
    let ex = Arc::new(Exec {
        st: Mutex::new(State {
            pending: (0..n).map(|_| Some((Op { what: What::Start, lock: 0 }, 0))).collect(),
            done: vec![false; n],
            stuck: vec![false; n],
            panics: vec![None; n],
            prefix,
            sleep,
            ..State::default()
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        main: Condvar::new(),
        locks: AtomicU64::new(1),
        epoch: EPOCH.fetch_add(1, SeqCst),
        releases,
        needed: AtomicU8::new(NO_RELEASE),
    });
    for (t, p) in programs.into_iter().enumerate() {
        let ex = ex.clone();
        let run = move || {
            ME.with(|m| *m.borrow_mut() = Some((ex.clone(), t)));
            {
                let mut g = ex.st.lock().unwrap();
                while g.current != Some(t) {
                    g = ex.cv[t].wait(g).unwrap();
                }
            }
            let r = catch_unwind(AssertUnwindSafe(p));
            ME.with(|m| *m.borrow_mut() = None);
            let mut g = ex.st.lock().unwrap();
            if r.is_err() {
                g.panics[t] = Some(panic_text());
            }
            g.done[t] = true;
            let was_stuck = std::mem::replace(&mut g.stuck[t], false);
            if !was_stuck || g.current.is_none() {
                ex.pick(&mut g);
            }
        };
        pool(Box::new(run));
    }
    let mut g = ex.st.lock().unwrap();
    ex.pick(&mut g);
    let (mut seen, mut idle) = (g.steps, 0);
    while g.end.is_none() {
        let (g2, to) = ex.main.wait_timeout(g, Duration::from_secs(2)).unwrap();
        g = g2;
        if g.end.is_none() && to.timed_out() {
            if g.steps != seen {
                (seen, idle) = (g.steps, 0);
                continue;
            }
            idle += 1;
            if idle > 10 {
                g.end = Some(End::TooLong);
            } else if let Some(c) = g.current {
                // It blocks on something that is not controlled here.
                g.stuck[c] = true;
                g.redundant = Some(0);
                g.current = None;
                ex.pick(&mut g);
            }
        }
    }
    Outcome {
        end: g.end.clone().unwrap(),
        trace: std::mem::take(&mut g.trace),
        redundant: g.redundant,
        panics: g.panics.clone(),
        blocked: g.pending.iter().map(|p| p.map(|p| p.0)).collect(),
        needed: ex.needed.load(SeqCst),
    }
}

type Job = Box<dyn FnOnce() + Send>;

/// Runs a job on an idle thread of the pool or a new one.
fn pool(job: Job) {
    static IDLE: Mutex<Vec<std::sync::mpsc::Sender<Job>>> = Mutex::new(Vec::new());
    let w = IDLE.lock().unwrap().pop();
    match w {
        Some(w) => w.send(job).unwrap(),
        None => {
            let (tx, rx) = std::sync::mpsc::channel::<Job>();
            tx.send(job).unwrap();
            std::thread::Builder::new()
                .stack_size(1 << 21)
                .spawn(move || {
                    for job in &rx {
                        job();
                        IDLE.lock().unwrap().push(tx.clone());
                    }
                })
                .unwrap();
        }
    }
}

thread_local!(static PANIC: RefCell<String> = const { RefCell::new(String::new()) });

/// To be called by the panic hook.
pub fn note_panic(s: String) {
    let _ = PANIC.try_with(|p| *p.borrow_mut() = s);
}

fn panic_text() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// A boundary of an API call.
pub fn boundary(mutates: bool) {
    if let Some((ex, t)) = me() {
        ex.point(t, Op { what: What::Call(mutates), lock: 0 }, 0);
    }
}

/// A reader-writer lock.
pub struct Lock {
    state: AtomicU64,
    /// Epoch of the execution (high half) and number in it.
    id: AtomicU64,
}

thread_local!(static READ_SINCE: RefCell<Vec<(usize, u64)>> = const { RefCell::new(Vec::new()) });

impl Lock {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Lock {
        Lock { state: AtomicU64::new(0), id: AtomicU64::new(0) }
    }

    fn addr(&self) -> usize {
        self as *const Lock as usize
    }

    fn number(&self, ex: &Exec) -> u64 {
        let id = self.id.load(SeqCst);
        if id >> 20 == ex.epoch {
            return id & 0xfffff;
        }
        let n = ex.locks.fetch_add(1, SeqCst);
        self.id.store(ex.epoch << 20 | n, SeqCst);
        n
    }

    fn take(&self, k: Kind) {
        match k {
            Kind::Read | Kind::ReadAgain => self.state.fetch_add(1, SeqCst),
            Kind::Upgradable => self.state.fetch_add(1 | UPG, SeqCst),
            Kind::Write => self.state.fetch_or(WRITER, SeqCst),
        };
    }

    fn held(&self) {
        let n = COUNT.with(|c| c.get());
        let _ = READ_SINCE.try_with(|r| r.borrow_mut().push((self.addr(), n)));
    }

    /// Waits until the readers are gone; the writer bit is set.
    fn drain(&self, ctl: &Option<(Arc<Exec>, usize)>) {
        if self.state.load(SeqCst) & READERS != 0 {
            match ctl {
                Some((ex, t)) => ex.point(*t, Op { what: What::Drain, lock: self.number(ex) }, self.addr()),
                None => {
                    while self.state.load(SeqCst) & READERS != 0 {
                        std::thread::yield_now();
                    }
                }
            }
        }
    }

    pub fn acquire(&self, k: Kind) {
        let ctl = me();
        match &ctl {
            Some((ex, t)) => ex.point(*t, Op { what: What::Acquire(k), lock: self.number(ex) }, self.addr()),
            None => {
                while !free_for(k, self.state.load(SeqCst)) {
                    std::thread::yield_now();
                }
            }
        }
        self.take(k);
        if k == Kind::Write {
            self.drain(&ctl);
        }
        self.held();
    }

    pub fn try_acquire(&self, k: Kind) -> bool {
        if let Some((ex, t)) = me() {
            ex.point(t, Op { what: What::Try(k), lock: self.number(&ex) }, self.addr());
        }
        let s = self.state.load(SeqCst);
        if !free_for(k, s) || (k == Kind::Write && s & READERS != 0) {
            return false;
        }
        self.take(k);
        self.held();
        true
    }

    pub fn release(&self, k: Kind) {
        // Threads that wait for the lock can tell when it is released only if
        // something happened in between.
        let since = READ_SINCE
            .try_with(|r| {
                let mut r = r.borrow_mut();
                r.iter().rposition(|x| x.0 == self.addr()).map(|i| r.remove(i).1)
            })
            .ok()
            .flatten();
        if let Some((ex, t)) = me() {
            let shared = matches!(k, Kind::Read | Kind::ReadAgain);
            let visible = ex.releases == ALL_RELEASES || (ex.releases == WRITE_RELEASES && !shared);
            if visible || since != Some(COUNT.with(|c| c.get())) {
                ex.point(t, Op { what: What::Release(k), lock: self.number(&ex) }, self.addr());
            }
        }
        match k {
            Kind::Read | Kind::ReadAgain => self.state.fetch_sub(1, SeqCst),
            Kind::Upgradable => self.state.fetch_sub(1 | UPG, SeqCst),
            Kind::Write => self.state.fetch_and(!WRITER, SeqCst),
        };
    }

    pub fn downgrade(&self, from: Kind, to: Kind) {
        if let Some((ex, t)) = me() {
            ex.point(t, Op { what: What::Release(from), lock: self.number(&ex) }, self.addr());
        }
        match from {
            Kind::Write => self.state.fetch_and(!WRITER, SeqCst),
            _ => self.state.fetch_sub(1 | UPG, SeqCst),
        };
        self.take(to);
    }

    pub fn upgrade(&self) {
        let ctl = me();
        if let Some((ex, t)) = &ctl {
            ex.point(*t, Op { what: What::Upgrade, lock: self.number(ex) }, self.addr());
        }
        self.state.fetch_sub(1 | UPG, SeqCst);
        self.state.fetch_or(WRITER, SeqCst);
        self.drain(&ctl);
    }

    pub fn try_upgrade(&self) -> bool {
        if let Some((ex, t)) = me() {
            ex.point(t, Op { what: What::Try(Kind::Write), lock: self.number(&ex) }, self.addr());
        }
        if self.state.load(SeqCst) & READERS != 1 {
            return false;
        }
        self.state.fetch_sub(1 | UPG, SeqCst);
        self.state.fetch_or(WRITER, SeqCst);
        true
    }

    pub fn peek(&self, exclusive: bool) -> bool {
        if let Some((ex, t)) = me() {
            let k = if exclusive { Kind::Read } else { Kind::Write };
            ex.point(t, Op { what: What::Try(k), lock: self.number(&ex) }, self.addr());
        }
        let s = self.state.load(SeqCst);
        s & WRITER != 0 || (!exclusive && s & READERS != 0)
    }
}
