use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

/// Payload of the panics used to tear down a run that was given up (deadlock, step bound).
pub struct AbortToken;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Completed,
    /// No thread can run: what each unfinished thread waits for.
    Deadlock(Vec<(usize, String)>),
    /// The step bound was exceeded.
    StepLimit,
}

#[derive(Clone, Debug)]
pub enum Strategy {
    /// Continue the current thread with probability stick/256, otherwise pick uniformly.
    Random { seed: u64, stick: u32, spurious: bool },
    /// Random priorities with a number of priority drops at random steps (PCT), horizon in steps.
    Priority { seed: u64, changes: usize, horizon: u64, spurious: bool },
    /// Follow these choices (index among the runnable threads), then keep running the current thread.
    Replay { choices: Vec<u16> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Runnable,
    Blocked(u64),
    Finished,
}

struct Th {
    st: St,
    token: bool,
    prio: u64,
    cv: Arc<Condvar>,
    name: String,
    what: &'static str,
}

/// One scheduling decision with more than one candidate.
#[derive(Clone, Debug)]
pub struct Choice {
    pub options: u16,
    pub chosen: u16,
    /// index of the thread that was running among the options, if it could go on
    pub current: Option<u16>,
}

pub struct Inner {
    th: Vec<Th>,
    current: usize,
    steps: u64,
    max_steps: u64,
    abort: Option<Outcome>,
    strat: Strategy,
    rng: Rng,
    changes: Vec<u64>,
    low: u64,
    pub choices: Vec<Choice>,
    record: bool,
    running: bool,
    streak: u64,
}

pub struct Sched {
    m: Mutex<Inner>,
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
}

thread_local! {
    static CUR: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    /// scheduling points this thread passed after its run was torn down
    static PAST: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static SCOPES: RefCell<Vec<Vec<usize>>> = const { RefCell::new(Vec::new()) };
}

pub(crate) fn cur() -> Option<(Arc<Sched>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}

/// Keys for wait conditions that are not tied to an object.
const KEY_JOIN: u64 = 1;
const KEY_PARK: u64 = 1000; // + thread id
const KEY_OBJ: u64 = 1_000_000;

fn lock(m: &Mutex<Inner>) -> MutexGuard<'_, Inner> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

impl Sched {
    pub fn new(strat: Strategy, max_steps: u64, record: bool) -> Arc<Sched> {
        let (seed, changes) = match &strat {
            Strategy::Random { seed, .. } => (*seed, vec![]),
            Strategy::Priority { seed, changes, horizon, .. } => {
                let mut r = Rng::new(seed ^ 0x5555);
                (*seed, (0..*changes).map(|_| r.below(*horizon) + 1).collect())
            }
            Strategy::Replay { .. } => (0, vec![]),
        };
        Arc::new(Sched {
            m: Mutex::new(Inner {
                th: vec![],
                current: 0,
                steps: 0,
                max_steps,
                abort: None,
                strat,
                rng: Rng::new(seed),
                changes,
                low: 1 << 40,
                choices: vec![],
                record,
                running: false,
                streak: 0,
            }),
        })
    }

    /// Runs f as thread 0 of a controlled run. Returns f's result (None if it unwound) and the outcome.
    pub fn run<R>(self: &Arc<Sched>, f: impl FnOnce() -> R) -> (Option<R>, Outcome, Option<Box<dyn std::any::Any + Send>>) {
        let me = self.register("main");
        debug_assert_eq!(me, 0);
        {
            let mut g = lock(&self.m);
            g.current = 0;
            g.running = true;
        }
        CUR.with(|c| *c.borrow_mut() = Some((self.clone(), 0)));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        CUR.with(|c| *c.borrow_mut() = None);
        SCOPES.with(|s| s.borrow_mut().clear());
        let mut g = lock(&self.m);
        g.running = false;
        let out = g.abort.clone().unwrap_or(Outcome::Completed);
        drop(g);
        match r {
            Ok(v) => (Some(v), out, None),
            Err(p) => (None, out, Some(p)),
        }
    }

    pub fn steps(&self) -> u64 {
        lock(&self.m).steps
    }
    pub fn take_choices(&self) -> Vec<Choice> {
        std::mem::take(&mut lock(&self.m).choices)
    }

    fn register(&self, name: &str) -> usize {
        let mut g = lock(&self.m);
        let p = match g.strat {
            Strategy::Priority { .. } => (1 << 41) + g.rng.below(1 << 30),
            _ => 0,
        };
        g.th.push(Th {
            st: St::Runnable,
            token: false,
            prio: p,
            cv: Arc::new(Condvar::new()),
            name: name.to_string(),
            what: "start",
        });
        g.th.len() - 1
    }

    fn aborting(g: &Inner) -> bool {
        g.abort.is_some()
    }

    fn give_up(g: &mut Inner, why: Outcome) {
        if g.abort.is_none() {
            g.abort = Some(why);
        }
        for t in &g.th {
            t.cv.notify_all();
        }
    }

    /// Picks the next thread among the runnable ones; None when there is none.
    fn pick(g: &mut Inner, me: usize) -> Option<usize> {
        let cand: Vec<usize> = (0..g.th.len()).filter(|&i| g.th[i].st == St::Runnable).collect();
        if cand.is_empty() {
            return None;
        }
        if let Some(pos) = g.changes.iter().position(|&s| s == g.steps) {
            g.changes.swap_remove(pos);
            g.low -= 1;
            let l = g.low;
            g.th[me].prio = l;
        }
        if cand.len() == 1 {
            return Some(cand[0]);
        }
        let mypos = cand.iter().position(|&i| i == me);
        let steps = g.steps;
        let n = cand.len() as u64;
        let nchoices = g.choices.len();
        let k = match &g.strat {
            Strategy::Random { stick, .. } => {
                let stick = *stick as u64;
                if mypos.is_some() && g.rng.below(256) < stick {
                    mypos.unwrap()
                } else {
                    g.rng.below(n) as usize
                }
            }
            Strategy::Priority { horizon, .. } => {
                if steps > 4 * *horizon {
                    g.rng.below(n) as usize
                } else {
                    (0..cand.len()).max_by_key(|&i| g.th[cand[i]].prio).unwrap()
                }
            }
            Strategy::Replay { choices } => {
                if nchoices < choices.len() {
                    (choices[nchoices] as usize).min(cand.len() - 1)
                } else if let Some(p) = mypos {
                    // a thread that spins lets the others go on
                    if g.streak > 400 { (p + 1) % cand.len() } else { p }
                } else {
                    0
                }
            }
        };
        if g.record {
            g.choices.push(Choice {
                options: cand.len() as u16,
                chosen: k as u16,
                current: mypos.map(|p| p as u16),
            });
        }
        g.streak = if cand[k] == me { g.streak + 1 } else { 0 };
        Some(cand[k])
    }

    fn wait_turn(self: &Arc<Sched>, mut g: MutexGuard<'_, Inner>, me: usize) -> bool {
        let cv = g.th[me].cv.clone();
        while g.current != me && !Self::aborting(&g) {
            g = cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        Self::aborting(&g)
    }

    fn handoff(g: &mut Inner, next: usize) {
        g.current = next;
        g.th[next].cv.notify_one();
    }

    /// A scheduling point. Returns false when the run is being torn down.
    fn point(self: &Arc<Sched>, me: usize) -> bool {
        let mut g = lock(&self.m);
        if Self::aborting(&g) {
            return false;
        }
        g.steps += 1;
        if g.steps > g.max_steps {
            Self::give_up(&mut g, Outcome::StepLimit);
            return false;
        }
        match Self::pick(&mut g, me) {
            Some(n) if n != me => {
                Self::handoff(&mut g, n);
                !self.wait_turn(g, me)
            }
            _ => true,
        }
    }

    fn block(self: &Arc<Sched>, me: usize, key: u64, what: &'static str) -> bool {
        let mut g = lock(&self.m);
        if Self::aborting(&g) {
            return false;
        }
        g.steps += 1;
        if g.steps > g.max_steps {
            Self::give_up(&mut g, Outcome::StepLimit);
            return false;
        }
        g.th[me].st = St::Blocked(key);
        g.th[me].what = what;
        match Self::pick(&mut g, me) {
            Some(n) => {
                Self::handoff(&mut g, n);
                !self.wait_turn(g, me)
            }
            None => {
                let d = Self::describe(&g);
                Self::give_up(&mut g, Outcome::Deadlock(d));
                false
            }
        }
    }

    fn describe(g: &Inner) -> Vec<(usize, String)> {
        g.th.iter()
            .enumerate()
            .filter(|(_, t)| t.st != St::Finished)
            .map(|(i, t)| (i, format!("{}: {}", t.name, t.what)))
            .collect()
    }

    fn wake(&self, key: u64) {
        let mut g = lock(&self.m);
        for t in g.th.iter_mut() {
            if t.st == St::Blocked(key) {
                t.st = St::Runnable;
            }
        }
    }

    fn finish(self: &Arc<Sched>, me: usize) {
        let mut g = lock(&self.m);
        g.th[me].st = St::Finished;
        for t in g.th.iter_mut() {
            if t.st == St::Blocked(KEY_JOIN) {
                t.st = St::Runnable;
            }
        }
        if Self::aborting(&g) {
            return;
        }
        match Self::pick(&mut g, me) {
            Some(n) => Self::handoff(&mut g, n),
            None => {
                let d = Self::describe(&g);
                if !d.is_empty() {
                    Self::give_up(&mut g, Outcome::Deadlock(d));
                }
            }
        }
    }
}

/// Called where a run that is torn down must not go on.
fn teardown() {
    if !std::thread::panicking() {
        std::panic::panic_any(AbortToken);
    }
}

/// A scheduling point that may stop the thread when the run is torn down.
pub fn point() {
    if let Some((s, me)) = cur() {
        if !s.point(me) {
            teardown();
        }
    }
}

/// A scheduling point for operations used in destructors: does not unwind, unless the run was torn down and
/// the thread goes on and on all the same.
pub fn soft_point() {
    if let Some((s, me)) = cur() {
        if !s.point(me) {
            let n = PAST.with(|p| {
                p.set(p.get() + 1);
                p.get()
            });
            if n > 2000 {
                teardown();
            }
        }
    }
}

/// A hint that the current thread spins: under priority scheduling it drops to the lowest priority.
pub fn spin_hint() {
    if let Some((s, me)) = cur() {
        let mut g = lock(&s.m);
        g.low -= 1;
        let l = g.low;
        g.th[me].prio = l;
    }
}

pub fn controlled() -> bool {
    CUR.try_with(|c| c.borrow().is_some()).unwrap_or(false)
}

pub(crate) fn new_key() -> u64 {
    static KEYS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(KEY_OBJ);
    KEYS.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}

/// Blocks on a key until someone wakes it. Returns false when the run is torn down and the thread is
/// already unwinding (the caller must return an error).
pub(crate) fn block_on(key: u64, what: &'static str) -> bool {
    let (s, me) = cur().expect("block_on outside of a controlled run");
    if !s.block(me, key, what) {
        teardown();
        return false;
    }
    true
}

/// As block_on, for locks used in destructors: never unwinds, returns false on teardown.
pub(crate) fn soft_block_on(key: u64, what: &'static str) -> bool {
    let (s, me) = cur().expect("block_on outside of a controlled run");
    s.block(me, key, what)
}

pub(crate) fn wake(key: u64) {
    if let Some((s, _)) = cur() {
        s.wake(key);
    }
}

/// Gives the run up as one that does not end, and ends this thread.
pub fn endless() {
    if let Some((s, _)) = cur() {
        Sched::give_up(&mut lock(&s.m), Outcome::StepLimit);
        teardown();
    }
}

pub fn torn_down() -> bool {
    match cur() {
        Some((s, _)) => Sched::aborting(&lock(&s.m)),
        None => false,
    }
}

pub(crate) fn park_current() {
    let (s, me) = cur().unwrap();
    if !s.point(me) {
        teardown();
        return;
    }
    {
        let mut g = lock(&s.m);
        if g.th[me].token {
            g.th[me].token = false;
            return;
        }
        let spurious = match g.strat {
            Strategy::Random { spurious, .. } | Strategy::Priority { spurious, .. } => spurious,
            _ => false,
        };
        if spurious && g.rng.below(8) == 0 {
            return;
        }
    }
    if !s.block(me, KEY_PARK + me as u64, "park") {
        teardown();
        return;
    }
    lock(&s.m).th[me].token = false;
}

pub(crate) fn unpark(s: &Arc<Sched>, tid: usize) {
    if controlled() {
        soft_point();
    }
    let mut g = lock(&s.m);
    g.th[tid].token = true;
    if g.th[tid].st == St::Blocked(KEY_PARK + tid as u64) {
        g.th[tid].st = St::Runnable;
    }
}

pub(crate) fn push_scope() {
    SCOPES.with(|s| s.borrow_mut().push(vec![]));
}

pub(crate) fn join_scope() {
    let kids = SCOPES.with(|s| s.borrow_mut().pop()).unwrap_or_default();
    if let Some((s, me)) = cur() {
        loop {
            let done = {
                let g = lock(&s.m);
                kids.iter().all(|&k| g.th[k].st == St::Finished)
            };
            if done {
                return;
            }
            if !s.block(me, KEY_JOIN, "join") {
                return; // torn down: the real join happens in std::thread::scope
            }
        }
    }
}

/// Registers a child of the current thread; the returned closure wrapper must be run on the new thread.
pub(crate) fn adopt<F, T>(name: Option<&str>, f: F) -> impl FnOnce() -> T
where
    F: FnOnce() -> T,
{
    let ctl = cur().map(|(s, _)| {
        let tid = s.register(name.unwrap_or("thread"));
        SCOPES.with(|sc| {
            if let Some(top) = sc.borrow_mut().last_mut() {
                top.push(tid)
            }
        });
        (s, tid)
    });
    move || match ctl {
        None => f(),
        Some((s, tid)) => {
            CUR.with(|c| *c.borrow_mut() = Some((s.clone(), tid)));
            let g = lock(&s.m);
            let gone = s.wait_turn(g, tid);
            let r = if gone {
                Err(Box::new(AbortToken) as Box<dyn std::any::Any + Send>)
            } else {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
            };
            s.finish(tid);
            CUR.with(|c| *c.borrow_mut() = None);
            match r {
                Ok(v) => v,
                Err(p) => std::panic::resume_unwind(p),
            }
        }
    }
}

/// Enumerates schedules of a deterministic program depth first with a bound on preemptions
/// (switches away from a thread that could have gone on).
pub struct Dfs {
    stack: Vec<Choice>,
    started: bool,
    pub bound: usize,
}

impl Dfs {
    pub fn new(bound: usize) -> Dfs {
        Dfs { stack: vec![], started: false, bound }
    }
    /// The next choice prefix, or None when the space is exhausted.
    pub fn next(&mut self) -> Option<Vec<u16>> {
        if !self.started {
            self.started = true;
            return Some(vec![]);
        }
        while let Some(last) = self.stack.pop() {
            let used = Self::preemptions(&self.stack);
            let order = Self::order(&last);
            let at = order.iter().position(|&o| o == last.chosen).unwrap();
            for &o in &order[at + 1..] {
                let cost = usize::from(last.current.is_some() && last.current != Some(o));
                if used + cost <= self.bound {
                    self.stack.push(Choice { chosen: o, ..last.clone() });
                    return Some(self.stack.iter().map(|c| c.chosen).collect());
                }
            }
        }
        None
    }
    fn order(c: &Choice) -> Vec<u16> {
        let first = c.current.unwrap_or(0);
        let mut v = vec![first];
        v.extend((0..c.options).filter(|&o| o != first));
        v
    }
    fn preemptions(st: &[Choice]) -> usize {
        st.iter().filter(|c| c.current.is_some() && c.current != Some(c.chosen)).count()
    }
    pub fn done(&mut self, choices: Vec<Choice>) {
        self.stack = choices;
    }
}

