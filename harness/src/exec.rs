//! Builds a program on the real crate, runs it once under a strategy and records what happened.
use crate::prog::*;
use crate::w::W;
use dam::channel::adapters::{RecvAdapter, SendAdapter};
use dam::channel::utils::{EventCollection, EventTime, Peekable};
use dam::channel::{ChannelElement, ChannelID, PeekResult};
use dam::context::{ContextSummary, ExplicitConnections, ProxyContext};
use dam::context_tools::*;
use dam::simulation::*;
use dam::structures::{
    Identifiable, Identifier, ParentView, Time, TimeManager, TimeView, TimeViewable, VerboseIdentifier,
};
use dam::types::Cleanable;
use dam::templates::datastore::Behavior;
use dam::templates::ops::{ALUAddOp, ALUMulOp, ALUOp, ALUSubOp, PipelineRegister};
use dam::templates::pcu::{PCUConfig, PipelineStage, PCU};
use dam::templates::pmu::{PMUReadBundle, PMUWriteBundle, PMU};
use dam::utility_contexts::*;
use dam_verif_rt::sched::{AbortToken, Choice, Outcome, Sched, Strategy};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

pub type Views = Arc<Vec<OnceLock<TimeView>>>;

pub struct Exec {
    ops: Vec<Op>,
    adapt_s: Vec<bool>,
    adapt_r: Vec<bool>,
    snd: BTreeMap<usize, Sender<W>>,
    rcv: BTreeMap<usize, Receiver<W>>,
    views: Views,
    under: Arc<Vec<Vec<usize>>>,
    log: Arc<Mutex<Vec<Rec>>>,
    pend: Arc<Mutex<Option<Rec>>>,
    seq: Arc<AtomicI64>,
    bits: u32,
    last: i64,
}

fn resolve(t: Tm, tick: u64) -> u64 {
    match t {
        Tm::Abs(a) => a,
        Tm::Rel(d) => tick + d,
    }
}

/// Ends a context that goes on for ever, instead of letting its log fill the memory.
fn keep(log: &Mutex<Vec<Rec>>, r: Rec) {
    let mut g = log.lock().unwrap();
    g.push(r);
    let many = g.len() > 3000;
    drop(g);
    if dam_verif_rt::sched::torn_down() {
        std::panic::panic_any(dam_verif_rt::sched::AbortToken);
    }
    if many {
        dam_verif_rt::sched::endless();
        loop {
            std::thread::sleep(std::time::Duration::from_secs(3600));
        }
    }
}

impl Exec {
    fn begin(&self, op: &str, ch: i64, time: &TimeManager) -> Rec {
        let c = time.tick();
        let r = Rec {
            op: op.into(),
            ch: ch + 1,
            chs: vec![],
            n: 0,
            v: 0,
            t: 0,
            inf: c.is_infinite(),
            res: "ok".into(),
            c0: c.time() as i64,
            c1: 0,
            s0: self.seq.fetch_add(1, Ordering::SeqCst),
            s1: 0,
        };
        *self.pend.lock().unwrap() = Some(r.clone());
        r
    }
    /// An operation on several channels or views.
    fn begin_on(&self, op: &str, chs: &[usize], n: u64, time: &TimeManager) -> Rec {
        let mut r = self.begin(op, -1, time);
        r.chs = chs.iter().map(|c| *c as i64 + 1).collect();
        r.n = n as i64;
        *self.pend.lock().unwrap() = Some(r.clone());
        r
    }
    fn done(&self, mut r: Rec, time: &TimeManager) {
        r.s1 = self.seq.fetch_add(1, Ordering::SeqCst);
        r.c1 = time.tick().time() as i64;
        keep(&self.log, r);
        *self.pend.lock().unwrap() = None;
    }
    fn enq(&mut self, ch: usize, q: u64, v: i64, time: &TimeManager) {
        let mut r = self.begin("enq", ch as i64, time);
        r.n = q as i64;
        r.v = v;
        let s = &self.snd[&ch];
        let res = if self.adapt_s[ch] {
            SendAdapter::<i32>::enqueue(s, time, ChannelElement::new(Time::new(q), v as i32))
        } else {
            s.enqueue(time, ChannelElement::new(Time::new(q), W { v, bits: self.bits }))
        };
        if res.is_err() {
            r.res = "closed".into();
        }
        self.done(r, time);
    }
    fn recv(&mut self, name: &str, ch: usize, time: &TimeManager) -> bool {
        let mut r = self.begin(name, ch as i64, time);
        let x = &self.rcv[&ch];
        let got = if self.adapt_r[ch] {
            let g = if name == "deq" {
                RecvAdapter::<i32>::dequeue(x, time)
            } else {
                RecvAdapter::<i32>::peek_next(x, time)
            };
            g.map(|e| (e.time, e.data as i64))
        } else {
            let g = if name == "deq" { x.dequeue(time) } else { x.peek_next(time) };
            g.map(|e| (e.time, e.data.v))
        };
        let ok = match got {
            Ok((t, v)) => {
                r.t = t.time() as i64;
                r.inf = r.inf || t.is_infinite();
                r.v = v;
                if name == "deq" {
                    self.last = v;
                }
                true
            }
            Err(_) => {
                r.res = "closed".into();
                false
            }
        };
        self.done(r, time);
        ok
    }
    fn event(&self, kind: u8, chs: &[usize]) -> EventTime {
        match kind {
            0 => (&self.rcv[&chs[0]]).next_event(),
            1 => chs.iter().map(|c| &self.rcv[c]).collect::<Vec<_>>().all_events().next_event(),
            _ => chs.iter().map(|c| &self.rcv[c]).collect::<Vec<_>>().any_event().next_event(),
        }
    }
    /// The contexts whose clocks a view of these contexts and composites follows.
    fn leaves(&self, on: &[usize]) -> Vec<usize> {
        let mut v: Vec<usize> = on.iter().flat_map(|d| self.under[*d].iter().copied()).collect();
        v.sort();
        v.dedup();
        v
    }
    fn view(&self, on: &[usize]) -> TimeView {
        if on.len() == 1 {
            self.views[on[0]].get().unwrap().clone()
        } else {
            ParentView { child_views: on.iter().map(|d| self.views[*d].get().unwrap().clone()).collect() }.into()
        }
    }

    /// Runs the script; Err when it fails deliberately.
    pub fn run(&mut self, time: &mut TimeManager) -> anyhow::Result<()> {
        let ops = std::mem::take(&mut self.ops);
        for op in &ops {
            match op {
                Op::Enq { ch, q, v } => {
                    let q = resolve(*q, time.tick().time());
                    self.enq(*ch, q, *v, time)
                }
                Op::Fwd { ch, q, d } => {
                    let q = resolve(*q, time.tick().time());
                    let v = self.last + d;
                    self.enq(*ch, q, v, time)
                }
                Op::Deq { ch } => {
                    self.recv("deq", *ch, time);
                }
                Op::Pkn { ch } => {
                    self.recv("pkn", *ch, time);
                }
                Op::Pk { ch } => {
                    let mut r = self.begin("pk", *ch as i64, time);
                    let x = &self.rcv[ch];
                    let p: PeekResult<i64> = if self.adapt_r[*ch] {
                        match RecvAdapter::<i32>::peek(x) {
                            PeekResult::Something(e) => {
                                PeekResult::Something(ChannelElement::new(e.time, e.data as i64))
                            }
                            PeekResult::Nothing(t) => PeekResult::Nothing(t),
                            PeekResult::Closed => PeekResult::Closed,
                        }
                    } else {
                        match x.peek() {
                            PeekResult::Something(e) => PeekResult::Something(ChannelElement::new(e.time, e.data.v)),
                            PeekResult::Nothing(t) => PeekResult::Nothing(t),
                            PeekResult::Closed => PeekResult::Closed,
                        }
                    };
                    match p {
                        PeekResult::Something(e) => {
                            r.t = e.time.time() as i64;
                            r.inf |= e.time.is_infinite();
                            r.v = e.data;
                        }
                        PeekResult::Nothing(t) => {
                            // -1: nothing until the end of time, which is not what a closed channel says
                            r.res = "none".into();
                            r.t = if t.is_infinite() { -1 } else { t.time() as i64 };
                        }
                        PeekResult::Closed => r.res = "closed".into(),
                    }
                    self.done(r, time);
                }
                Op::Wav { ch } => {
                    let mut r = self.begin("wav", *ch as i64, time);
                    let s = &self.snd[ch];
                    let res = if self.adapt_s[*ch] {
                        SendAdapter::<i32>::wait_until_available(s, time)
                    } else {
                        s.wait_until_available(time)
                    };
                    if res.is_err() {
                        r.res = "closed".into();
                    }
                    self.done(r, time);
                }
                Op::Inc { n } => {
                    let mut r = self.begin("inc", -1, time);
                    r.n = *n as i64;
                    time.incr_cycles(*n);
                    self.done(r, time);
                }
                Op::Adv { n } => {
                    let n = resolve(*n, time.tick().time());
                    let mut r = self.begin("adv", -1, time);
                    r.n = n as i64;
                    time.advance(Time::new(n));
                    self.done(r, time);
                }
                Op::DropS { ch } => {
                    let r = self.begin("dropS", *ch as i64, time);
                    self.snd.remove(ch);
                    self.done(r, time);
                }
                Op::DropR { ch } => {
                    let r = self.begin("dropR", *ch as i64, time);
                    self.rcv.remove(ch);
                    self.done(r, time);
                }
                Op::Ev { kind, chs } => {
                    let mut r = self.begin_on(["ev1", "evall", "evany"][*kind as usize], chs, 0, time);
                    match self.event(*kind, chs) {
                        EventTime::Ready(t) => {
                            r.t = t.time() as i64;
                            r.inf |= t.is_infinite();
                        }
                        EventTime::Nothing(t) => {
                            // -1: nothing until the end of time, which is not what a closed channel says
                            r.res = "none".into();
                            r.t = if t.is_infinite() { -1 } else { t.time() as i64 };
                        }
                        EventTime::Closed => r.res = "closed".into(),
                    }
                    self.done(r, time);
                }
                Op::Wait { on, n } => {
                    let n = resolve(*n, time.tick().time());
                    let mut r = self.begin_on("wait", &self.leaves(on), n, time);
                    let t = self.view(on).wait_until(Time::new(n));
                    r.t = t.time() as i64;
                    r.res = if t.is_infinite() { "inf".into() } else { "ok".into() };
                    self.done(r, time);
                }
                Op::Tlb { on } => {
                    let mut r = self.begin_on("tlb", &self.leaves(on), 0, time);
                    let t = self.view(on).tick_lower_bound();
                    r.t = t.time() as i64;
                    r.res = if t.is_infinite() { "inf".into() } else { "ok".into() };
                    self.done(r, time);
                }
                Op::Fail { kind } => {
                    let mut r = self.begin("fail", -1, time);
                    r.n = *kind as i64;
                    self.done(r, time);
                    if *kind == 0 {
                        anyhow::bail!("deliberate failure");
                    } else {
                        std::panic::panic_any("deliberate failure");
                    }
                }
                Op::Yield => dam::shim::yield_now(),
                Op::Merge { chs, outs, q, inc } => self.merge(chs, outs, *q, *inc, time),
                Op::Drain { ch, outs, q, inc } => {
                    while self.recv("deq", *ch, time) {
                        for o in outs {
                            let qq = resolve(*q, time.tick().time());
                            let v = self.last;
                            self.enq(*o, qq, v, time);
                        }
                        if *inc > 0 {
                            let mut r = self.begin("inc", -1, time);
                            r.n = *inc as i64;
                            time.incr_cycles(*inc);
                            self.done(r, time);
                        }
                    }
                }
                Op::Cleanup => {
                    let mut r = self.begin("cleanup", -1, time);
                    time.cleanup();
                    r.s1 = self.seq.fetch_add(1, Ordering::SeqCst);
                    r.c1 = time.tick().time() as i64;
                    keep(&self.log, r);
                }
                Op::Log { ty, n, cb } => {
                    let mut r = self.begin("log", -1, time);
                    r.v = *ty as i64;
                    r.n = *n;
                    r.chs = vec![*cb as i64];
                    let before = crate::logev::CALLED.with(|c| c.get());
                    if crate::logev::log(*ty, *n, *cb).is_err() {
                        r.res = "error".into();
                    }
                    r.t = crate::logev::CALLED.with(|c| c.get()) - before;
                    self.done(r, time)
                }
            }
        }
        let r = self.begin("end", -1, time);
        self.done(r, time);
        Ok(())
    }

    fn merge(&mut self, chs: &[usize], outs: &[Option<usize>], q: Tm, inc: u64, time: &TimeManager) {
        loop {
            let r = self.begin_on("sel", chs, 0, time);
            let best = chs
                .iter()
                .enumerate()
                .map(|(i, c)| (i, (&self.rcv[c]).next_event()))
                .min_by_key(|x| x.1);
            match best {
                None | Some((_, EventTime::Closed)) => {
                    let mut r = r;
                    r.res = "closed".into();
                    self.done(r, time);
                    return;
                }
                Some((_, EventTime::Nothing(t))) => {
                    time.advance(t + 1);
                    let mut r = r;
                    r.res = "none".into();
                    r.t = t.time() as i64;
                    self.done(r, time);
                }
                Some((i, EventTime::Ready(t))) => {
                    time.advance(t);
                    let mut r = r;
                    r.ch = chs[i] as i64 + 1;
                    let x = &self.rcv[&chs[i]];
                    match x.dequeue(time) {
                        Ok(e) => {
                            r.t = e.time.time() as i64;
                            r.v = e.data.v;
                            self.last = r.v;
                        }
                        Err(_) => r.res = "lost".into(),
                    }
                    self.done(r, time);
                    if let Some(o) = outs[i] {
                        let qq = resolve(q, time.tick().time());
                        let v = self.last;
                        self.enq(o, qq, v, time);
                    }
                    if inc > 0 {
                        let mut r = self.begin("inc", -1, time);
                        r.n = inc as i64;
                        time.incr_cycles(inc);
                        self.done(r, time);
                    }
                }
            }
        }
    }
}

pub struct Counters {
    pub inits: Vec<AtomicI64>,
    pub runs: Vec<AtomicI64>,
    /// inits seen by the time the first run started, per context
    pub early: AtomicI64,
}

#[context_macro]
pub struct ScriptCtx {
    pub exec: Option<Exec>,
    pub ix: usize,
    pub cnt: Arc<Counters>,
    pub conns: Option<Vec<(Vec<ChannelID>, Vec<ChannelID>)>>,
}
fn conns_of(id: Identifier, c: &Option<Vec<(Vec<ChannelID>, Vec<ChannelID>)>>) -> Option<ExplicitConnections> {
    c.as_ref().map(|v| {
        HashMap::from([(
            id,
            v.iter().map(|(a, b)| (a.iter().copied().collect(), b.iter().copied().collect())).collect(),
        )])
    })
}
impl Context for ScriptCtx {
    fn init(&mut self) {
        self.cnt.inits[self.ix].fetch_add(1, Ordering::SeqCst);
    }
    fn run(&mut self) {
        started(&self.cnt, self.ix);
        let mut e = self.exec.take().expect("run twice");
        let r = e.run(&mut self.context_info.time);
        self.exec = Some(e);
        if r.is_err() {
            std::panic::panic_any("deliberate failure");
        }
    }
    fn edge_connections(&self) -> Option<ExplicitConnections> {
        conns_of(self.id(), &self.conns)
    }
}
#[context_macro]
pub struct ScriptFal {
    pub exec: Option<Exec>,
    pub ix: usize,
    pub cnt: Arc<Counters>,
    pub conns: Option<Vec<(Vec<ChannelID>, Vec<ChannelID>)>>,
}
impl Context for ScriptFal {
    fn init(&mut self) {
        self.cnt.inits[self.ix].fetch_add(1, Ordering::SeqCst);
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        started(&self.cnt, self.ix);
        let mut e = self.exec.take().expect("run twice");
        let r = e.run(&mut self.context_info.time);
        self.exec = Some(e);
        r
    }
    fn edge_connections(&self) -> Option<ExplicitConnections> {
        conns_of(self.id(), &self.conns)
    }
}

/// Any context, as the member of a composite.
pub struct AnyCtx(Box<dyn Context>);
impl Context for AnyCtx {
    fn init(&mut self) {
        self.0.init()
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        self.0.run_falliable()
    }
    fn ids(&self) -> HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>> {
        self.0.ids()
    }
    fn edge_connections(&self) -> Option<ExplicitConnections> {
        self.0.edge_connections()
    }
    fn summarize(&self) -> ContextSummary {
        self.0.summarize()
    }
}
impl Identifiable for AnyCtx {
    fn id(&self) -> Identifier {
        self.0.id()
    }
    fn name(&self) -> String {
        self.0.name()
    }
}
impl TimeViewable for AnyCtx {
    fn view(&self) -> TimeView {
        self.0.view()
    }
}

/// A composite of contexts, built the way the crate's own composites are.
pub struct GroupCtx {
    members: Vec<ProxyContext<AnyCtx>>,
    id: Identifier,
}
impl Context for GroupCtx {
    fn init(&mut self) {
        self.members.iter_mut().for_each(|m| m.init());
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        let bad = AtomicI64::new(0);
        let logger = dam::logging::copy_log();
        dam::shim::scope(|s| {
            for m in self.members.iter_mut() {
                let bad = &bad;
                let logger = logger.clone();
                dam::shim::spawn!(s, move || {
                    if let Some(mut lg) = logger {
                        lg.id = m.id();
                        dam::logging::initialize_log(lg);
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.run_falliable()));
                    if !matches!(r, Ok(Ok(_))) {
                        bad.fetch_add(1, Ordering::SeqCst);
                    }
                    m.cleanup();
                })
                .unwrap();
            }
        });
        if bad.load(Ordering::SeqCst) > 0 {
            anyhow::bail!("a member failed");
        }
        Ok(())
    }
    fn ids(&self) -> HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>> {
        let mut base: HashMap<_, HashSet<_>> =
            [(self.verbose(), self.members.iter().map(|m| m.verbose()).collect())].into();
        for m in &self.members {
            base.extend(m.ids());
        }
        base
    }
    fn edge_connections(&self) -> Option<ExplicitConnections> {
        let mut r = ExplicitConnections::new();
        for m in &self.members {
            if let Some(c) = m.edge_connections() {
                r.extend(c);
            }
        }
        if r.is_empty() {
            None
        } else {
            Some(r)
        }
    }
    fn summarize(&self) -> ContextSummary {
        ContextSummary {
            id: self.verbose(),
            time: self.view(),
            children: self.members.iter().map(|m| m.summarize()).collect(),
        }
    }
}
impl Identifiable for GroupCtx {
    fn id(&self) -> Identifier {
        self.id
    }
    fn name(&self) -> String {
        "Group".to_string()
    }
}
impl TimeViewable for GroupCtx {
    fn view(&self) -> TimeView {
        ParentView { child_views: self.members.iter().map(|m| m.view()).collect() }.into()
    }
}

fn started(c: &Counters, ix: usize) {
    c.runs[ix].fetch_add(1, Ordering::SeqCst);
    if c.inits.iter().any(|i| i.load(Ordering::SeqCst) == 0) {
        c.early.fetch_add(1, Ordering::SeqCst);
    }
}

fn acc_op() -> ALUOp<W> {
    ALUOp {
        name: "acc",
        func: |p, n| vec![PipelineRegister { data: W::new(p[0].data.v + n[0].data.v) }],
    }
}
fn swap_op() -> ALUOp<W> {
    ALUOp { name: "swap", func: |p, _| vec![p[1].clone(), p[0].clone()] }
}
fn nop_op() -> ALUOp<W> {
    ALUOp { name: "nop", func: |_, _| vec![] }
}

pub struct Built<'a> {
    pub init: Initialized<'a>,
    pub views: Views,
    pub ids: Vec<usize>,
    pub logs: Vec<Arc<Mutex<Vec<Rec>>>>,
    pub pends: Vec<Arc<Mutex<Option<Rec>>>>,
    pub cnt: Arc<Counters>,
    pub book: Book,
}

/// What is needed to read logs and dumps.
pub struct Book {
    pub chids: Vec<usize>,
    /// sub-contexts of library contexts: their ids, and the index of the context
    pub subs: Vec<(usize, usize)>,
    #[cfg(feature = "logging")]
    pub comm: (crossbeam::channel::Sender<dam::logging::LogEntry>, crossbeam::channel::Receiver<dam::logging::LogEntry>),
}
pub fn digits(s: &str) -> Option<usize> {
    s.split(|c: char| !c.is_ascii_digit()).rfind(|x| !x.is_empty()).and_then(|x| x.parse().ok())
}
impl Book {
    fn new(p: &Prog, chid: &[ChannelID]) -> Book {
        let _ = p;
        Book {
            chids: chid.iter().map(|c| digits(&format!("{c}")).unwrap_or(usize::MAX)).collect(),
            subs: vec![],
            #[cfg(feature = "logging")]
            comm: crossbeam::channel::unbounded(),
        }
    }
    fn logger(&self, p: &Prog, i: usize) -> Option<Logger> {
        match p.filters.get(i) {
            #[cfg(feature = "logging")]
            Some(Some(f)) => Some(Logger { comm: self.comm.0.clone(), filter: crate::logev::filter(f) }),
            _ => None,
        }
    }
    /// A number for the context with this id: its index from 1, or index * 1000 and something for its parts; 0: unknown.
    pub fn code(&self, ids: &[usize], id: usize) -> usize {
        if let Some(i) = ids.iter().position(|x| *x == id) {
            return i + 1;
        }
        match self.subs.iter().position(|x| x.0 == id) {
            Some(k) => (self.subs[k].1 + 1) * 1000 + k,
            None => 0,
        }
    }
    pub fn chan(&self, id: usize) -> usize {
        self.chids.iter().position(|x| *x == id).map_or(0, |x| x + 1)
    }
}
fn subs_of<C: Context>(x: &C, i: usize) -> Vec<(usize, usize)> {
    let me = x.id();
    let mut v: Vec<usize> = x.ids().values().flatten().map(|v| v.id.id).filter(|v| *v != me.id).collect();
    v.sort();
    v.dedup();
    v.into_iter().map(|v| (v, i)).collect()
}

#[derive(Clone)]
pub struct Logger {
    #[cfg(feature = "logging")]
    comm: crossbeam::channel::Sender<dam::logging::LogEntry>,
    #[cfg(feature = "logging")]
    filter: dam::logging::LogFilter,
}
/// A context that installs a logger before it runs.
pub struct Logged<C> {
    inner: C,
    #[allow(unused)]
    logger: Logger,
}
impl<C: Context> Context for Logged<C> {
    fn init(&mut self) {
        self.inner.init()
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        #[cfg(feature = "logging")]
        dam::logging::initialize_log(dam::logging::LogInterface::new(
            self.inner.id(),
            self.logger.comm.clone(),
            std::time::Instant::now(),
            self.logger.filter.clone(),
            Time::new(0),
        ));
        self.inner.run_falliable()
    }
    fn ids(&self) -> HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>> {
        self.inner.ids()
    }
    fn edge_connections(&self) -> Option<ExplicitConnections> {
        self.inner.edge_connections()
    }
    fn summarize(&self) -> ContextSummary {
        self.inner.summarize()
    }
}
impl<C: Context> Identifiable for Logged<C> {
    fn id(&self) -> Identifier {
        self.inner.id()
    }
    fn name(&self) -> String {
        self.inner.name()
    }
}
impl<C: Context> TimeViewable for Logged<C> {
    fn view(&self) -> TimeView {
        self.inner.view()
    }
}

/// The contexts below x, in order.
pub fn leaves(p: &Prog, x: usize, to: &mut Vec<usize>) {
    if x < p.ctxs.len() {
        to.push(x)
    } else {
        p.groups[x - p.ctxs.len()].iter().for_each(|m| leaves(p, *m, to))
    }
}

/// Adds x to its composite, and that to its own once it is complete.
#[allow(clippy::too_many_arguments)]
fn join(
    p: &Prog,
    i: usize,
    x: Box<dyn Context>,
    members: &mut BTreeMap<usize, Vec<ProxyContext<AnyCtx>>>,
    ids: &mut [usize],
    views: &Views,
    book: &Book,
    pb: &mut ProgramBuilder,
) {
    let g = p.parent(i).unwrap();
    let v = members.entry(g).or_default();
    v.push(AnyCtx(x).into());
    if v.len() < p.groups[g - p.ctxs.len()].len() {
        return;
    }
    let gc = GroupCtx { members: members.remove(&g).unwrap(), id: Identifier::new() };
    ids[g] = gc.id.id;
    let _ = views[g].set(gc.view());
    if p.parent(g).is_some() {
        return join(p, g, Box::new(gc), members, ids, views, book, pb);
    }
    match book.logger(p, g) {
        Some(l) => pb.add_child(Logged { inner: gc, logger: l }),
        None => pb.add_child(gc),
    }
}

pub fn build<'a>(p: &Prog, infer: bool) -> Result<Built<'a>, String> {
    let mut pb = ProgramBuilder::default();
    let mut snd: Vec<Option<Sender<W>>> = vec![];
    let mut rcv: Vec<Option<Receiver<W>>> = vec![];
    let mut chid: Vec<ChannelID> = vec![];
    for c in &p.chans {
        if c.void {
            let s = pb.void::<W>();
            chid.push(s.id());
            snd.push(Some(s));
            rcv.push(None);
        } else {
            let (s, r) = match (c.cap, c.lat == 1 && c.rlat == 1) {
                (-1, true) => pb.unbounded::<W>(),
                (-1, false) => pb.unbounded_with_latency::<W>(c.lat, c.rlat),
                (n, true) => pb.bounded::<W>(n as usize),
                (n, false) => pb.bounded_with_latency::<W>(n as usize, c.lat, c.rlat),
            };
            chid.push(s.id());
            snd.push(Some(s));
            rcv.push(Some(r));
        }
    }
    let n = p.ctxs.len();
    let views: Views = Arc::new((0..n + p.groups.len()).map(|_| OnceLock::new()).collect());
    let logs: Vec<_> = (0..n).map(|_| Arc::new(Mutex::new(vec![]))).collect();
    let pends: Vec<_> = (0..n).map(|_| Arc::new(Mutex::new(None))).collect();
    let seq = Arc::new(AtomicI64::new(1));
    let scripts = p.ctxs.iter().map(|c| matches!(c.kind, Kind::Script { flavor, .. } if flavor < 2)).collect::<Vec<_>>();
    let cnt = Arc::new(Counters {
        inits: scripts.iter().map(|s| AtomicI64::new(if *s { 0 } else { 1 })).collect(),
        runs: (0..n).map(|_| AtomicI64::new(0)).collect(),
        early: AtomicI64::new(0),
    });
    let mut ids = vec![0; n + p.groups.len()];
    let bits = p
        .ctxs
        .iter()
        .find_map(|c| match c.kind {
            Kind::Dram { bits, .. } => Some(bits as u32),
            _ => None,
        })
        .unwrap_or(64);
    let mut todo: Vec<usize> = vec![];
    p.order.iter().for_each(|i| leaves(p, *i, &mut todo));
    let mut members: BTreeMap<usize, Vec<ProxyContext<AnyCtx>>> = BTreeMap::new();
    let under = Arc::new(
        (0..n + p.groups.len())
            .map(|x| {
                let mut v = vec![];
                leaves(p, x, &mut v);
                v
            })
            .collect::<Vec<_>>(),
    );
    let mut book = Book::new(p, &chid);
    for i in todo {
        let group = p.parent(i);
        let c = &p.ctxs[i];
        macro_rules! take_s {
            ($c:expr) => {
                snd[$c].take().ok_or("sender used twice")?
            };
        }
        macro_rules! take_r {
            ($c:expr) => {
                rcv[$c].take().ok_or("receiver used twice")?
            };
        }
        macro_rules! add {
            ($x:expr) => {{
                let x = $x;
                let _ = views[i].set(x.view());
                ids[i] = x.id().id;
                book.subs.extend(subs_of(&x, i));
                if group.is_some() {
                    join(p, i, Box::new(x), &mut members, &mut ids, &views, &book, &mut pb);
                    continue;
                }
                match book.logger(p, i) {
                    Some(l) => pb.add_child(Logged { inner: x, logger: l }),
                    None => pb.add_child(x),
                }
            }};
        }
        match &c.kind {
            Kind::Script { ops, flavor } => {
                let mine_s: Vec<usize> = (0..p.chans.len()).filter(|k| p.chans[*k].snd == i as i64).collect();
                let mine_r: Vec<usize> =
                    (0..p.chans.len()).filter(|k| p.chans[*k].rcv == i as i64 && !p.chans[*k].void).collect();
                let mut e = Exec {
                    ops: ops.clone(),
                    adapt_s: p.chans.iter().map(|c| c.adapt_s).collect(),
                    adapt_r: p.chans.iter().map(|c| c.adapt_r).collect(),
                    snd: Default::default(),
                    rcv: Default::default(),
                    views: views.clone(),
                    under: under.clone(),
                    log: logs[i].clone(),
                    pend: pends[i].clone(),
                    seq: seq.clone(),
                    bits,
                    last: 0,
                };
                for k in mine_s {
                    e.snd.insert(k, take_s!(k));
                }
                for k in mine_r {
                    e.rcv.insert(k, take_r!(k));
                }
                fn attach(e: &Exec, ctx: &dyn Context) {
                    for (k, s) in &e.snd {
                        if e.adapt_s[*k] {
                            SendAdapter::<i32>::attach_sender(s, ctx)
                        } else {
                            s.attach_sender(ctx)
                        }
                    }
                    for (k, r) in &e.rcv {
                        if e.adapt_r[*k] {
                            RecvAdapter::<i32>::attach_receiver(r, ctx)
                        } else {
                            r.attach_receiver(ctx)
                        }
                    }
                }
                let conns = c.conns.as_ref().map(|v| {
                    v.iter()
                        .map(|(a, b)| {
                            (a.iter().map(|x| chid[*x]).collect::<Vec<_>>(), b.iter().map(|x| chid[*x]).collect::<Vec<_>>())
                        })
                        .collect::<Vec<_>>()
                });
                match flavor {
                    0 => {
                        let mut x =
                            ScriptCtx { exec: None, ix: i, cnt: cnt.clone(), conns, context_info: Default::default() };
                        attach(&e, &x);
                        x.exec = Some(e);
                        add!(x)
                    }
                    1 => {
                        let mut x =
                            ScriptFal { exec: None, ix: i, cnt: cnt.clone(), conns, context_info: Default::default() };
                        attach(&e, &x);
                        x.exec = Some(e);
                        add!(x)
                    }
                    _ => {
                        let mut x = FunctionContext::new();
                        attach(&e, &x);
                        let cn = cnt.clone();
                        let mut e = e;
                        x.set_run(move |time| {
                            started(&cn, i);
                            if e.run(time).is_err() {
                                std::panic::panic_any("deliberate failure")
                            }
                        });
                        add!(x)
                    }
                }
            }
            Kind::Gen { out, vals } => {
                let v = vals.clone();
                let s = take_s!(*out);
                add!(GeneratorContext::new(move || v.into_iter().map(W::new), s))
            }
            Kind::Trace { out, items } => {
                let v = items.clone();
                let s = take_s!(*out);
                add!(TraceContext::new(move || v.into_iter().map(|(v, t)| (W::new(v), t)), s))
            }
            Kind::Consumer { inp } => {
                let r = take_r!(*inp);
                add!(ConsumerContext::new(r))
            }
            Kind::Checker { inp, vals } => {
                let v = vals.clone();
                let r = take_r!(*inp);
                add!(CheckerContext::new(move || v.into_iter().map(W::new), r))
            }
            Kind::Approx { inp, vals, tol } => {
                let v = vals.clone();
                let r = take_r!(*inp);
                let tol = *tol;
                add!(ApproxCheckerContext::new(
                    move || v.into_iter().map(W::new),
                    r,
                    move |a: &W, b: &W| (a.v - b.v).abs() <= tol
                ))
            }
            Kind::Bcast { inp, outs } => {
                let r = take_r!(*inp);
                let mut b = BroadcastContext::new(r);
                for o in outs {
                    b.add_target(take_s!(*o));
                }
                add!(b)
            }
            Kind::Pcu { depth, regs, stages, ins, outs } => {
                let mut x = PCU::<W>::new(
                    PCUConfig { pipeline_depth: *depth, num_registers: *regs },
                    PCU::<W>::READ_ALL_INPUTS,
                    PCU::<W>::WRITE_ALL_RESULTS,
                );
                for s in stages {
                    x.push_stage(PipelineStage {
                        op: match s.op {
                            0 => ALUAddOp::<W>(),
                            1 => ALUSubOp::<W>(),
                            2 => ALUMulOp::<W>(),
                            3 => acc_op(),
                            4 => swap_op(),
                            _ => nop_op(),
                        },
                        forward: s.forward.clone(),
                        prev_register_ids: s.prev.clone(),
                        next_register_ids: s.next.clone(),
                        output_register_ids: s.out.clone(),
                    });
                }
                for k in ins {
                    x.add_input_channel(take_r!(*k));
                }
                for k in outs {
                    x.add_output_channel(take_s!(*k));
                }
                add!(x)
            }
            Kind::Pmu { cap, modulo, dflt, readers, writers } => {
                let mut x =
                    PMU::<W, W, W>::new(*cap, Behavior { mod_address: *modulo, use_default_value: *dflt });
                for (a, d) in readers {
                    x.add_reader(PMUReadBundle { addr: take_r!(*a), resp: take_s!(*d) });
                }
                for (a, d, k) in writers {
                    x.add_writer(PMUWriteBundle { addr: take_r!(*a), data: take_r!(*d), ack: take_s!(*k) });
                }
                add!(x)
            }
            #[cfg(all(dam_verif, not(dam_verif_no_dram)))]
            Kind::Dram { simul, bw, lat, cap, bits, fill, modulo, dflt, writers, readers, order } => {
                use dam::templates::dram::*;
                let bits = *bits as u32;
                let mut x = DRAM::<W, W, W>::new(
                    DRAMConfig::verif_new(*simul, *bw, *lat, *cap),
                    Behavior { mod_address: *modulo, use_default_value: *dflt },
                );
                if *fill {
                    x.fill(|i| W { v: 1000 + i as i64, bits });
                }
                let (mut w, mut r) = (writers.iter(), readers.iter());
                for k in order {
                    if *k {
                        let (a, s, d, k) = w.next().unwrap();
                        x.add_writer(DRAMWriteBundle::verif_new(take_r!(*a), take_r!(*s), take_r!(*d), take_s!(*k)));
                    } else {
                        let (a, s, d) = r.next().unwrap();
                        x.add_reader(DRAMReadBundle::verif_new(take_r!(*a), take_r!(*s), take_s!(*d)));
                    }
                }
                add!(x)
            }
            #[cfg(not(all(dam_verif, not(dam_verif_no_dram))))]
            Kind::Dram { .. } => return Err("no DRAM in this build".into()),
        }
    }
    drop(snd);
    drop(rcv);
    let opts = InitializationOptionsBuilder::default().run_flavor_inference(infer).build().unwrap();
    let init = pb.initialize(opts).map_err(|e| format!("init: {e}"))?;
    Ok(Built { init, views, ids, logs, pends, cnt, book })
}

/// How contexts are scheduled.
#[derive(Clone, Debug)]
pub enum Mode {
    Ctl { strat: Strategy, max_steps: u64, record: bool },
    /// real threads under the OS scheduler, given up after this many milliseconds
    Free { ms: u64 },
}

pub fn run(p: &Prog, infer: bool, mode: Mode) -> (Run, Vec<Choice>) {
    run_with(p, infer, mode, RunOptions::default)
}

pub fn run_with(
    p: &Prog,
    infer: bool,
    mode: Mode,
    opts: impl Fn() -> RunOptions + Send + Sync + 'static,
) -> (Run, Vec<Choice>) {
    let how = format!("{mode:?}");
    let n = p.ctxs.len();
    let mut out = Run {
        prog: p.clone(),
        infer,
        how,
        outcome: "done".into(),
        detail: String::new(),
        logs: vec![vec![]; n],
        fin: vec![-1; n],
        fininf: vec![false; n],
        passed: false,
        fails: vec![],
        elapsed: -1,
        inits: vec![],
        runs: vec![],
        steps: 0,
        times: 1,
        gid: 0,
        extra: None,
    };
    let b = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| build(p, infer))) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => {
            out.outcome = "init".into();
            out.detail = e;
            return (out, vec![]);
        }
        Err(e) => {
            out.outcome = "initpanic".into();
            out.detail = panic_text(&e);
            return (out, vec![]);
        }
    };
    let Built { init, views, ids, logs, pends, cnt, book } = b;
    let dots = Arc::new(Mutex::new((serde_json::Value::Null, serde_json::Value::Null)));
    if cfg!(feature = "dot") {
        dots.lock().unwrap().0 = crate::logev::dump(&init, &ids, &book);
    }
    let book = Arc::new(book);
    let (dots2, book2, ids2, full) = (dots.clone(), book.clone(), ids.clone(), cfg!(feature = "dot"));
    type Res = (bool, Option<u64>, Vec<usize>);
    let finish = move |init: Initialized| -> Res {
        let ex = init.run(opts());
        let fails = ex.run_failures(|f| f.iter().map(|e| crate::logev::failed_id(&format!("{e}"))).collect::<Vec<_>>());
        if full {
            dots2.lock().unwrap().1 = crate::logev::dump(&ex, &ids2, &book2);
        }
        (ex.passed(), ex.elapsed_cycles(), fails)
    };
    let mut choices = vec![];
    let res: Option<Res> = match mode {
        Mode::Ctl { strat, max_steps, record } => {
            let s = Sched::new(strat, max_steps, record);
            let (r, o, p) = s.run(move || finish(init));
            out.steps = s.steps();
            choices = s.take_choices();
            match o {
                Outcome::Completed => {}
                Outcome::Deadlock(d) => {
                    out.outcome = "deadlock".into();
                    out.detail = format!("{d:?}");
                }
                Outcome::StepLimit => out.outcome = "steps".into(),
            }
            if let (Some(p), true) = (&p, out.outcome == "done") {
                out.outcome = "panic".into();
                out.detail = panic_text(p);
            }
            r
        }
        Mode::Free { ms } => {
            let (tx, rx) = std::sync::mpsc::channel();
            // leaks the threads when the run never ends
            let init: Initialized<'static> = unsafe { std::mem::transmute(init) };
            struct Carry(Initialized<'static>);
            // SAFETY: the program is handed over as a whole; this thread only waits.
            unsafe impl Send for Carry {}
            impl Carry {
                fn get(self) -> Initialized<'static> {
                    self.0
                }
            }
            let init = Carry(init);
            std::thread::spawn(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| finish(init.get())));
                let _ = tx.send(r.map_err(|e| panic_text(&e)));
            });
            match rx.recv_timeout(std::time::Duration::from_millis(ms)) {
                Ok(Ok(r)) => Some(r),
                Ok(Err(e)) => {
                    out.outcome = "panic".into();
                    out.detail = e;
                    None
                }
                Err(_) => {
                    out.outcome = "deadlock".into();
                    out.detail = "did not end in time".into();
                    None
                }
            }
        }
    };
    for i in 0..n {
        out.logs[i] = logs[i].lock().unwrap().clone();
        if let Some(mut r) = pends[i].lock().unwrap().clone() {
            r.res = "pend".into();
            r.c1 = r.c0;
            out.logs[i].push(r);
        }
        if let Some(v) = views[i].get() {
            // a run that was given up leaves no meaningful clocks
            let t = v.tick_lower_bound();
            out.fin[i] = t.time() as i64;
            out.fininf[i] = t.is_infinite();
        }
    }
    if let Some((passed, el, fails)) = res {
        out.passed = passed;
        out.elapsed = el.map(|x| x as i64).unwrap_or(-1);
        let mut f: Vec<i64> = fails
            .iter()
            .map(|id| ids.iter().position(|x| x == id).map(|x| x as i64 + 1).unwrap_or(0))
            .collect();
        f.sort();
        out.fails = f;
    }
    out.inits = cnt.inits.iter().map(|x| x.load(Ordering::SeqCst)).collect();
    out.runs = cnt.runs.iter().map(|x| x.load(Ordering::SeqCst)).collect();
    if cnt.early.load(Ordering::SeqCst) > 0 {
        out.detail.push_str(" ran-before-init");
    }
    if full {
        let d = dots.lock().unwrap();
        out.extra = Some(serde_json::json!({"entries": crate::logev::entries(&book, &ids, p), "before": d.0, "after": d.1,
            "checks": crate::logev::checks(p)}));
    }
    (out, choices)
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if e.downcast_ref::<AbortToken>().is_some() {
        return "abort".into();
    }
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
