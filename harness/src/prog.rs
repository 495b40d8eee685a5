//! Programs: graphs of scripted and library contexts, and the records of their execution.
use serde::{Deserialize, Serialize};

/// A time argument: absolute, or relative to the clock at the moment of the call.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tm {
    Abs(u64),
    Rel(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Enq { ch: usize, q: Tm, v: i64 },
    /// enqueue the value received last (plus d)
    Fwd { ch: usize, q: Tm, d: i64 },
    Deq { ch: usize },
    Pkn { ch: usize },
    Pk { ch: usize },
    Wav { ch: usize },
    Inc { n: u64 },
    Adv { n: Tm },
    DropS { ch: usize },
    DropR { ch: usize },
    /// kind 0: the receiver itself, 1: all, 2: any
    Ev { kind: u8, chs: Vec<usize> },
    Wait { on: Vec<usize>, n: Tm },
    Tlb { on: Vec<usize> },
    /// kind 0: returns an error, 1: panics
    Fail { kind: u8 },
    Yield,
    /// serve the channels in order of event time until all are closed; replies to outs[i] (if any)
    Merge { chs: Vec<usize>, outs: Vec<Option<usize>>, q: Tm, inc: u64 },
    /// dequeue until closed, forwarding to every channel of outs
    Drain { ch: usize, outs: Vec<usize>, q: Tm, inc: u64 },
    /// end the context's clock early
    Cleanup,
    /// log an event of the given type (0, 1, 2) with payload n; cb: through a callback
    Log { ty: u8, n: i64, cb: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Chan {
    /// -1: unbounded
    pub cap: i64,
    pub lat: u64,
    pub rlat: u64,
    pub snd: i64,
    pub rcv: i64,
    pub void: bool,
    pub adapt_s: bool,
    pub adapt_r: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StageCfg {
    /// 0 add, 1 sub, 2 mul, 3 accumulate (prev0 + next0), 4 swap: two outputs
    pub op: u8,
    pub forward: Vec<(usize, usize)>,
    pub prev: Vec<usize>,
    pub next: Vec<usize>,
    pub out: Vec<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    /// flavor 0: overrides run, 1: overrides run_falliable, 2: FunctionContext
    Script { ops: Vec<Op>, flavor: u8 },
    Gen { out: usize, vals: Vec<i64> },
    Trace { out: usize, items: Vec<(i64, u64)> },
    Consumer { inp: usize },
    Checker { inp: usize, vals: Vec<i64> },
    Approx { inp: usize, vals: Vec<i64>, tol: i64 },
    Bcast { inp: usize, outs: Vec<usize> },
    Pcu { depth: usize, regs: usize, stages: Vec<StageCfg>, ins: Vec<usize>, outs: Vec<usize> },
    /// readers: (addr, resp), writers: (addr, data, ack)
    Pmu { cap: usize, modulo: bool, dflt: bool, readers: Vec<(usize, usize)>, writers: Vec<(usize, usize, usize)> },
    /// writers: (addr, size, data, ack), readers: (addr, size, data); order: bundles in order of registration, true = writer
    Dram {
        simul: usize,
        bw: usize,
        lat: u64,
        cap: usize,
        bits: u64,
        fill: bool,
        modulo: bool,
        dflt: bool,
        writers: Vec<(usize, usize, usize, usize)>,
        readers: Vec<(usize, usize, usize)>,
        order: Vec<bool>,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ctx {
    pub kind: Kind,
    /// explicit connections: (sources, destinations)
    #[serde(default)]
    pub conns: Option<Vec<(Vec<usize>, Vec<usize>)>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    pub chans: Vec<Chan>,
    pub ctxs: Vec<Ctx>,
    /// order in which contexts and groups are registered
    pub order: Vec<usize>,
    /// composite contexts (numbered after ctxs): their members, contexts and other composites
    pub groups: Vec<Vec<usize>>,
    pub tag: String,
    /// the loggers of the registered contexts (ctxs and groups): none, or the names of enabled events ("*": all)
    #[serde(default)]
    pub filters: Vec<Option<Vec<String>>>,
    /// filters to be checked for validity
    #[serde(default)]
    pub checks: Vec<Vec<String>>,
    /// the clocks of the scripted contexts start here
    #[serde(default)]
    pub base: u64,
}

impl Prog {
    /// The composite that x is a member of.
    pub fn parent(&self, x: usize) -> Option<usize> {
        self.groups.iter().position(|g| g.contains(&x)).map(|g| self.ctxs.len() + g)
    }
    /// Moves the program to times from `base` on.
    pub fn shift(&mut self, base: u64) {
        fn move_to(t: &mut Tm, base: u64) {
            if let Tm::Abs(x) = t {
                *x += base;
            }
        }
        assert_eq!(self.base, 0);
        self.base = base;
        for c in &mut self.ctxs {
            match &mut c.kind {
                Kind::Script { ops, .. } => {
                    for o in ops.iter_mut() {
                        match o {
                            Op::Enq { q, .. } | Op::Fwd { q, .. } | Op::Merge { q, .. } | Op::Drain { q, .. } => move_to(q, base),
                            Op::Adv { n } | Op::Wait { n, .. } => move_to(n, base),
                            _ => {}
                        }
                    }
                    ops.insert(0, Op::Adv { n: Tm::Abs(base) });
                }
                Kind::Trace { items, .. } => items.iter_mut().for_each(|(_, t)| *t += base),
                _ => {}
            }
        }
    }
    /// The time t as the specification sees it, whose numbers are small: times around the base are moved, in order and
    /// at the same distances, to where no other times are.
    pub fn seen(&self, t: i64) -> i64 {
        const SMALL: i64 = 1_000_000;
        let b = self.base as i64;
        if b == 0 || t < SMALL {
            t
        } else if t >= b - SMALL && t < b + 100 * SMALL {
            t - b + 2 * SMALL
        } else {
            900 * SMALL + t % 1000
        }
    }
    /// The registered context that x belongs to.
    pub fn top(&self, x: usize) -> usize {
        self.parent(x).map_or(x, |g| self.top(g))
    }
}

/// One operation of a scripted context, as observed through the public interface.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rec {
    pub op: String,
    pub ch: i64,
    pub chs: Vec<i64>,
    pub n: i64,
    pub v: i64,
    pub t: i64,
    pub inf: bool,
    pub res: String,
    pub c0: i64,
    pub c1: i64,
    pub s0: i64,
    pub s1: i64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Run {
    pub prog: Prog,
    pub infer: bool,
    pub how: String,
    /// done, deadlock, steps, panic: what the run ended with
    pub outcome: String,
    pub detail: String,
    pub logs: Vec<Vec<Rec>>,
    /// final tick count of each context, and whether its view is infinite afterwards
    pub fin: Vec<i64>,
    pub fininf: Vec<bool>,
    pub passed: bool,
    pub fails: Vec<i64>,
    pub elapsed: i64,
    /// init and run counts per script context
    pub inits: Vec<i64>,
    pub runs: Vec<i64>,
    pub steps: u64,
    /// number of schedules that produced exactly this run
    pub times: u64,
    /// the number of the program
    #[serde(default)]
    pub gid: u64,
    /// what was logged, and the dumps of the graph
    #[serde(default)]
    pub extra: Option<serde_json::Value>,
}
