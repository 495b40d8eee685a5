//! Random programs. Scripts are drawn along a sequential simulation of the documented semantics, so that
//! every program has a valid completion order; the verdicts are the specification's alone.
use crate::prog::*;
use dam_verif_rt::sched::Rng;
use std::collections::VecDeque;

#[derive(Clone, Debug)]
pub struct Opt {
    /// peeks and event queries
    pub peeks: bool,
    /// peeks and waits that are answered in the order of generation (needed with flavour inference)
    pub safe: bool,
    pub waits: bool,
    pub drops: bool,
    pub fails: bool,
    pub voids: bool,
    pub adapt: bool,
    pub wav: bool,
    pub conns: bool,
    pub groups: bool,
    pub closing: bool,
    pub small: bool,
    pub bounded: bool,
}
impl Opt {
    pub fn base() -> Opt {
        Opt {
            peeks: false,
            safe: true,
            waits: false,
            drops: false,
            fails: false,
            voids: false,
            adapt: false,
            wav: true,
            conns: false,
            groups: false,
            closing: true,
            small: false,
            bounded: false,
        }
    }
}

struct Sim {
    clk: Vec<u64>,
    /// the clock is only known up to what a closed channel may do to it
    unc: Vec<bool>,
    ended: Vec<bool>,
    q: Vec<VecDeque<(u64, bool)>>,
    cr: Vec<VecDeque<(u64, bool)>>,
    sdrop: Vec<bool>,
    rdrop: Vec<bool>,
}

pub fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    &v[r.below(v.len() as u64) as usize]
}
pub fn chance(r: &mut Rng, pct: u64) -> bool {
    r.below(100) < pct
}

pub fn chan(snd: usize, rcv: usize, cap: i64, lat: u64, rlat: u64) -> Chan {
    Chan { cap, lat, rlat, snd: snd as i64, rcv: rcv as i64, void: false, adapt_s: false, adapt_r: false }
}
pub fn rand_chan(r: &mut Rng, snd: usize, rcv: usize) -> Chan {
    let mut cap = *pick(r, &[1, 1, 1, 2, 2, 3, 5, -1]);
    let mut lat = *pick(r, &[1, 1, 1, 2, 3, 7]);
    let mut rlat = *pick(r, &[1, 1, 1, 2, 4, 9]);
    if chance(r, 8) {
        match r.below(3) {
            0 => cap = *pick(r, &[8, 16, 17, 40]),
            1 => lat = *pick(r, &[16, 40, 100, 1000]),
            _ => rlat = *pick(r, &[16, 40, 100, 1000]),
        }
    }
    chan(snd, rcv, cap, lat, rlat)
}
pub fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}
pub fn script(ops: Vec<Op>) -> Ctx {
    Ctx { kind: Kind::Script { ops, flavor: 0 }, conns: None }
}
pub fn finish(r: &mut Rng, chans: Vec<Chan>, ctxs: Vec<Ctx>, groups: Vec<Vec<usize>>, tag: &str) -> Prog {
    let n = ctxs.len();
    let mut order: Vec<usize> = (0..n + groups.len()).filter(|i| !groups.iter().any(|g| g.contains(i))).collect();
    shuffle(r, &mut order);
    Prog { chans, ctxs, order, groups, tag: tag.into(), filters: vec![], checks: vec![], base: 0 }
}

/// Puts some of the registered contexts into composites, also within each other, and lets some views go through them.
pub fn regroup(r: &mut Rng, p: &mut Prog) {
    let n = p.ctxs.len();
    for _ in 0..1 + if chance(r, 8) { r.below(12) } else { r.below(3) } {
        shuffle(r, &mut p.order);
        let k = 1 + r.below(p.order.len() as u64) as usize;
        let g: Vec<usize> = p.order.drain(..k).collect();
        p.groups.push(g);
        p.order.push(n + p.groups.len() - 1);
    }
    shuffle(r, &mut p.order);
    let under: Vec<Vec<usize>> = (n..n + p.groups.len())
        .map(|g| {
            let mut v = vec![];
            crate::exec::leaves(p, g, &mut v);
            v
        })
        .collect();
    for c in p.ctxs.iter_mut() {
        if let Kind::Script { ops, .. } = &mut c.kind {
            for o in ops.iter_mut() {
                if let Op::Wait { on, .. } | Op::Tlb { on } = o {
                    for (g, u) in under.iter().enumerate() {
                        if u.iter().all(|x| on.contains(x)) && chance(r, 60) {
                            on.retain(|x| !u.contains(x) || chance(r, 15));
                            on.push(n + g);
                        }
                    }
                }
            }
        }
    }
}

/// Adds loggers, events to be logged, and filters to be checked.
pub fn logged(r: &mut Rng, p: &mut Prog) {
    for c in &mut p.ctxs {
        if let Kind::Script { ops, .. } = &mut c.kind {
            let most = if chance(r, 20) { 8 } else { 3 };
            for _ in 0..r.below(most) {
                let at = r.below(ops.len() as u64 + 1) as usize;
                let ty = r.below(3) as u8;
                ops.insert(at, Op::Log { ty, n: r.below(100) as i64, cb: chance(r, 40) });
            }
        }
    }
    let known =
        ["EvA", "EvB", "EvC", "SendEvent", "ReceiverEvent", "ContextViewEvent", "TimeEvent", "EvA", "EvB", "SendEvent"];
    let unknown = ["Nope", "EvD", "eva", "", "EvAB", "Ev", "sendevent"];
    let names = |r: &mut Rng, bad: u64| {
        let mut v: Vec<String> = vec![];
        for _ in 0..r.below(5) {
            v.push(if chance(r, bad) { pick(r, &unknown) } else { pick(r, &known) }.to_string());
        }
        v.sort();
        v.dedup();
        v
    };
    let n = p.ctxs.len() + p.groups.len();
    p.filters = (0..n)
        .map(|_| match r.below(10) {
            0 | 1 => None,
            2..=4 => Some(vec!["*".to_string()]),
            _ => Some(names(r, 10)),
        })
        .collect();
    p.checks = (0..1 + r.below(3)).map(|k| names(r, if k == 0 { 0 } else { 30 })).collect();
}

/// A network of random scripts.
pub fn scripts(r: &mut Rng, o: &Opt) -> Prog {
    // now and then many contexts, or many steps
    let wide = !o.small && chance(r, 3);
    let long = !o.small && !wide && chance(r, 2);
    let nctx = if o.small { 2 + r.below(2) } else if wide { 8 + r.below(16) } else { 2 + r.below(4) } as usize;
    let nch = if wide { nctx as u64 / 2 } else { 1 } as usize
        + r.below(if o.small { 3 } else { 2 * nctx as u64 }) as usize;
    let mut chans = vec![];
    for _ in 0..nch {
        let s = r.below(nctx as u64) as usize;
        let mut d = r.below(nctx as u64) as usize;
        if s == d && !chance(r, 15) {
            d = (d + 1) % nctx;
        }
        let mut c = rand_chan(r, s, d);
        if o.bounded && c.cap < 0 {
            c.cap = 1;
        }
        if o.voids && chance(r, 25) {
            c.void = true;
            c.rcv = -1;
            c.cap = -1;
            c.lat = 1;
            c.rlat = 1;
        }
        if o.adapt {
            c.adapt_s = chance(r, 60);
            c.adapt_r = chance(r, 60);
        }
        chans.push(c);
    }
    let steps = if o.small {
        3 + r.below(7)
    } else if long {
        150 + r.below(250)
    } else if wide {
        40 + r.below(100)
    } else {
        8 + r.below(45)
    };
    let mut s = Sim {
        clk: vec![0; nctx],
        unc: vec![false; nctx],
        ended: vec![false; nctx],
        q: vec![VecDeque::new(); nch],
        cr: chans.iter().map(|c| (0..c.cap.max(0)).map(|_| (0, false)).collect()).collect(),
        sdrop: vec![false; nch],
        rdrop: vec![false; nch],
    };
    let mut ops: Vec<Vec<Op>> = vec![vec![]; nctx];
    let mut val = 0;
    let safe = o.safe;
    let mut done = 0;
    let mut tries = 0;
    while done < steps && tries < steps * 30 {
        tries += 1;
        let c = r.below(nctx as u64) as usize;
        if s.ended[c] {
            continue;
        }
        let outs: Vec<usize> = (0..nch).filter(|k| chans[*k].snd == c as i64 && !s.sdrop[*k]).collect();
        let ins: Vec<usize> = (0..nch).filter(|k| chans[*k].rcv == c as i64 && !s.rdrop[*k]).collect();
        let w = r.below(100);
        let mut did = true;
        if w < 30 && !outs.is_empty() {
            let k = *pick(r, &outs);
            did = enq(r, &mut s, &chans, c, k, &mut ops, &mut val, &ins);
        } else if w < 55 && !ins.is_empty() {
            let k = *pick(r, &ins);
            did = deq(&mut s, &chans, c, k, &mut ops, true, o.closing);
        } else if w < 60 && !ins.is_empty() {
            let k = *pick(r, &ins);
            did = deq(&mut s, &chans, c, k, &mut ops, false, o.closing);
        } else if w < 66 && !outs.is_empty() && o.wav {
            let k = *pick(r, &outs);
            did = wav(&mut s, &chans, c, k, &mut ops);
        } else if w < 72 {
            let n = r.below(6);
            s.clk[c] += n;
            ops[c].push(Op::Inc { n });
        } else if w < 76 {
            if chance(r, 50) {
                let n = r.below(12);
                s.clk[c] += n;
                ops[c].push(Op::Adv { n: Tm::Rel(n) });
            } else {
                let n = r.below(s.clk[c] + 6);
                s.clk[c] = s.clk[c].max(n);
                ops[c].push(Op::Adv { n: Tm::Abs(n) });
            }
        } else if w < 88 && o.peeks && !ins.is_empty() {
            let kind = *pick(r, &[0u8, 0, 1, 2]);
            let mut chs = vec![];
            for k in &ins {
                if chance(r, 60) {
                    chs.push(*k);
                }
            }
            if kind == 0 || chs.is_empty() {
                chs = vec![*pick(r, &ins)];
            }
            if safe && !chs.iter().all(|k| peekable(&s, &chans, c, *k)) {
                did = false;
            } else if kind == 0 && chance(r, 60) {
                ops[c].push(Op::Pk { ch: chs[0] });
            } else {
                ops[c].push(Op::Ev { kind, chs });
            }
        } else if w < 93 && o.waits {
            let mut on: Vec<usize> = (0..nctx).filter(|d| *d != c && chance(r, 50)).collect();
            if on.is_empty() {
                on = vec![(c + 1) % nctx];
            }
            if chance(r, 40) {
                ops[c].push(Op::Tlb { on });
            } else {
                let reach = on.iter().map(|d| if s.ended[*d] { u64::MAX } else { s.clk[*d] }).min().unwrap();
                if s.unc[c] || on.iter().any(|d| s.unc[*d] && !s.ended[*d]) {
                    did = false;
                } else {
                    // often the very time that is reached
                    let n = if chance(r, 40) { s.clk[c].min(reach) } else { r.below(s.clk[c] + 1).min(reach) };
                    ops[c].push(Op::Wait { on, n: Tm::Abs(n) });
                }
            }
        } else if w < 95 && o.drops && (chance(r, 50) || outs.is_empty()) && !ins.is_empty() {
            let k = *pick(r, &ins);
            s.rdrop[k] = true;
            ops[c].push(Op::DropR { ch: k });
        } else if w < 95 && o.drops && !outs.is_empty() {
            let k = *pick(r, &outs);
            s.sdrop[k] = true;
            ops[c].push(Op::DropS { ch: k });
        } else if w < 97 && o.fails && chance(r, 60) {
            ops[c].push(Op::Fail { kind: r.below(2) as u8 });
            end(&mut s, &chans, c);
        } else if w < 97 && chance(r, 12) {
            end(&mut s, &chans, c);
        } else if w < 98 {
            ops[c].push(Op::Yield);
        } else {
            did = false;
        }
        if did {
            done += 1;
        }
    }
    // towards the end: contexts finish in a random order, receivers often drain their channels
    let mut fin: Vec<usize> = (0..nctx).filter(|c| !s.ended[*c]).collect();
    shuffle(r, &mut fin);
    for c in fin {
        let ins: Vec<usize> = (0..nch).filter(|k| chans[*k].rcv == c as i64 && !s.rdrop[*k]).collect();
        for k in ins {
            if chance(r, 75) {
                while !s.q[k].is_empty() {
                    if !deq(&mut s, &chans, c, k, &mut ops, true, o.closing) {
                        break;
                    }
                }
                if o.closing && s.sdrop[k] && s.q[k].is_empty() {
                    for _ in 0..1 + r.below(2) {
                        let what = r.below(if o.peeks { 3 } else { 2 });
                        match what {
                            0 | 1 => {
                                deq(&mut s, &chans, c, k, &mut ops, what == 0, true);
                            }
                            _ => ops[c].push(Op::Pk { ch: k }),
                        }
                    }
                }
            }
        }
        if o.fails && chance(r, 10) {
            ops[c].push(Op::Fail { kind: r.below(2) as u8 });
        }
        end(&mut s, &chans, c);
    }
    let mut groups = vec![];
    if o.groups && nctx >= 3 && chance(r, 60) {
        let k = 1 + r.below(nctx as u64 - 1) as usize;
        let mut all: Vec<usize> = (0..nctx).collect();
        shuffle(r, &mut all);
        groups.push(all[..k].to_vec());
        if nctx - k >= 2 && chance(r, 40) {
            groups.push(all[k..k + 1].to_vec());
        }
    }
    if o.drops {
        // clocks that end before the context and its senders do
        for (i, ops) in ops.iter_mut().enumerate() {
            if chance(r, 15) && !matches!(ops.last(), Some(Op::Fail { .. })) {
                for (k, c) in chans.iter().enumerate() {
                    if c.rcv == i as i64 && !c.void && !ops.iter().any(|o| matches!(o, Op::DropR { ch } if *ch == k)) {
                        ops.push(Op::DropR { ch: k });
                    }
                }
                ops.push(Op::Cleanup);
                for _ in 0..r.below(12) {
                    ops.push(Op::Yield);
                }
                for (k, c) in chans.iter().enumerate() {
                    if c.snd == i as i64
                        && !ops.iter().any(|o| matches!(o, Op::DropS { ch } if *ch == k))
                        && chance(r, 30)
                    {
                        ops.push(Op::DropS { ch: k });
                        ops.push(Op::Yield);
                    }
                }
            }
        }
    }
    let ctxs = ops
        .into_iter()
        .enumerate()
        .map(|(i, mut ops)| {
            let conns = if o.conns && chance(r, 40) {
                let ins: Vec<usize> = (0..nch).filter(|k| chans[*k].rcv == i as i64).collect();
                let outs: Vec<usize> = (0..nch).filter(|k| chans[*k].snd == i as i64 && !chans[*k].void).collect();
                Some(if chance(r, 40) {
                    vec![(ins, outs)]
                } else {
                    // every output on its own: it depends on the inputs that are used before it is closed
                    outs.iter()
                        .map(|k| {
                            if chance(r, 70) && !ops.iter().any(|o| matches!(o, Op::DropS { ch } if ch == k)) {
                                let at = ops.iter().rposition(|o| sends(o, *k)).map(|x| x + 1).unwrap_or(0);
                                ops.insert(at, Op::DropS { ch: *k });
                            }
                            *k
                        })
                        .collect::<Vec<_>>()
                        .into_iter()
                        .map(|k| {
                            let at = ops.iter().position(|o| matches!(o, Op::DropS { ch } if *ch == k)).unwrap_or(ops.len());
                            (ins.iter().copied().filter(|i| ops[..at].iter().any(|o| receives(o, *i))).collect(), vec![k])
                        })
                        .collect()
                })
            } else {
                None
            };
            let flavor = if groups.iter().any(|g| g.contains(&i)) || conns.is_some() {
                r.below(2) as u8
            } else if ops.iter().any(|o| matches!(o, Op::Fail { .. })) {
                r.below(2) as u8
            } else {
                r.below(3) as u8
            };
            Ctx { kind: Kind::Script { ops, flavor }, conns }
        })
        .collect();
    finish(r, chans, ctxs, groups, "scripts")
}

fn sends(o: &Op, k: usize) -> bool {
    match o {
        Op::Enq { ch, .. } | Op::Fwd { ch, .. } | Op::Wav { ch } | Op::DropS { ch } => *ch == k,
        Op::Merge { outs, .. } => outs.contains(&Some(k)),
        Op::Drain { outs, .. } => outs.contains(&k),
        _ => false,
    }
}
fn receives(o: &Op, k: usize) -> bool {
    match o {
        Op::Deq { ch } | Op::Pkn { ch } | Op::Pk { ch } | Op::Drain { ch, .. } => *ch == k,
        Op::Ev { chs, .. } | Op::Merge { chs, .. } => chs.contains(&k),
        _ => false,
    }
}

fn end(s: &mut Sim, chans: &[Chan], c: usize) {
    s.ended[c] = true;
    for (k, ch) in chans.iter().enumerate() {
        if ch.snd == c as i64 {
            s.sdrop[k] = true;
        }
        if ch.rcv == c as i64 {
            s.rdrop[k] = true;
        }
    }
}

fn peekable(s: &Sim, chans: &[Chan], c: usize, k: usize) -> bool {
    let d = chans[k].snd as usize;
    !s.q[k].is_empty() || s.sdrop[k] || (d != c && !s.unc[c] && !s.unc[d] && s.clk[d] >= s.clk[c]) || d == c
}

#[allow(clippy::too_many_arguments)]
fn enq(
    r: &mut Rng,
    s: &mut Sim,
    chans: &[Chan],
    c: usize,
    k: usize,
    ops: &mut [Vec<Op>],
    val: &mut i64,
    ins: &[usize],
) -> bool {
    let ch = &chans[k];
    let q = match r.below(10) {
        0..=3 => Tm::Rel(ch.lat),
        4..=5 => Tm::Rel(r.below(9)),
        6 => Tm::Rel(0),
        7 => Tm::Rel(10 + r.below(20)),
        _ => Tm::Abs(r.below(s.clk[c] + 8)),
    };
    let op = if chance(r, 25) && !ins.is_empty() {
        Op::Fwd { ch: k, q, d: r.below(3) as i64 * 100 }
    } else {
        *val += 1;
        Op::Enq { ch: k, q, v: *val }
    };
    if ch.void {
        ops[c].push(op);
        return true;
    }
    if ch.cap >= 0 && s.cr[k].is_empty() {
        if !s.rdrop[k] {
            return false;
        }
        s.unc[c] = true;
        ops[c].push(op);
        return true;
    }
    if s.rdrop[k] {
        s.unc[c] = true;
    }
    if ch.cap >= 0 {
        let (t, u) = s.cr[k].pop_front().unwrap();
        s.unc[c] |= u;
        s.clk[c] = s.clk[c].max(t);
    }
    let q = match q {
        Tm::Abs(a) => a,
        Tm::Rel(d) => s.clk[c] + d,
    };
    let t = q.max(s.clk[c] + ch.lat);
    let u = s.unc[c];
    s.q[k].push_back((t, u));
    ops[c].push(op);
    true
}

fn wav(s: &mut Sim, chans: &[Chan], c: usize, k: usize, ops: &mut [Vec<Op>]) -> bool {
    let ch = &chans[k];
    if ch.cap >= 0 && !ch.void {
        match s.cr[k].front() {
            None if !s.rdrop[k] => return false,
            None => s.unc[c] = true,
            Some((t, u)) => {
                s.unc[c] |= *u;
                s.clk[c] = s.clk[c].max(*t);
                if s.rdrop[k] {
                    s.unc[c] = true;
                }
            }
        }
    }
    ops[c].push(Op::Wav { ch: k });
    true
}

fn deq(s: &mut Sim, chans: &[Chan], c: usize, k: usize, ops: &mut [Vec<Op>], take: bool, closing: bool) -> bool {
    let ch = &chans[k];
    match s.q[k].front().copied() {
        Some((t, u)) => {
            s.unc[c] |= u;
            s.clk[c] = s.clk[c].max(t);
            if take {
                s.q[k].pop_front();
                let x = (s.clk[c] + ch.rlat, s.unc[c]);
                s.cr[k].push_back(x);
            }
        }
        None => {
            if !s.sdrop[k] || !closing {
                return false;
            }
            s.unc[c] = true;
        }
    }
    ops[c].push(if take { Op::Deq { ch: k } } else { Op::Pkn { ch: k } });
    true
}

/// Feeders of one channel each into one context that serves them in the order of event time.
pub fn merge(r: &mut Rng, small: bool) -> Prog {
    let big = !small && chance(r, 4);
    let n = 1 + r.below(if small { 2 } else if big { 12 } else { 4 }) as usize;
    let m = n; // the merger
    let sink = n + 1;
    let mut chans = vec![];
    let mut ctxs = vec![];
    let mut val = 0;
    for i in 0..n {
        chans.push(rand_chan(r, i, m));
        let ops = feeder(r, i, if small { 3 } else if big { 30 } else { 9 }, &mut val, false);
        ctxs.push(script(ops));
    }
    let outs: Vec<Option<usize>> = (0..n)
        .map(|_| {
            if chance(r, 60) {
                chans.push(rand_chan(r, m, sink));
                Some(chans.len() - 1)
            } else {
                None
            }
        })
        .collect();
    let q = *pick(r, &[Tm::Rel(0), Tm::Rel(1), Tm::Rel(5)]);
    let mut ops = vec![];
    if chance(r, 30) {
        ops.push(Op::Inc { n: r.below(20) });
    }
    ops.push(Op::Merge { chs: (0..n).collect(), outs: outs.clone(), q, inc: r.below(4) });
    ctxs.push(script(ops));
    // one sink per output, so that the merger never waits for a sink that waits for the merger
    let mut k = 0;
    for o in outs.iter().flatten() {
        chans[*o].rcv = (sink + k) as i64;
        ctxs.push(script(vec![Op::Drain { ch: *o, outs: vec![], q: Tm::Rel(0), inc: r.below(5) }]));
        k += 1;
    }
    finish(r, chans, ctxs, vec![], "merge")
}

/// Enqueues on channel k with gaps.
pub fn feeder(r: &mut Rng, k: usize, max: u64, val: &mut i64, pos: bool) -> Vec<Op> {
    let mut ops = vec![];
    for _ in 0..r.below(max + 1) + u64::from(pos) {
        *val += 1;
        match r.below(6) {
            0 | 1 => ops.push(Op::Inc { n: r.below(8) }),
            2 => ops.push(Op::Adv { n: Tm::Rel(r.below(15)) }),
            _ => {}
        }
        let q = *pick(r, &[Tm::Rel(0), Tm::Rel(1), Tm::Rel(3), Tm::Rel(6)]);
        ops.push(Op::Enq { ch: k, q, v: *val });
    }
    ops
}

/// Clients that each wait for a server's reply before their next request.
pub fn server(r: &mut Rng) -> Prog {
    let big = chance(r, 4);
    let n = 1 + r.below(if big { 9 } else { 3 }) as usize;
    let m = n;
    let mut chans = vec![];
    let mut ctxs = vec![];
    let mut val = 0;
    for i in 0..n {
        chans.push(rand_chan(r, i, m));
    }
    for i in 0..n {
        chans.push(rand_chan(r, m, i));
    }
    for i in 0..n {
        let mut ops = vec![];
        for _ in 0..1 + r.below(if big { 20 } else { 6 }) {
            val += 1;
            if chance(r, 40) {
                ops.push(Op::Inc { n: r.below(10) });
            }
            ops.push(Op::Enq { ch: i, q: Tm::Rel(r.below(4)), v: val });
            if chance(r, 30) {
                ops.push(Op::Pk { ch: n + i });
            }
            ops.push(Op::Deq { ch: n + i });
        }
        ctxs.push(script(ops));
    }
    ctxs.push(script(vec![Op::Merge {
        chs: (0..n).collect(),
        outs: (0..n).map(|i| Some(n + i)).collect(),
        q: Tm::Rel(r.below(3)),
        inc: r.below(4),
    }]));
    finish(r, chans, ctxs, vec![], "server")
}

/// A program under construction.
thread_local! {
    /// whether sinks of library contexts may end early (profiles with a question mark)
    static SHORT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

struct B<'a> {
    r: &'a mut Rng,
    chans: Vec<Chan>,
    ctxs: Vec<Ctx>,
    val: i64,
    /// now and then, programs are larger
    big: bool,
}
impl B<'_> {
    fn upto(&mut self, usual: u64, large: u64) -> u64 {
        self.r.below(if self.big { large } else { usual })
    }
    fn ctx(&mut self, c: Ctx) -> usize {
        self.ctxs.push(c);
        self.ctxs.len() - 1
    }
    fn kind(&mut self, k: Kind) -> usize {
        self.ctx(Ctx { kind: k, conns: None })
    }
    /// a channel whose ends are filled in later
    fn ch(&mut self) -> usize {
        let c = rand_chan(self.r, 0, 0);
        self.chans.push(c);
        self.chans.len() - 1
    }
    fn snd(&mut self, k: usize, c: usize) {
        self.chans[k].snd = c as i64;
    }
    fn rcv(&mut self, k: usize, c: usize) {
        self.chans[k].rcv = c as i64;
    }
    /// a source of n elements on k: a script, a generator or a trace
    fn source(&mut self, k: usize, n: u64, lib: bool) -> Vec<i64> {
        let first = self.val + 1;
        self.val += n as i64;
        let vals: Vec<i64> = (first..first + n as i64).collect();
        let kind = if lib { self.r.below(3) } else { 0 };
        let x = match kind {
            1 => self.kind(Kind::Gen { out: k, vals: vals.clone() }),
            2 => {
                let mut t = 1;
                let r = &mut *self.r;
                let mono = chance(r, 80);
                let items = vals
                    .iter()
                    .map(|v| {
                        t = if mono { t + *pick(r, &[0, 0, 1, 2, 7]) } else { 1 + r.below(30) };
                        (*v, if !mono && chance(r, 15) { 0 } else { t })
                    })
                    .collect();
                self.kind(Kind::Trace { out: k, items })
            }
            _ => {
                let r = &mut *self.r;
                let mut ops = vec![];
                for v in &vals {
                    gap(r, &mut ops);
                    let q = *pick(r, &[Tm::Rel(0), Tm::Rel(1), Tm::Rel(3), Tm::Rel(6)]);
                    ops.push(Op::Enq { ch: k, q, v: *v });
                }
                self.ctx(script(ops))
            }
        };
        self.snd(k, x);
        vals
    }
    /// a script that drains k
    fn sink(&mut self, k: usize) {
        if SHORT.get() && chance(self.r, 25) {
            // takes some elements only: those that send more find the channel closed
            let mut ops = vec![];
            for _ in 0..self.r.below(6) {
                gap(self.r, &mut ops);
                ops.push(Op::Deq { ch: k });
            }
            gap(self.r, &mut ops);
            let x = self.ctx(script(ops));
            self.rcv(k, x);
            return;
        }
        let inc = *pick(self.r, &[0, 0, 1, 2, 5]);
        let mut ops = vec![];
        if chance(self.r, 20) {
            ops.push(Op::Inc { n: self.r.below(25) });
        }
        ops.push(Op::Drain { ch: k, outs: vec![], q: Tm::Rel(0), inc });
        let x = self.ctx(script(ops));
        self.rcv(k, x);
    }
    fn done(self, tag: &str) -> Prog {
        finish(self.r, self.chans, self.ctxs, vec![], tag)
    }
}
fn gap(r: &mut Rng, ops: &mut Vec<Op>) {
    match r.below(6) {
        0 | 1 => ops.push(Op::Inc { n: r.below(8) }),
        2 => ops.push(Op::Adv { n: Tm::Rel(r.below(15)) }),
        _ => {}
    }
}
fn builder(r: &mut Rng) -> B<'_> {
    let big = chance(r, 4);
    B { r, chans: vec![], ctxs: vec![], val: 0, big }
}

/// Sources, relays, broadcasts, consumers and checkers in chains.
pub fn utils(r: &mut Rng, fails: bool) -> Prog {
    let mut b = builder(r);
    for _ in 0..1 + b.r.below(3) {
        let mut k = b.ch();
        let n = b.upto(9, 50);
        let mut vals = b.source(k, n, true);
        for _ in 0..b.upto(3, 5) {
            // a relay
            let o = b.ch();
            let (q, inc) = (Tm::Rel(b.r.below(5)), b.r.below(4));
            let x = b.ctx(script(vec![Op::Drain { ch: k, outs: vec![o], q, inc }]));
            b.rcv(k, x);
            b.snd(o, x);
            k = o;
        }
        match b.r.below(6) {
            0 => {
                let x = b.kind(Kind::Consumer { inp: k });
                b.rcv(k, x);
            }
            1 | 2 => {
                if fails && !vals.is_empty() && chance(b.r, 60) {
                    match b.r.below(3) {
                        0 => {
                            let i = b.r.below(vals.len() as u64) as usize;
                            vals[i] += 1000;
                        }
                        1 => vals.push(5),
                        _ => {
                            // more is sent than checked: the sender finds the channel closed
                            vals.pop();
                        }
                    }
                }
                let x = b.kind(Kind::Checker { inp: k, vals });
                b.rcv(k, x);
            }
            3 => {
                let tol = b.r.below(3) as i64;
                for v in vals.iter_mut() {
                    *v += b.r.below(2 * tol as u64 + 1) as i64 - tol;
                }
                if fails && !vals.is_empty() && chance(b.r, 60) {
                    let i = b.r.below(vals.len() as u64) as usize;
                    vals[i] += if chance(b.r, 50) { 2 * tol + 1 } else { -2 * tol - 1 };
                }
                let x = b.kind(Kind::Approx { inp: k, vals, tol });
                b.rcv(k, x);
            }
            _ => b.sink(k),
        }
    }
    b.done("utils")
}

/// One broadcast from a source to several sinks.
pub fn bcast(r: &mut Rng) -> Prog {
    let mut b = builder(r);
    let k = b.ch();
    let n = b.upto(10, 60);
    b.source(k, n, true);
    let outs: Vec<usize> = (0..1 + b.upto(4, 12)).map(|_| b.ch()).collect();
    if chance(b.r, 40) {
        let l = b.chans[outs[0]].lat;
        for o in &outs {
            b.chans[*o].lat = l;
        }
    }
    let x = b.kind(Kind::Bcast { inp: k, outs: outs.clone() });
    b.rcv(k, x);
    for o in outs {
        b.snd(o, x);
        if chance(b.r, 20) {
            let x = b.kind(Kind::Consumer { inp: o });
            b.rcv(o, x);
        } else {
            b.sink(o);
        }
    }
    b.done("bcast")
}

pub fn pcu(r: &mut Rng) -> Prog {
    let mut b = builder(r);
    let nin = 1 + b.upto(3, 6) as usize;
    let nout = b.upto(4, 7) as usize;
    let regs = nin.max(nout).max(2) + b.r.below(2) as usize;
    let depth = 1 + b.upto(4, 9) as usize;
    let nst = b.r.below(depth as u64 + 1) as usize;
    let mut stages = vec![];
    for _ in 0..nst {
        let op = b.r.below(6) as u8;
        let (np, nn, no) = match op {
            0..=2 => (2, 0, 1),
            3 => (1, 1, 1),
            4 => (2, 0, 2),
            _ => (0, 0, 0),
        };
        let reg = |r: &mut Rng| r.below(regs as u64) as usize;
        let prev = (0..np).map(|_| reg(b.r)).collect();
        let next = (0..nn).map(|_| reg(b.r)).collect();
        let out = (0..no).map(|_| reg(b.r)).collect();
        let forward = (0..b.r.below(3)).map(|_| (reg(b.r), reg(b.r))).collect();
        stages.push(StageCfg { op, forward, prev, next, out });
    }
    let ins: Vec<usize> = (0..nin).map(|_| b.ch()).collect();
    let outs: Vec<usize> = (0..nout).map(|_| b.ch()).collect();
    let n = b.upto(7, 40);
    for k in &ins {
        // Inputs of unequal length end the pipeline early: their other senders find it closed.  When exactly the
        // pipeline takes the rest depends on the schedule, so those senders must not wait for it.
        let m = if chance(b.r, 15) { n + b.r.below(3) } else { n };
        if m > n && b.chans[*k].cap > 0 {
            b.chans[*k].cap = m as i64 + 1;
        }
        b.source(*k, m, true);
    }
    let x = b.kind(Kind::Pcu { depth, regs, stages, ins: ins.clone(), outs: outs.clone() });
    for k in ins {
        b.rcv(k, x);
    }
    for k in outs {
        b.snd(k, x);
        b.sink(k);
    }
    b.done("pcu")
}

fn addr(r: &mut Rng, cap: usize, modulo: bool) -> i64 {
    (if modulo { r.below(3 * cap as u64) } else { r.below(cap as u64) }) as i64
}

/// A PMU with open-loop feeders and closed-loop clients.
pub fn pmu(r: &mut Rng) -> Prog {
    let mut b = builder(r);
    let cap = 1 + b.upto(4, 40) as usize;
    let modulo = chance(b.r, 40);
    let mut readers = vec![];
    let mut writers = vec![];
    let clients = chance(b.r, 50);
    let mut rest = 1 + b.r.below(3);
    if clients {
        // writes, awaits the acknowledgement, then reads, all in one script
        for _ in 0..1 + b.r.below(2) {
            rest = b.r.below(2);
            let (a, d, k, ra, rr) = (b.ch(), b.ch(), b.ch(), b.ch(), b.ch());
            let mut ops = vec![];
            for _ in 0..1 + b.upto(5, 15) {
                gap(b.r, &mut ops);
                let ad = addr(b.r, cap, modulo);
                b.val += 1;
                if chance(b.r, 70) {
                    ops.push(Op::Enq { ch: a, q: Tm::Rel(b.r.below(4)), v: ad });
                    ops.push(Op::Enq { ch: d, q: Tm::Rel(b.r.below(4)), v: b.val });
                    if chance(b.r, 50) {
                        // a read that races with the write
                        ops.push(Op::Enq { ch: ra, q: Tm::Rel(b.r.below(5)), v: ad });
                        ops.push(Op::Deq { ch: k });
                        ops.push(Op::Deq { ch: rr });
                    } else {
                        ops.push(Op::Deq { ch: k });
                    }
                }
                if chance(b.r, 70) {
                    let ad = if chance(b.r, 60) { ad } else { addr(b.r, cap, modulo) };
                    ops.push(Op::Enq { ch: ra, q: Tm::Rel(b.r.below(3)), v: ad });
                    ops.push(Op::Deq { ch: rr });
                }
            }
            let x = b.ctx(script(ops));
            for c in [a, d, ra] {
                b.snd(c, x);
            }
            for c in [k, rr] {
                b.rcv(c, x);
            }
            writers.push((a, d, k));
            readers.push((ra, rr));
        }
    }
    for _ in 0..rest {
        let (a, d, k) = (b.ch(), b.ch(), b.ch());
        let n = b.upto(6, 30);
        let mut ops = vec![];
        let split = chance(b.r, 30);
        let mut ops2 = vec![];
        for _ in 0..n {
            gap(b.r, &mut ops);
            b.val += 1;
            let ad = addr(b.r, cap, modulo);
            ops.push(Op::Enq { ch: a, q: Tm::Rel(b.r.below(4)), v: ad });
            let o = Op::Enq { ch: d, q: Tm::Rel(b.r.below(4)), v: b.val };
            if split {
                gap(b.r, &mut ops2);
                ops2.push(o);
            } else {
                ops.push(o);
            }
        }
        let x = b.ctx(script(ops));
        b.snd(a, x);
        let y = if split { b.ctx(script(ops2)) } else { x };
        b.snd(d, y);
        b.sink(k);
        writers.push((a, d, k));
    }
    for _ in 0..1 + b.r.below(if clients { 1 } else { 3 }) {
        let (a, k) = (b.ch(), b.ch());
        let mut ops = vec![];
        for _ in 0..b.upto(8, 30) {
            gap(b.r, &mut ops);
            let ad = addr(b.r, cap, modulo);
            ops.push(Op::Enq { ch: a, q: Tm::Rel(b.r.below(6)), v: ad });
        }
        let x = b.ctx(script(ops));
        b.snd(a, x);
        b.sink(k);
        readers.push((a, k));
    }
    shuffle(b.r, &mut readers);
    shuffle(b.r, &mut writers);
    let x = b.kind(Kind::Pmu { cap, modulo, dflt: true, readers: readers.clone(), writers: writers.clone() });
    for (a, k) in readers {
        b.rcv(a, x);
        b.snd(k, x);
    }
    for (a, d, k) in writers {
        b.rcv(a, x);
        b.rcv(d, x);
        b.snd(k, x);
    }
    b.done("pmu")
}

pub fn dram(r: &mut Rng) -> Prog {
    let mut b = builder(r);
    let modulo = chance(b.r, 40);
    let cap = 2 + b.upto(6, 40) as usize;
    let bits = *pick(b.r, &[8u64, 16, 32, 64]);
    let bw = *pick(b.r, &[1usize, 4, 8, 12, 32, 64]);
    let bw = if (bits as usize) / bw > 16 { 8 } else { bw };
    let lat = b.r.below(12);
    let simul = 1 + b.r.below(3) as usize;
    let mut readers = vec![];
    let mut writers = vec![];
    let mut order = vec![];
    let closed = chance(b.r, 40);
    let big = b.big;
    let span = |r: &mut Rng| {
        let n = 1 + r.below(cap.min(if big { 9 } else { 3 }) as u64) as i64;
        let a = if modulo { r.below(2 * cap as u64) as i64 } else { r.below(cap as u64 - n as u64 + 1) as i64 };
        (a, n)
    };
    if closed {
        let (a, s, d, k, ra, rs, rd) = (b.ch(), b.ch(), b.ch(), b.ch(), b.ch(), b.ch(), b.ch());
        // the whole request must fit before the bank takes it
        for c in [d, rd] {
            b.chans[c].cap = if chance(b.r, 50) { -1 } else if big { 10 } else { 4 };
        }
        let mut ops = vec![];
        for _ in 0..1 + b.upto(4, 12) {
            gap(b.r, &mut ops);
            let (ad, n) = span(b.r);
            if chance(b.r, 60) {
                ops.push(Op::Enq { ch: a, q: Tm::Rel(b.r.below(4)), v: ad });
                ops.push(Op::Enq { ch: s, q: Tm::Rel(b.r.below(4)), v: n });
                for _ in 0..n {
                    b.val += 1;
                    ops.push(Op::Enq { ch: d, q: Tm::Rel(b.r.below(4)), v: b.val });
                    gap(b.r, &mut ops);
                }
                ops.push(Op::Deq { ch: k });
            }
            if chance(b.r, 70) {
                let (ad, n) = if chance(b.r, 70) { (ad, n) } else { span(b.r) };
                ops.push(Op::Enq { ch: ra, q: Tm::Rel(b.r.below(4)), v: ad });
                ops.push(Op::Enq { ch: rs, q: Tm::Rel(b.r.below(4)), v: n });
                for _ in 0..n {
                    ops.push(Op::Deq { ch: rd });
                }
            }
        }
        let x = b.ctx(script(ops));
        for c in [a, s, d, ra, rs] {
            b.snd(c, x);
        }
        for c in [k, rd] {
            b.rcv(c, x);
        }
        writers.push((a, s, d, k));
        readers.push((ra, rs, rd));
        order = if chance(b.r, 50) { vec![true, false] } else { vec![false, true] };
    }
    if !closed || chance(b.r, 40) {
        for _ in 0..1 + b.r.below(3) {
            let wr = chance(b.r, 50);
            order.push(wr);
            let (a, s, k) = (b.ch(), b.ch(), b.ch());
            let d = if wr { b.ch() } else { usize::MAX };
            let mut ops = vec![];
            for _ in 0..b.upto(5, 15) {
                gap(b.r, &mut ops);
                let (ad, n) = span(b.r);
                ops.push(Op::Enq { ch: a, q: Tm::Rel(b.r.below(4)), v: ad });
                ops.push(Op::Enq { ch: s, q: Tm::Rel(b.r.below(4)), v: n });
                if wr {
                    for _ in 0..n {
                        b.val += 1;
                        ops.push(Op::Enq { ch: d, q: Tm::Rel(b.r.below(4)), v: b.val });
                    }
                }
            }
            let x = b.ctx(script(ops));
            b.snd(a, x);
            b.snd(s, x);
            if wr {
                b.snd(d, x);
                writers.push((a, s, d, k));
            } else {
                readers.push((a, s, k));
            }
            b.sink(k);
        }
    }
    let x = b.kind(Kind::Dram {
        simul,
        bw,
        lat,
        cap,
        bits,
        fill: true,
        modulo,
        dflt: true,
        writers: writers.clone(),
        readers: readers.clone(),
        order,
    });
    for (a, s, d, k) in writers {
        for c in [a, s, d] {
            b.rcv(c, x);
        }
        b.snd(k, x);
    }
    for (a, s, k) in readers {
        b.rcv(a, x);
        b.rcv(s, x);
        b.snd(k, x);
    }
    b.done("dram")
}

/// A program of the named profile.
pub fn program(r: &mut Rng, profile: &str) -> Prog {
    let name = profile.trim_end_matches('?');
    SHORT.set(name != profile);
    let profile = name;
    let mut p = ungrouped(r, profile);
    SHORT.set(false);
    let pct = match profile.trim_end_matches('!') {
        "once" | "views" => 50,
        "fail" | "infer" | "wake" | "sync" => 30,
        "utils" | "bcast" | "pmu" | "dram" | "pcu" | "close" | "adapt" | "core" => 15,
        _ => 0,
    };
    if chance(r, pct) {
        regroup(r, &mut p);
    }
    // times that do not fit in 31, 32 or 53 bits
    if p.base == 0 && chance(r, 10) {
        let b = 1u64 << *pick(r, &[31, 32, 32, 40, 53, 62]);
        p.shift(b - r.below(12) as u64);
    }
    p
}
fn ungrouped(r: &mut Rng, profile: &str) -> Prog {
    let mut o = Opt::base();
    o.small = chance(r, 35);
    // a name that ends in "!": only small programs
    let profile = match profile.strip_suffix('!') {
        Some(p) => {
            o.small = true;
            p
        }
        None => profile,
    };
    match profile {
        // queues, stamps and clocks
        "core" => match r.below(8) {
            0 => {
                o.peeks = true;
                scripts(r, &o)
            }
            1 => server(r),
            _ => scripts(r, &o),
        },
        "bounded" => {
            o.bounded = true;
            scripts(r, &o)
        }
        "peek" => {
            o.peeks = true;
            match r.below(6) {
                0 | 1 => {
                    let s = o.small;
                    merge(r, s)
                }
                2 => server(r),
                _ => scripts(r, &o),
            }
        }
        // only without inference: every query is answered in the end
        "wake" => {
            o.peeks = true;
            o.safe = false;
            o.waits = chance(r, 50);
            match r.below(6) {
                0 => server(r),
                1 => {
                    let s = o.small;
                    merge(r, s)
                }
                _ => scripts(r, &o),
            }
        }
        "views" => {
            o.waits = true;
            o.peeks = chance(r, 30);
            o.groups = chance(r, 20);
            scripts(r, &o)
        }
        "close" => {
            o.drops = true;
            o.voids = chance(r, 50);
            o.peeks = chance(r, 40);
            scripts(r, &o)
        }
        "fail" => {
            o.fails = true;
            o.drops = chance(r, 30);
            o.groups = chance(r, 40);
            o.peeks = chance(r, 20);
            match r.below(4) {
                0 => utils(r, true),
                _ => scripts(r, &o),
            }
        }
        "infer" => {
            o.conns = true;
            o.groups = chance(r, 40);
            o.peeks = chance(r, 40);
            o.drops = chance(r, 10);
            match r.below(10) {
                0 => bcast(r),
                1 => pmu(r),
                2 => server(r),
                3 => {
                    let s = o.small;
                    merge(r, s)
                }
                4 => utils(r, false),
                _ => scripts(r, &o),
            }
        }
        // queries that are only answered once the clocks of others, which may be blocked, have moved on
        "sync" => {
            o.conns = true;
            o.waits = chance(r, 60);
            o.peeks = !o.waits || chance(r, 60);
            o.safe = false;
            o.groups = chance(r, 20);
            scripts(r, &o)
        }
        "once" => {
            o.groups = true;
            o.voids = chance(r, 20);
            match r.below(5) {
                0 => utils(r, false),
                1 => {
                    o.fails = true;
                    scripts(r, &o)
                }
                _ => scripts(r, &o),
            }
        }
        "adapt" => {
            o.adapt = true;
            o.peeks = chance(r, 50);
            o.drops = chance(r, 30);
            scripts(r, &o)
        }
        "log" => {
            let p = *pick(
                r,
                &["core", "core", "core", "bounded", "peek", "once", "close", "views", "fail", "utils", "pmu", "bcast",
                  "pcu", "adapt", "infer", "dram"],
            );
            let p = if o.small { format!("{p}!") } else { p.to_string() };
            let mut p = program(r, &p);
            logged(r, &mut p);
            p
        }
        "utils" => utils(r, true),
        "bcast" => bcast(r),
        "pmu" => pmu(r),
        "dram" => dram(r),
        "pcu" => pcu(r),
        "mix" => {
            let p = *pick(
                r,
                &["core", "bounded", "peek", "close", "once", "utils", "bcast", "pmu", "pcu", "adapt", "infer"],
            );
            program(r, p)
        }
        _ => panic!("no profile {profile}"),
    }
}
