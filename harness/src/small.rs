//! Small cases: each line of the input is a case enumerated by a specification (or drawn at random here), and each
//! line of the output is the case with what the crate did.
use crate::w::W;
use dam::channel::utils::{EventCollection, EventTime, Peekable};
use dam::context_tools::*;
use dam::simulation::*;
use dam::structures::{ContextView, Identifiable, Identifier, ParentView, Time, TimeManager, TimeView, TimeViewable, VerboseIdentifier};
use dam::templates::datastore::{Behavior, Datastore};
use dam_verif_rt::sched::Rng;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

/// Numbers are written as <<a, d>> for a * 2^40 + d.
const B: i128 = 1 << 40;
fn num(v: &Value) -> u64 {
    (v[0].as_i64().unwrap() as i128 * B + v[1].as_i64().unwrap() as i128) as u64
}
fn unnum(x: u64) -> Value {
    let x = x as i128;
    let mut a = x / B;
    let mut d = x % B;
    if d > B / 2 {
        a += 1;
        d -= B;
    }
    if d.abs() > 1 << 30 {
        return json!([-1, -1]);
    }
    json!([a as i64, d as i64])
}
/// A time: [a, d, infinite].
fn time(v: &Value) -> Time {
    Time::from((v[2].as_bool().unwrap(), num(v)))
}
fn untime(t: Time) -> Value {
    let n = unnum(t.time());
    json!([n[0], n[1], t.is_infinite()])
}
fn event(v: &Value) -> EventTime {
    match v["k"].as_str().unwrap() {
        "ready" => EventTime::Ready(time(&v["t"])),
        "none" => EventTime::Nothing(time(&v["t"])),
        _ => EventTime::Closed,
    }
}
fn unevent(e: EventTime) -> Value {
    match e {
        EventTime::Ready(t) => json!({"k": "ready", "t": untime(t)}),
        EventTime::Nothing(t) => json!({"k": "none", "t": untime(t)}),
        EventTime::Closed => json!({"k": "closed", "t": [0, 0, true]}),
    }
}
fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
fn or_panic(v: Option<Value>) -> Value {
    v.unwrap_or(json!([]))
}
fn ord(o: std::cmp::Ordering) -> i64 {
    o as i64
}

fn pair(c: &Value) -> Value {
    let (x, y) = (time(&c["x"]), time(&c["y"]));
    let n = y.time();
    json!({
        "cmp": ord(x.cmp(&y)), "pcmp": x.partial_cmp(&y).map(ord), "eq": x == y, "ne": x != y,
        "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y,
        "max": untime(x.max(y)), "min": untime(x.min(y)),
        "smax": untime(std::cmp::max(x, y)), "smin": untime(std::cmp::min(x, y)),
        "imax": untime([x, y].into_iter().max().unwrap()), "imin": untime([x, y].into_iter().min().unwrap()),
        "add": untime(x + y), "addn": untime(x + n),
        "adda": untime({ let mut z = x; z += y; z }), "addna": untime({ let mut z = x; z += n; z }),
        "sub": or_panic(guard(|| untime(x - n))),
        "new": untime(Time::new(n)), "from": untime(Time::from(n)), "inf": untime(Time::infinite()),
        "zero": untime(Time::default()),
        "setinf": untime({ let mut z = x; z.set_infinite(); z }),
        "isinf": x.is_infinite(), "tick": unnum(x.time()),
        "serde": untime(serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap()),
        "upd": untime({ let mut e = ChannelElement::new(x, 7u8); e.update_time(y); e.time }),
        "conv": untime(ChannelElement::new(x, 7u8).convert::<u32>().time),
        "tryconv": untime(ChannelElement::new(x, 7u32).try_convert::<u8>().unwrap().time),
        "kept": ChannelElement::new(x, 7u8).convert::<u32>().data == 7 && ChannelElement::new(x, 7u32).try_convert::<u8>().unwrap().data == 7
            && ChannelElement::new(x, 700u32).try_convert::<u8>().is_err(),
        "show": format!("{x}") == if x.is_infinite() { format!("inf {}", x.time()) } else { format!("{}", x.time()) },
    })
}

fn evpair(c: &Value) -> Value {
    let (x, y) = (event(&c["x"]), event(&c["y"]));
    json!({"cmp": ord(x.cmp(&y)), "pcmp": x.partial_cmp(&y).map(ord), "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y,
           "min": unevent(x.min(y)), "max": unevent(x.max(y))})
}

fn comb(c: &Value) -> Value {
    let evs: Vec<EventTime> = c["evs"].as_array().unwrap().iter().map(event).collect();
    let e2 = evs.clone();
    json!({
        "all": guard(|| unevent(evs.into_iter().all_events().next_event())).unwrap_or(json!({"k": "panic", "t": [0, 0, true]})),
        "any": guard(|| unevent(e2.into_iter().any_event().next_event())).unwrap_or(json!({"k": "panic", "t": [0, 0, true]})),
    })
}

/// A clock: operations on its manager, observed through it and its views.
fn hist(c: &Value) -> Value {
    let mut m = TimeManager::new();
    let v: TimeView = m.view().into();
    let nested: TimeView = ParentView { child_views: vec![v.clone()] }.into();
    let mut out = vec![];
    for o in c["ops"].as_array().unwrap() {
        match o["op"].as_str().unwrap() {
            "inc" => m.incr_cycles(num(&o["t"])),
            "adv" => m.advance(time(&o["t"])),
            _ => m.cleanup(),
        }
        let now = m.tick();
        out.push(json!({
            "tick": untime(now), "tlb": untime(v.tick_lower_bound()), "nested": untime(nested.tick_lower_bound()),
            "wait": untime(v.wait_until(Time::new(now.time()))), "nwait": untime(nested.wait_until(Time::new(now.time()))),
        }));
    }
    drop(m);
    json!({"steps": out, "dropped": untime(v.tick_lower_bound())})
}

/// A datastore: a history of writes, everything read after each.
fn store(c: &Value) -> Value {
    let cap = c["cap"].as_u64().unwrap() as usize;
    let ds = Datastore::<W>::new(
        cap,
        Behavior { mod_address: c["mod"].as_bool().unwrap(), use_default_value: c["dflt"].as_bool().unwrap() },
    );
    let mut steps = vec![];
    for w in c["ops"].as_array().unwrap() {
        let mut s = json!({});
        if w["op"] == "w" {
            let (a, v, t) = (w["a"].as_u64().unwrap() as usize, w["v"].as_i64().unwrap(), time(&w["t"]));
            s["ok"] = json!(guard(|| ds.write(a, W::new(v), t)).is_some());
        }
        let mut reads = vec![];
        for r in c["reads"].as_array().unwrap() {
            let (a, t) = (r[0].as_u64().unwrap() as usize, time(&r[1]));
            reads.push(match guard(|| ds.read(a, t)) {
                Some(x) => json!(x.v),
                None => json!(-1),
            });
        }
        s["reads"] = json!(reads);
        steps.push(s);
    }
    json!({"steps": steps})
}

// Initialization ---------------------------------------------------------------------------------------------

#[context_macro]
struct Probe {
    inits: Arc<AtomicI64>,
    runs: Arc<AtomicI64>,
    snd: Vec<Sender<i32>>,
    rcv: Vec<Receiver<i32>>,
}
impl Context for Probe {
    fn init(&mut self) {
        self.inits.fetch_add(1, Ordering::SeqCst);
    }
    fn run(&mut self) {
        self.runs.fetch_add(1, Ordering::SeqCst);
        self.snd.clear();
        self.rcv.clear();
    }
}
struct Parent {
    members: Vec<Probe>,
    id: Identifier,
}
impl Context for Parent {
    fn init(&mut self) {
        self.members.iter_mut().for_each(|m| m.init());
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        for m in &mut self.members {
            m.run_falliable()?;
        }
        Ok(())
    }
    fn ids(&self) -> HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>> {
        let mut base: HashMap<_, HashSet<_>> =
            [(self.verbose(), self.members.iter().map(|m| m.verbose()).collect())].into();
        for m in &self.members {
            base.extend(m.ids());
        }
        base
    }
}
impl Identifiable for Parent {
    fn id(&self) -> Identifier {
        self.id
    }
    fn name(&self) -> String {
        "Parent".to_string()
    }
}
impl TimeViewable for Parent {
    fn view(&self) -> TimeView {
        ParentView { child_views: self.members.iter().map(|m| m.view()).collect() }.into()
    }
}

/// Contexts are registered ("reg"), members of one registered composite ("sub") or not registered ("out").
fn init(c: &Value) -> Value {
    let r = guard(|| {
        let mut pb = ProgramBuilder::default();
        let states: Vec<&str> = c["ctxs"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        let n = states.len();
        let inits: Vec<_> = (0..n).map(|_| Arc::new(AtomicI64::new(0))).collect();
        let runs: Vec<_> = (0..n).map(|_| Arc::new(AtomicI64::new(0))).collect();
        let mut probes: Vec<Option<Probe>> = (0..n)
            .map(|i| {
                Some(Probe {
                    inits: inits[i].clone(),
                    runs: runs[i].clone(),
                    snd: vec![],
                    rcv: vec![],
                    context_info: Default::default(),
                })
            })
            .collect();
        let ids: Vec<usize> = probes.iter().map(|p| p.as_ref().unwrap().id().id).collect();
        let mut chids = vec![];
        let mut keep: (Vec<Sender<i32>>, Vec<Receiver<i32>>) = (vec![], vec![]);
        for ch in c["chans"].as_array().unwrap() {
            let void = ch["void"].as_bool().unwrap();
            let (s, r) = if void {
                (pb.void::<i32>(), None)
            } else {
                let (s, r) = match ch["cap"].as_i64().unwrap() {
                    -1 => pb.unbounded::<i32>(),
                    k => pb.bounded::<i32>(k as usize),
                };
                (s, Some(r))
            };
            chids.push(format!("{:?}", s.id()));
            // an endpoint may be attached more than once: the last one counts
            for w in ch["snd"].as_array().unwrap() {
                let p = probes[w.as_u64().unwrap() as usize - 1].as_mut().unwrap();
                s.attach_sender(p);
            }
            match ch["snd"].as_array().unwrap().last() {
                Some(w) => probes[w.as_u64().unwrap() as usize - 1].as_mut().unwrap().snd.push(s),
                None => keep.0.push(s),
            }
            if let Some(r) = r {
                for w in ch["rcv"].as_array().unwrap() {
                    r.attach_receiver(probes[w.as_u64().unwrap() as usize - 1].as_ref().unwrap());
                }
                match ch["rcv"].as_array().unwrap().last() {
                    Some(w) => probes[w.as_u64().unwrap() as usize - 1].as_mut().unwrap().rcv.push(r),
                    None => keep.1.push(r),
                }
            }
        }
        let mut subs = vec![];
        let mut outs = vec![];
        for (i, st) in states.iter().enumerate() {
            match *st {
                "reg" => pb.add_child(probes[i].take().unwrap()),
                "sub" => subs.push(probes[i].take().unwrap()),
                _ => outs.push(probes[i].take().unwrap()),
            }
        }
        let mut pid = 0;
        if !subs.is_empty() {
            let p = Parent { members: subs, id: Identifier::new() };
            pid = p.id.id;
            pb.add_child(p);
        }
        let children = pb.num_children();
        let opt = InitializationOptionsBuilder::default().run_flavor_inference(c["infer"].as_bool().unwrap()).build().unwrap();
        let count = |v: &Vec<Arc<AtomicI64>>| v.iter().map(|x| x.load(Ordering::SeqCst)).collect::<Vec<_>>();
        let mut distinct: Vec<String> = ids.iter().map(|i| format!("c{i}")).collect();
        if pid > 0 {
            distinct.push(format!("c{pid}"));
        }
        distinct.extend(chids.iter().cloned());
        let total = distinct.len();
        distinct.sort();
        distinct.dedup();
        let (kind, at) = match pb.initialize(opt) {
            Ok(i) => {
                let before = (count(&inits), count(&runs));
                let ex = i.run(Default::default());
                return json!({"res": "ok", "at": 0, "inits": before.0, "early": before.1, "runs": count(&runs),
                    "inits2": count(&inits), "passed": ex.passed(), "distinct": distinct.len() == total, "children": children});
            }
            Err(InitializationError::DisconnectedSender(c)) => {
                ("nosend", chids.iter().position(|x| *x == format!("{c:?}")).map_or(0, |x| x + 1))
            }
            Err(InitializationError::DisconnectedReceiver(c)) => {
                ("norecv", chids.iter().position(|x| *x == format!("{c:?}")).map_or(0, |x| x + 1))
            }
            Err(InitializationError::UnregisteredNode(c)) => {
                ("unreg", ids.iter().position(|x| *x == c.id).map_or(0, |x| x + 1))
            }
        };
        drop((keep, outs));
        json!({"res": kind, "at": at, "inits": count(&inits), "early": count(&runs), "runs": count(&runs),
            "inits2": count(&inits), "passed": false, "distinct": distinct.len() == total, "children": children})
    });
    r.unwrap_or(json!({"res": "panic", "at": 0, "inits": [], "early": [], "runs": [], "inits2": [], "passed": false, "distinct": true, "children": 0}))
}

/// Channels with given latencies (0 must be refused).
fn lat(c: &Value) -> Value {
    let (l, r, cap) = (c["lat"].as_u64().unwrap(), c["rlat"].as_u64().unwrap(), c["cap"].as_i64().unwrap());
    let ok = guard(|| {
        let mut pb = ProgramBuilder::default();
        if cap < 0 {
            let _ = pb.unbounded_with_latency::<i32>(l, r);
        } else {
            let _ = pb.bounded_with_latency::<i32>(cap as usize, l, r);
        }
    })
    .is_some();
    json!({"ok": ok})
}

pub fn run(a: &HashMap<String, String>) {
    let text = std::fs::read_to_string(&a["in"]).unwrap();
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a["out"]).unwrap());
    let mut n = 0u64;
    for line in text.lines().filter(|l| !l.trim().is_empty()) {
        let mut c: Value = serde_json::from_str(line).unwrap();
        let r = guard(|| match c["kind"].as_str().unwrap() {
            "pair" => pair(&c),
            "evpair" => evpair(&c),
            "comb" => comb(&c),
            "hist" => hist(&c),
            "store" => store(&c),
            "init" => init(&c),
            "lat" => lat(&c),
            "size" => crate::types::size(&c),
            "parse" => crate::types::parse(&c),
            "index" => json!({"to": unnum(crate::types::index(&c) as u64)}),
            "ops" => crate::types::ops(),
            k => panic!("no such case: {k}"),
        });
        c["crash"] = json!(r.is_none());
        c["r"] = r.unwrap_or(json!({}));
        writeln!(f, "{c}").unwrap();
        f.flush().unwrap();
        n += 1;
    }
    f.flush().unwrap();
    println!("{}", json!({"cases": n}));
}

/// Random cases that are too large to enumerate.
pub fn draw(a: &HashMap<String, String>) {
    let n: u64 = a["n"].parse().unwrap();
    let mut r = Rng::new(a["seed"].parse::<u64>().unwrap().wrapping_mul(77_777).wrapping_add(5));
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a["out"]).unwrap());
    let big = |r: &mut Rng| json!([*crate::gen::pick(r, &[0i64, 0, 1, 4194304]), r.below(6)]);
    for _ in 0..n {
        let v = match a["what"].as_str() {
            "hist" => {
                let k = 1 + r.below(12);
                let ops: Vec<Value> = (0..k)
                    .map(|_| match r.below(10) {
                        0..=3 => json!({"op": "inc", "t": [r.below(2), r.below(5), false]}),
                        4..=8 => {
                            let b = big(&mut r);
                            json!({"op": "adv", "t": [b[0], b[1], r.below(12) == 0]})
                        }
                        _ => json!({"op": "end", "t": [0, 0, false]}),
                    })
                    .collect();
                json!({"kind": "hist", "ops": ops})
            }
            "store" => {
                let cap = 1 + r.below(4);
                let len = 1 + r.below(14);
                let t = |r: &mut Rng| {
                    let i = r.below(25) == 0;
                    json!([if r.below(5) == 0 { 1 } else { 0 }, r.below(9), i])
                };
                let ops: Vec<Value> = (0..len)
                    .map(|i| {
                        json!({"op": if r.below(8) == 0 { "n" } else { "w" }, "a": r.below(cap + 2), "v": 100 + i as i64, "t": t(&mut r)})
                    })
                    .collect();
                let reads: Vec<Value> = (0..12).map(|_| json!([r.below(cap * 3 + 1), t(&mut r)])).collect();
                json!({"kind": "store", "cap": cap, "mod": r.below(2) == 0, "dflt": r.below(2) == 0, "ops": ops, "reads": reads})
            }
            "init" => {
                let nc = 1 + r.below(5);
                let nch = 1 + r.below(6);
                let bad = r.below(3) > 0;
                let ctxs: Vec<&str> =
                    (0..nc).map(|_| *crate::gen::pick(&mut r, if bad { &["reg", "sub", "out", "reg", "sub", "reg"] } else { &["reg", "sub"] })).collect();
                let ends = |r: &mut Rng| {
                    let k = if bad && r.below(12) == 0 { 0 } else { 1 + (r.below(12) == 0) as u64 };
                    (0..k).map(|_| 1 + r.below(nc)).collect::<Vec<_>>()
                };
                let chans: Vec<Value> = (0..nch)
                    .map(|_| {
                        let void = r.below(6) == 0;
                        let cap = *crate::gen::pick(&mut r, &[-1i64, 1, 3]);
                        json!({"void": void, "cap": cap, "snd": ends(&mut r), "rcv": if void { vec![] } else { ends(&mut r) }})
                    })
                    .collect();
                json!({"kind": "init", "ctxs": ctxs, "chans": chans, "infer": r.below(2) == 0})
            }
            k => panic!("cannot draw {k}"),
        };
        writeln!(f, "{v}").unwrap();
    }
    f.flush().unwrap();
    println!("{}", json!({"cases": n}));
}
