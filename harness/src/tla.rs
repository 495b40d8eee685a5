//! A run in the form the specification reads.
use crate::prog::*;
use serde_json::{json, Value};

fn l(v: &[usize]) -> Value {
    json!(v.iter().map(|x| x + 1).collect::<Vec<_>>())
}

pub fn to_tla(r: &Run) -> Value {
    let p = &r.prog;
    let n = p.ctxs.len();
    let top = |i: usize| p.top(i) + 1;
    let mut procs: Vec<Value> = vec![];
    let mut extra: Vec<Value> = vec![];
    // the process that sends on / receives from a channel
    let mut snd: Vec<usize> = p.chans.iter().map(|c| (c.snd + 1) as usize).collect();
    let mut rcv: Vec<usize> = p.chans.iter().map(|c| (c.rcv + 1) as usize).collect();
    for (i, c) in p.ctxs.iter().enumerate() {
        let mut o = match &c.kind {
            Kind::Script { .. } => json!({"k": "script"}),
            Kind::Gen { out, vals } => json!({"k": "gen", "out": out + 1, "vals": vals}),
            Kind::Trace { out, items } => json!({"k": "trace", "out": out + 1, "items": items.iter().map(|(v, t)| (*v, p.seen(*t as i64))).collect::<Vec<_>>()}),
            Kind::Consumer { inp } => json!({"k": "consumer", "inp": inp + 1}),
            Kind::Checker { inp, vals } => json!({"k": "checker", "inp": inp + 1, "vals": vals}),
            Kind::Approx { inp, vals, tol } => json!({"k": "approx", "inp": inp + 1, "vals": vals, "tol": tol}),
            Kind::Bcast { inp, outs } => json!({"k": "bcast", "inp": inp + 1, "outs": l(outs)}),
            Kind::Pcu { depth, regs, stages, ins, outs } => json!({
                "k": "pcu", "depth": depth, "nregs": regs, "ins": l(ins), "outs": l(outs),
                "stages": stages.iter().map(|s| json!({
                    "op": s.op, "prev": s.prev, "next": s.next, "out": s.out, "fwd": s.forward})).collect::<Vec<_>>()
            }),
            Kind::Pmu { cap, modulo, readers, writers, .. } => {
                let w = n + extra.len() + 1;
                for (a, d, k) in writers {
                    rcv[*a] = w;
                    rcv[*d] = w;
                    snd[*k] = w;
                }
                extra.push(json!({
                    "k": "pmuw", "decl": false, "conns": [], "top": top(i), "own": i + 1, "runs": 1, "inits": 1, "fin": -1, "fininf": true,
                    "cap": cap, "mod": modulo,
                    "ports": writers.iter().map(|(a, d, _)| l(&[*a, *d])).collect::<Vec<_>>(),
                    "outs": writers.iter().map(|(_, _, k)| k + 1).collect::<Vec<_>>(),
                }));
                json!({
                    "k": "pmur", "writer": w, "cap": cap, "mod": modulo,
                    "ports": readers.iter().map(|(a, _)| l(&[*a])).collect::<Vec<_>>(),
                    "outs": readers.iter().map(|(_, d)| d + 1).collect::<Vec<_>>(),
                })
            }
            Kind::Dram { simul, bw, lat, cap, bits, fill, modulo, writers, readers, order, .. } => {
                let (mut w, mut rd) = (writers.iter(), readers.iter());
                let mut ports = vec![];
                let mut outs = vec![];
                for k in order {
                    if *k {
                        let (a, s, d, k) = w.next().unwrap();
                        ports.push(l(&[*a, *s, *d]));
                        outs.push(k + 1);
                    } else {
                        let (a, s, d) = rd.next().unwrap();
                        ports.push(l(&[*a, *s]));
                        outs.push(d + 1);
                    }
                }
                json!({
                    "k": "dram", "simul": simul, "bw": bw, "lat": lat, "cap": cap, "bits": bits, "fill": fill,
                    "mod": modulo, "ports": ports, "outs": outs, "wr": order,
                })
            }
        };
        let m = o.as_object_mut().unwrap();
        m.insert("top".into(), json!(top(i)));
        m.insert("own".into(), json!(i + 1));
        m.insert("decl".into(), json!(c.conns.is_some()));
        m.insert(
            "conns".into(),
            json!(c.conns.iter().flatten().map(|(a, b)| json!([l(a), l(b)])).collect::<Vec<_>>()),
        );
        let script = matches!(c.kind, Kind::Script { .. });
        m.insert("runs".into(), json!(if script { r.runs.get(i).copied().unwrap_or(1) } else { 1 }));
        m.insert("inits".into(), json!(r.inits.get(i).copied().unwrap_or(1)));
        let fin = if matches!(c.kind, Kind::Pmu { .. }) { -1 } else { p.seen(r.fin[i]) };
        m.insert("fin".into(), json!(fin));
        m.insert("fininf".into(), json!(r.fininf[i]));
        procs.push(o);
    }
    procs.extend(extra);
    let mut stamps: Vec<Vec<i64>> = vec![vec![]; p.chans.len()];
    let mut vals: Vec<Vec<i64>> = vec![vec![]; p.chans.len()];
    // when the operations that took the elements began, for scripted receivers
    let mut taken: Vec<Vec<i64>> = vec![vec![]; p.chans.len()];
    let mut logs = r.logs.clone();
    for e in logs.iter_mut().flatten() {
        if matches!(e.op.as_str(), "enq" | "adv" | "wait") {
            e.n = p.seen(e.n);
        }
        (e.t, e.c0, e.c1) = (p.seen(e.t), p.seen(e.c0), p.seen(e.c1));
    }
    for lg in &logs {
        for e in lg {
            if (e.op == "deq" || e.op == "sel") && e.res == "ok" {
                taken[e.ch as usize - 1].push(e.s0);
            }
            if e.op == "enq" && e.res == "ok" {
                let c = e.ch as usize - 1;
                stamps[c].push(e.n.max(e.c1 + p.chans[c].lat as i64));
                vals[c].push(e.v);
            }
        }
    }
    let chans: Vec<Value> = p
        .chans
        .iter()
        .enumerate()
        .map(|(k, c)| {
            json!({
                "cap": c.cap, "lat": c.lat, "rlat": c.rlat, "void": c.void, "snd": snd[k], "rcv": rcv[k],
                "known": matches!(p.ctxs[c.snd as usize].kind, Kind::Script { .. }),
            })
        })
        .collect();
    let mut v = json!({
        "chans": chans, "procs": procs, "logs": logs, "stamps": stamps, "vals": vals, "taken": taken,
        "out": r.outcome, "live": true, "infer": r.infer, "passed": r.passed, "fails": r.fails,
        "elapsed": p.seen(r.elapsed), "early": r.detail.contains("ran-before-init"), "gid": r.gid,
    });
    if let Some(x) = &r.extra {
        let o = v.as_object_mut().unwrap();
        o.insert("x".into(), x.clone());
        o.insert(
            "filters".into(),
            json!(p.filters.iter().map(|f| f.clone().unwrap_or(vec!["none".into()])).collect::<Vec<_>>()),
        );
        let all = n + p.groups.len();
        o.insert("parent".into(), json!((0..all).map(|i| p.parent(i).map_or(0, |g| g + 1)).collect::<Vec<_>>()));
        o.insert("nctx".into(), json!(n));
    }
    v
}
