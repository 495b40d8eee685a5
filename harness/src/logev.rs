//! Log events of three types, and helpers.
use dam::dam_macros::event_type;
use dam::logging::{log_event, log_event_cb};
use serde::{Deserialize, Serialize};

#[event_type]
#[derive(Serialize, Deserialize, Debug)]
pub struct EvA {
    pub n: i64,
}
#[event_type]
#[derive(Serialize, Deserialize, Debug)]
pub struct EvB {
    pub n: i64,
}
#[event_type]
#[derive(Serialize, Deserialize, Debug)]
pub struct EvC {
    pub n: i64,
}

pub fn log(ty: u8, n: i64, cb: bool) -> Result<(), dam::logging::LogError> {
    match (ty, cb) {
        (0, false) => log_event(&EvA { n }),
        (1, false) => log_event(&EvB { n }),
        (_, false) => log_event(&EvC { n }),
        (0, true) => log_event_cb::<EvA, _>(|| called(EvA { n })),
        (1, true) => log_event_cb::<EvB, _>(|| called(EvB { n })),
        (_, true) => log_event_cb::<EvC, _>(|| called(EvC { n })),
    }
}

thread_local! {
    pub static CALLED: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
fn called<T>(x: T) -> T {
    CALLED.with(|c| c.set(c.get() + 1));
    x
}

/// The context id named by a failure's message ("Simulation of ID failed with message ...").
pub fn failed_id(s: &str) -> usize {
    s.split(|c: char| !c.is_ascii_digit()).find(|x| !x.is_empty()).and_then(|x| x.parse().ok()).unwrap_or(usize::MAX)
}

#[cfg(feature = "dot")]
use crate::exec::digits;
use crate::exec::Book;
use crate::prog::Prog;
use serde_json::{json, Value};

#[cfg(feature = "logging")]
pub fn filter(names: &[String]) -> dam::logging::LogFilter {
    if names.iter().any(|n| n == "*") {
        dam::logging::LogFilter::AllowAll
    } else {
        dam::logging::LogFilter::Some(names.iter().cloned().collect())
    }
}

/// The entries that were logged: [context, type, variant, number, channel, tick, infinite].
#[cfg(feature = "logging")]
pub fn entries(b: &Book, ids: &[usize], p: &Prog) -> Value {
    let mut out = vec![];
    while let Ok(e) = b.comm.1.try_recv() {
        let v = serde_json::to_value(&e).unwrap();
        let data = &v["event_data"];
        let (what, inner) = match data.as_object() {
            Some(o) if o.len() == 1 && !o.contains_key("n") => {
                let (k, x) = o.iter().next().unwrap();
                (k.clone(), x.clone())
            }
            Some(_) => (String::new(), data["n"].clone()),
            None => (data.as_str().unwrap_or("").to_string(), Value::Null),
        };
        let num = inner.as_i64().or(inner["time"].as_i64()).unwrap_or(-1);
        let chan = inner["id"].as_u64().or(inner[0]["id"].as_u64()).map_or(0, |x| b.chan(x as usize));
        let num = if what == "" { num } else { p.seen(num) };
        let num = if num > 1_000_000_000 { -2 } else { num };
        out.push(json!([
            b.code(ids, v["context"].as_u64().unwrap() as usize),
            v["event_type"],
            what,
            num,
            chan,
            v["ticks"]["time"].as_i64().map(|t| p.seen(t)),
            v["ticks"]["done"]
        ]));
    }
    json!(out)
}
#[cfg(not(feature = "logging"))]
pub fn entries(_: &Book, _: &[usize], _: &Prog) -> Value {
    json!([])
}

/// For each set of names: whether a filter of them is valid, and the names that are reported.
#[cfg(feature = "logging")]
pub fn checks(p: &Prog) -> Value {
    let mut out = vec![];
    for c in &p.checks {
        let (ok, mut bad) = match filter(c).check() {
            Ok(()) => (true, vec![]),
            Err(dam::logging::LogError::InvalidFilter(v)) => (false, v),
            Err(_) => (false, vec!["?".to_string()]),
        };
        bad.sort();
        out.push(json!({"names": c, "ok": ok, "bad": bad}));
    }
    json!(out)
}
#[cfg(not(feature = "logging"))]
pub fn checks(_: &Prog) -> Value {
    json!([])
}

/// The graph dump: nodes [context, parent, leaf, labelled with its id], edges [from, to, channel, capacity, latencies].
#[cfg(feature = "dot")]
pub fn dump<T: dam::simulation::DotConvertible>(x: &T, ids: &[usize], b: &Book) -> Value {
    use graphviz_rust::dot_structures::*;
    fn text(i: &Id) -> String {
        match i {
            Id::Html(s) | Id::Escaped(s) | Id::Plain(s) | Id::Anonymous(s) => s.clone(),
        }
    }
    fn attr(v: &[Attribute], k: &str) -> String {
        v.iter().find(|Attribute(n, _)| text(n) == k).map_or(String::new(), |Attribute(_, x)| text(x))
    }
    fn ends(v: &Vertex) -> Option<usize> {
        match v {
            Vertex::N(NodeId(i, _)) => digits(&text(i)),
            Vertex::S(s) => digits(&text(&s.id)),
        }
    }
    fn after(s: &str, key: &str) -> i64 {
        match s.find(key) {
            Some(i) => {
                let rest: String = s[i + key.len()..].chars().take_while(|c| *c != '\\' && *c != '\n').collect();
                digits(&rest).map_or(-1, |x| x as i64)
            }
            None => -7,
        }
    }
    struct W<'a> {
        ids: &'a [usize],
        b: &'a Book,
        nodes: Vec<Value>,
        edges: Vec<Value>,
    }
    impl W<'_> {
        fn named(&self, id: Option<usize>, label: &str) -> bool {
            id.is_some() && digits(label) == id
        }
        fn walk(&mut self, stmts: &[Stmt], parent: usize) {
            for s in stmts {
                match s {
                    Stmt::Node(n) => {
                        let label = attr(&n.attributes, "label");
                        if label.contains("void") && !label.contains('(') {
                            continue;
                        }
                        let id = digits(&text(&n.id.0));
                        let c = id.map_or(0, |x| self.b.code(self.ids, x));
                        self.nodes.push(json!([c, parent, true, self.named(id, &label)]));
                    }
                    Stmt::Subgraph(g) => {
                        let id = digits(&text(&g.id));
                        let c = id.map_or(0, |x| self.b.code(self.ids, x));
                        let mut label = String::new();
                        for t in &g.stmts {
                            match t {
                                Stmt::Attribute(Attribute(k, v)) if text(k) == "label" => label = text(v),
                                Stmt::GAttribute(GraphAttributes::Graph(v)) => label = attr(v, "label"),
                                _ => {}
                            }
                        }
                        self.nodes.push(json!([c, parent, false, self.named(id, &label)]));
                        self.walk(&g.stmts, c);
                    }
                    Stmt::Edge(e) => {
                        let label = attr(&e.attributes, "label");
                        let tip = attr(&e.attributes, "tooltip");
                        if let EdgeTy::Pair(x, y) = &e.ty {
                            let cd = |v: &Vertex| ends(v).map_or(0, |i| self.b.code(self.ids, i));
                            let (f, t) = (cd(x), cd(y));
                            if attr(&e.attributes, "style").contains("dotted") && t == 0 {
                                continue;
                            }
                            let rest = tip.replace("RespLatency", "Resp");
                            self.edges.push(json!([
                                f,
                                t,
                                digits(&label).map_or(0, |x| self.b.chan(x)),
                                after(&rest, "Capacity:"),
                                after(&rest, "Latency:"),
                                after(&rest, "Resp:")
                            ]));
                        } else {
                            self.edges.push(json!([0, 0, 0, 0, 0, 0]));
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    let mut w = W { ids, b, nodes: vec![], edges: vec![] };
    match x.to_dot() {
        Graph::Graph { stmts, .. } | Graph::DiGraph { stmts, .. } => w.walk(&stmts, 0),
    }
    json!({"nodes": w.nodes, "edges": w.edges})
}
#[cfg(not(feature = "dot"))]
pub fn dump<T>(_: &T, _: &[usize], _: &Book) -> Value {
    json!({"nodes": [], "edges": []})
}
