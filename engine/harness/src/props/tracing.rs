//! G19: the request id and the trace context of a request go with its calls, and no other request's do.
use super::kit::*;
use crate::cfg::quote;
use crate::pb;
use crate::prop::*;
use crate::rng::Rng;
use crate::world::{World, ROOT};
use proxy_wasm::sim::{self, Call, Headers};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

const ID_HEADER: &str = "x-kuadrant-id";
pub(super) const EXPORT: &str = "opentelemetry.proto.collector.trace.v1.TraceService";

#[derive(Clone, Debug)]
enum Tp {
    None,
    Invalid(String),
    Valid { trace: String, span: String, sampled: bool },
}

#[derive(Clone, Debug)]
struct Req {
    host: usize,
    tp: Tp,
    state: Option<String>,
    bag: BTreeSet<String>,
    rid: Option<String>,
}

#[derive(Clone, Debug)]
enum Op {
    Start(usize),
    Headers(usize),
    /// the nth call made that is not an export
    Reply(usize, u32, Vec<u8>),
    Answer(usize),
    Destroy(usize),
}

pub(super) struct Span {
    pub(super) trace: String,
    id: String,
    parent: String,
    state: String,
    pub(super) name: String,
    attrs: BTreeMap<String, String>,
}

thread_local! {
    /// request ids the module made up, over all cases of this process
    static MADE_UP: RefCell<HashSet<String>> = RefCell::new(HashSet::new());
    static EXPORTED: RefCell<HashSet<String>> = RefCell::new(HashSet::new());
    /// traces of earlier cases, whose last spans may still be waiting
    static OLD: RefCell<HashMap<String, (bool, String)>> = RefCell::new(HashMap::new());
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub(super) fn spans(msg: &[u8]) -> Option<Vec<Span>> {
    let mut out = vec![];
    for rs in pb::all_msgs(&pb::dec(msg)?, 1) {
        for ss in pb::all_msgs(&rs, 2) {
            for sp in pb::all_msgs(&ss, 2) {
                let raw = |f| match pb::get(&sp, f) {
                    Some(pb::W::Len(b)) => hex(b),
                    _ => String::new(),
                };
                let attrs = pb::all_msgs(&sp, 9).iter().map(|kv| (pb::get_str(kv, 1), pb::get_msg(kv, 2).map_or(String::new(), |v| pb::get_str(&v, 1)))).collect();
                out.push(Span { trace: raw(1), id: raw(2), parent: raw(4), state: pb::get_str(&sp, 3), name: pb::get_str(&sp, 5), attrs });
            }
        }
    }
    Some(out)
}

fn meta<'a>(c: &'a Call, k: &str) -> Vec<&'a str> {
    c.metadata.iter().filter(|(n, _)| n == k).map(|(_, v)| std::str::from_utf8(v).unwrap_or("?")).collect()
}

fn is_uuid(s: &str) -> bool {
    s.len() == 36 && s.bytes().enumerate().all(|(i, b)| if [8, 13, 18, 23].contains(&i) { b == b'-' } else { b.is_ascii_hexdigit() })
}

/// A configuration: per host an action set; `level` None means no tracing.
fn config(rng: &mut Rng, hosts: usize) -> (Vec<J>, J) {
    let mut services = serde_json::Map::new();
    services.insert("rd".into(), svc("ratelimit", "rl-deny", "deny"));
    services.insert("ra".into(), svc("ratelimit", "rl-allow", "allow"));
    let mut sets = vec![];
    for h in 0..hosts {
        let mut actions = vec![];
        let mut vars: Vec<String> = vec![];
        for j in 0..rng.range(1, 3) {
            let var = format!("v{j}");
            let mut on_reply = vec![];
            if rng.pct(40) {
                on_reply.push(deny("envoy.service.auth.v3.DeniedHttpResponse { status: envoy.type.v3.HttpStatus { code: 403 } }", &format!("{var}.overall_code == 2")));
            }
            if rng.pct(40) {
                on_reply.push(set_headers(rng.pct(50), &format!("[['x-{var}', 'h{h}']]"), "true"));
            }
            if rng.pct(35) {
                on_reply.push(call(if rng.pct(50) { "ra" } else { "rd" }, &format!("n{j}"), &quote(&format!("nested{j}")), vec![]));
            }
            let mut c = call(if rng.pct(50) { "ra" } else { "rd" }, &var, &quote(&format!("d{j}")), on_reply);
            if let (true, Some(v)) = (rng.pct(40), vars.last()) {
                c["predicate"] = json!(format!("{v}.overall_code == 1"));
            }
            if rng.pct(30) {
                c["sources"] = json!(["ns/a", "ns/b"]);
            }
            if rng.pct(30) {
                c["label"] = json!("the-label");
            }
            if rng.pct(20) {
                c["isGuard"] = json!(false);
            }
            actions.push(c);
            vars.push(var);
        }
        if rng.pct(30) {
            actions.push(json!({"service": if rng.pct(50) { "ra" } else { "rd" }, "scope": "legacy", "conditionalData": [{"data": [{"static": {"key": "k", "value": "v"}}]}]}));
        }
        if rng.pct(30) {
            actions.push(set_headers(rng.pct(50), "[['x-set', 'yes']]", "true"));
        }
        sets.push(aset(&format!("set{h}"), &format!("h{h}.test"), actions));
    }
    (sets, J::Object(services))
}

fn full_config(sets: &[J], services: &J, level: Option<&str>, ident: bool) -> String {
    let mut s = services.clone();
    let mut obs = json!({});
    if ident {
        obs["httpHeaderIdentifier"] = json!(ID_HEADER);
    }
    if let Some(l) = level {
        s["tr"] = svc("tracing", "otel-cluster", "deny");
        obs["tracing"] = json!({"service": "tr"});
        if !l.is_empty() {
            obs["defaultLevel"] = json!(l);
        }
    }
    json!({"services": s, "actionSets": sets, "observability": obs}).to_string()
}

fn request(rng: &mut Rng, hosts: usize, i: usize) -> Req {
    let h16 = |rng: &mut Rng| format!("{:016x}", rng.next() | 1);
    let tp = match rng.below(10) {
        0 | 1 => Tp::None,
        2 => {
            let t = format!("{}{}", h16(rng), h16(rng));
            let s = h16(rng);
            Tp::Invalid(match rng.below(5) {
                0 => format!("00-{}-{s}-01", "0".repeat(32)),
                1 => format!("00-{t}-{}-01", "0".repeat(16)),
                2 => format!("00-{}z-{s}-01", &t[1..]),
                3 => "garbage".into(),
                _ => format!("ff-{t}-{s}-01"),
            })
        }
        n => Tp::Valid { trace: format!("{}{}", h16(rng), h16(rng)), span: h16(rng), sampled: n < 9 },
    };
    let bag = if rng.pct(40) { (0..rng.range(1, 2)).map(|k| format!("b{k}=s{i}{}", rng.below(100))).collect() } else { BTreeSet::new() };
    Req {
        host: rng.below(hosts),
        tp,
        state: rng.pct(40).then(|| format!("vendor{i}=x{},other=y", rng.below(1000))),
        bag,
        rid: rng.pct(60).then(|| format!("rid-{i}-{:08x}", rng.next() as u32)),
    }
}

/// What is known of a live request.
#[derive(Default, Clone)]
struct Known {
    ctx: u32,
    id: Option<String>,
    trace: Option<String>,
    parents: Vec<String>,
    exported: u32,
    responded: bool,
    replied: bool,
    gone: bool,
    headers: bool,
    governed: bool,
}

struct Run<'a> {
    w: World,
    reqs: &'a [Req],
    known: Vec<Known>,
    /// tokens of the calls that are not exports, in order
    made: Vec<(usize, u32, bool)>,
    exports: Vec<u32>,
    /// spans on
    spans: bool,
    service: bool,
    ident: bool,
    traces: HashMap<String, (bool, String)>,
    got: Vec<Span>,
    /// per op: what it showed, without what tracing adds
    effects: Vec<Vec<String>>,
}

type E = (String, String);

impl<'a> Run<'a> {
    fn check_call(&mut self, i: usize, c: &Call, cov: &mut Cov) -> Result<(), E> {
        let r = &self.reqs[i];
        let k = &mut self.known[i];
        let ids = meta(c, "x-request-id");
        if ids.len() != 1 {
            return Err(("request-id".into(), format!("request {i}: {} request ids on {}: {ids:?}", ids.len(), c.service)));
        }
        let id = ids[0].to_string();
        match (&r.rid, &k.id) {
            (Some(want), _) if *want != id => return Err(("request-id".into(), format!("request {i} came as {want}, its call to {} as {id}", c.upstream))),
            (None, Some(had)) if *had != id => return Err(("request-id-changed".into(), format!("request {i}: {had} then {id}"))),
            (None, None) => {
                if !is_uuid(&id) || !MADE_UP.with(|m| m.borrow_mut().insert(id.clone())) {
                    return Err(("request-id-reused".into(), format!("request {i} without an id was given {id}")));
                }
                cov.state("id_made_up");
            }
            _ => {}
        }
        k.id = Some(id);
        let tps = meta(c, "traceparent");
        if tps.len() > 1 {
            return Err(("trace-context".into(), format!("request {i}: {tps:?}")));
        }
        let export = c.service == EXPORT;
        match (&r.tp, tps.first()) {
            (Tp::Valid { trace, span, sampled }, Some(t)) => {
                let p: Vec<&str> = t.split('-').collect();
                let ok = p.len() == 4 && p[0] == "00" && p[1] == trace && p[2].len() == 16 && p[3] == if *sampled { "01" } else { "00" };
                if !ok {
                    return Err(("trace-context".into(), format!("request {i} is of trace {trace} (sampled {sampled}), its call to {} carries {t}", c.upstream)));
                }
                if !self.spans && p[2] != span {
                    return Err(("trace-context".into(), format!("request {i}: the parent {span} became {t} without tracing")));
                }
                if self.spans && !export && *sampled {
                    if p[2] == span {
                        return Err(("trace-span".into(), format!("request {i}: its call to {} names the caller's span {span} as its parent", c.upstream)));
                    }
                    k.parents.push(p[2].into());
                    cov.state("traced_call");
                }
            }
            (Tp::Valid { .. }, None) => return Err(("trace-context".into(), format!("request {i}: the call to {} carries no trace context", c.upstream))),
            (_, Some(t)) if !self.spans => return Err(("trace-context".into(), format!("request {i} has no valid trace context, its call to {} carries {t}", c.upstream))),
            (_, Some(t)) => {
                let p: Vec<&str> = t.split('-').collect();
                if p.len() != 4 || p[1].len() != 32 || p[3] != "01" {
                    return Err(("trace-context".into(), format!("request {i}: {t}")));
                }
                match &k.trace {
                    Some(h) if h != p[1] => return Err(("trace-context".into(), format!("request {i}: trace {h}, then {t} on its call to {}", c.upstream))),
                    Some(_) => {}
                    None => {
                        if self.traces.contains_key(p[1]) || OLD.with(|o| o.borrow().contains_key(p[1])) {
                            return Err(("trace-context".into(), format!("request {i} without trace context: its call to {} carries {t}, another request's", c.upstream)));
                        }
                        k.trace = Some(p[1].into());
                        self.traces.insert(p[1].into(), (true, k.id.clone().unwrap()));
                        cov.state("trace_started");
                    }
                }
                if !export {
                    k.parents.push(p[2].into());
                }
            }
            (_, None) if self.spans && !export => return Err(("trace-context".into(), format!("request {i}: tracing on, the call to {} carries no trace context", c.upstream))),
            _ => {}
        }
        let states = meta(c, "tracestate");
        let want: Vec<&str> = match (&r.tp, &r.state) {
            (Tp::Valid { .. }, Some(s)) => vec![s],
            _ => vec![],
        };
        if states != want {
            return Err(("trace-state".into(), format!("request {i}: {states:?}, expected {want:?} on its call to {}", c.upstream)));
        }
        let bag: BTreeSet<String> = meta(c, "baggage").iter().flat_map(|b| b.split(',')).map(|s| s.trim().to_string()).collect();
        if bag != r.bag {
            return Err(("baggage".into(), format!("request {i}: {bag:?}, expected {:?} on its call to {}", r.bag, c.upstream)));
        }
        if !bag.is_empty() {
            cov.state("baggage");
        }
        Ok(())
    }

    fn check_export(&mut self, i: usize, c: &Call, cov: &mut Cov) -> Result<(), E> {
        if !self.service {
            return Err(("exported".into(), format!("request {i}: an export with no tracing")));
        }
        if (c.upstream.as_str(), c.method.as_str()) != ("otel-cluster", "Export") {
            return Err(("exported".into(), format!("{c:?}")));
        }
        let list = spans(&c.message).ok_or_else(|| ("exported".to_string(), "not an export request".to_string()))?;
        if list.is_empty() {
            return Err(("exported".into(), format!("request {i}: an export of nothing")));
        }
        self.known[i].exported += 1;
        if self.known[i].exported > 1 {
            return Err(("exported-twice".into(), format!("request {i}: a second export")));
        }
        for s in list {
            if !EXPORTED.with(|e| e.borrow_mut().insert(format!("{}{}", s.trace, s.id))) {
                return Err(("span-twice".into(), format!("the span {} ({}) was exported twice", s.id, s.name)));
            }
            let owner = self.traces.get(&s.trace).cloned().or_else(|| OLD.with(|o| o.borrow().get(&s.trace).cloned()));
            if !self.spans && self.traces.contains_key(&s.trace) {
                return Err(("exported".into(), format!("the span {} of the trace {} while the level is off", s.name, s.trace)));
            }
            if let Some((false, _)) = owner {
                return Err(("not-sampled".into(), format!("the span {} of the trace {}, which is not sampled", s.name, s.trace)));
            }
            if s.name == "kuadrant_filter" {
                let rid = s.attrs.get("request_id").cloned().unwrap_or_default();
                if let Some(j) = self.known.iter().position(|k| k.id.as_ref() == Some(&rid)) {
                    cov.state("root_span");
                    let r = &self.reqs[j];
                    let (t, p, st) = match &r.tp {
                        Tp::Valid { trace, span, .. } => (Some(trace.clone()), span.clone(), r.state.clone().unwrap_or_default()),
                        _ => (self.known[j].trace.clone(), String::new(), String::new()),
                    };
                    if t.as_ref().is_some_and(|t| *t != s.trace) || s.parent != p || s.state != st {
                        return Err(("root-span".into(), format!("request {j} ({t:?}, parent {p:?}, state {st:?}): its span has trace {}, parent {:?}, state {:?}", s.trace, s.parent, s.state)));
                    }
                    let (hn, an) = (format!("h{}.test", r.host), format!("set{}", r.host));
                    if s.attrs.get("hostname") != Some(&hn) || s.attrs.get("action_set") != Some(&an) {
                        return Err(("root-span".into(), format!("request {j} for {hn}: {:?}", s.attrs)));
                    }
                }
            }
            self.got.push(s);
        }
        cov.state("export");
        Ok(())
    }

    fn op(&mut self, op: &Op, cov: &mut Cov) -> Result<(), E> {
        let mark = World::mark();
        cov.events += 1;
        let who = match op {
            Op::Start(i) => {
                let r = &self.reqs[*i];
                let mut hs: Vec<(String, String)> = vec![];
                match &r.tp {
                    Tp::None => {}
                    Tp::Invalid(t) => hs.push(("traceparent".into(), t.clone())),
                    Tp::Valid { trace, span, sampled } => hs.push(("traceparent".into(), format!("00-{trace}-{span}-{}", if *sampled { "01" } else { "00" }))),
                }
                if let Some(s) = &r.state {
                    hs.push(("tracestate".into(), s.clone()));
                }
                if !r.bag.is_empty() {
                    hs.push(("baggage".into(), r.bag.iter().cloned().collect::<Vec<_>>().join(",")));
                }
                if let Some(id) = &r.rid {
                    hs.push(("x-request-id".into(), id.clone()));
                }
                let mut s = stream(&format!("h{}.test", r.host), &hs);
                full(&mut s);
                self.known[*i].ctx = self.w.new_stream(s);
                if let Tp::Valid { trace, sampled, .. } = &r.tp {
                    self.traces.insert(trace.clone(), (*sampled, String::new()));
                }
                self.w.request_headers(self.known[*i].ctx, true);
                *i
            }
            Op::Headers(i) => {
                let ctx = self.known[*i].ctx;
                respond(ctx, vec![(":status".into(), "200".into())]);
                self.known[*i].headers = true;
                self.w.response_headers(ctx, true);
                *i
            }
            Op::Reply(n, st, b) => {
                let Some((i, t, done)) = self.made.get(*n).cloned() else {
                    return Err(("call-missing".into(), format!("call {n} was not made")));
                };
                assert!(!done);
                self.made[*n].2 = true;
                self.w.grpc_reply(t, *st, Some(b.clone()));
                i
            }
            Op::Answer(n) => {
                let t = self.exports[*n];
                let i = sim::with(|h| h.tokens.get(&t).map(|t| t.ctx));
                if let Some(ctx) = i {
                    self.w.grpc_reply(t, 0, Some(vec![]));
                    let k = self.known.iter().position(|k| k.ctx == ctx).unwrap();
                    let s = seen(mark);
                    if !s.maps.is_empty() || !s.metrics.is_empty() || !s.replies.is_empty() || !s.calls.is_empty() || !s.panics.is_empty() {
                        return Err(("export-answer".into(), format!("the answer to an export did {:?}", s.trace)));
                    }
                    cov.state("export_answer");
                    k
                } else {
                    0
                }
            }
            Op::Destroy(i) => {
                let ctx = self.known[*i].ctx;
                self.w.log_done(ctx);
                self.w.destroy(ctx);
                self.known[*i].gone = true;
                for m in self.made.iter_mut().filter(|m| m.0 == *i) {
                    m.2 = true;
                }
                *i
            }
        };
        let s = seen(mark);
        if let Some(p) = s.panics.first() {
            return Err(("panic".into(), p.clone()));
        }
        let mut eff = vec![];
        for (t, c) in &s.calls {
            self.check_call(who, c, cov)?;
            self.known[who].governed = true;
            if c.service == EXPORT {
                self.check_export(who, c, cov)?;
                self.exports.push(*t);
            } else {
                self.made.push((who, *t, false));
                eff.push(format!("call {} {} {} {}", c.upstream, c.service, c.method, hex(&c.message)));
            }
        }
        let id = self.known[who].id.clone();
        let mask = |h: &Headers| -> String {
            let mut o = vec![];
            for (n, v) in h {
                if n == ID_HEADER {
                    o.push(format!("{n}: {}", if Some(v) == id.as_ref() { "ID" } else { v }));
                } else {
                    o.push(format!("{n}: {v}"));
                }
            }
            o.join(", ")
        };
        let check_id = |h: &Headers| -> Result<(), E> {
            let v: Vec<&String> = h.iter().filter(|(n, _)| n == ID_HEADER).map(|(_, v)| v).collect();
            match (&id, v.as_slice()) {
                (_, []) => Ok(()),
                (Some(id), [v]) if *v == id => Ok(()),
                _ => Err(("id-header".into(), format!("request {who} is {id:?}, the client is told {v:?}"))),
            }
        };
        for (st, h, b) in &s.replies {
            self.known[who].replied = true;
            eff.push(format!("reply {st} [{}] {b:?}", mask(h)));
            check_id(h)?;
            if self.ident && !h.iter().any(|(n, _)| n == ID_HEADER) {
                return Err(("id-header".into(), format!("request {who}: a reply without {ID_HEADER}: {h:?}")));
            }
        }
        for (m, h) in &s.maps {
            eff.push(format!("map {m:?} [{}]", mask(h)));
            check_id(h)?;
        }
        eff.push(format!("actions {:?} resumed {:?} exports {:?}", s.actions, s.resumed, s.exports));
        eff.extend(s.metrics.iter().map(|m| format!("{m:?}")));
        self.effects.push(eff);

        // what is over by now
        let k = &self.known[who];
        let finished = !k.gone && (k.replied || (k.headers && !self.made.iter().any(|m| m.0 == who && !m.2)));
        if finished && self.ident && !k.replied && !k.responded {
            let h = resp_headers(k.ctx);
            if id.is_some() && !h.iter().any(|(n, v)| n == ID_HEADER && Some(v) == id.as_ref()) {
                return Err(("id-header".into(), format!("request {who} ({id:?}): the response carries {h:?}")));
            }
        }
        let traced = self.spans && self.ident && k.governed;
        if finished && !k.responded && traced {
            let sampled = !matches!(&self.reqs[who].tp, Tp::Valid { sampled: false, .. });
            let trace = match &self.reqs[who].tp {
                Tp::Valid { trace, .. } => Some(trace.clone()),
                _ => k.trace.clone(),
            };
            if sampled {
                let rid = id.clone().unwrap_or_default();
                if !self.got.iter().any(|s| s.name == "kuadrant_filter" && trace.as_ref().is_none_or(|t| *t == s.trace) && s.attrs.get("request_id") == Some(&rid)) {
                    return Err(("not-exported".into(), format!("request {who} ({rid}, trace {trace:?}) is over, its span was not exported")));
                }
                if let Some(p) = k.parents.iter().find(|p| !self.got.iter().any(|s| s.id == **p && Some(&s.trace) == trace.as_ref())) {
                    return Err(("not-exported".into(), format!("request {who} is over; the span {p} its call named was not exported")));
                }
                cov.state("exported_whole");
            }
        }
        if finished {
            self.known[who].responded = true;
        }
        Ok(())
    }
}

fn start<'a>(cfg: &str, reqs: &'a [Req], spans: bool, service: bool, ident: bool) -> Option<Run<'a>> {
    let mut w = World::new();
    if !w.configure(cfg) {
        return None;
    }
    Some(Run { w, reqs, known: vec![Known::default(); reqs.len()], made: vec![], exports: vec![], spans, service, ident, traces: HashMap::new(), got: vec![], effects: vec![] })
}

fn g19(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let hosts = rng.range(1, 3);
    let (sets, services) = config(rng, hosts);
    let reqs: Vec<Req> = (0..rng.range(1, 5)).map(|i| request(rng, hosts, i)).collect();
    let level = match rng.below(8) {
        0 | 1 => None,
        2 => Some(*rng.pick(&["", "WARN", "ERROR", "OFF"])),
        3 | 4 => Some("INFO"),
        5 | 6 => Some("DEBUG"),
        _ => Some("TRACE"),
    };
    let spans_on = matches!(level, Some("INFO" | "DEBUG" | "TRACE"));
    let ident = spans_on || rng.pct(60);
    let cfg = full_config(&sets, &services, level, ident);
    cov.state(if spans_on { "tracing" } else if level.is_some() { "tracing_quiet" } else { "no_tracing" });
    let mark = 0;
    let Some(mut run) = start(&cfg, &reqs, spans_on, level.is_some(), ident) else {
        return Err(fail("rejected", "the configuration was rejected".into(), &cfg, mark));
    };
    let mut ops: Vec<Op> = vec![];
    let mut started = 0;
    let mut shape = String::new();
    loop {
        let open: Vec<usize> = run.made.iter().enumerate().filter(|(_, m)| !m.2).map(|(n, _)| n).collect();
        let waiting: Vec<usize> = (0..run.exports.len()).filter(|n| sim::with(|h| h.tokens.contains_key(&run.exports[*n]))).collect();
        let mut choices: Vec<Op> = vec![];
        if started < reqs.len() {
            choices.push(Op::Start(started));
        }
        for n in open.iter().take(4) {
            let (st, b) = match rng.below(8) {
                0 => (14, vec![]),
                1 => (0, pb::rl_response(2, &[])),
                2 => (0, vec![0xff, 0xff]),
                _ => (0, pb::rl_response(1, &[])),
            };
            choices.push(Op::Reply(*n, st, b));
        }
        for i in 0..started {
            let k = &run.known[i];
            if k.gone {
                continue;
            }
            let held = run.made.iter().any(|m| m.0 == i && !m.2);
            if !k.headers && !k.replied && !held {
                choices.push(Op::Headers(i));
            }
            if k.responded || rng.pct(4) {
                choices.push(Op::Destroy(i));
            }
        }
        if let (true, Some(n)) = (rng.pct(50), waiting.first()) {
            choices.push(Op::Answer(*n));
        }
        if choices.is_empty() || ops.len() > 80 {
            break;
        }
        let op = choices[rng.below(choices.len())].clone();
        if let Op::Start(_) = op {
            started += 1;
        }
        shape.push_str(match &op {
            Op::Start(_) => "s",
            Op::Headers(_) => "h",
            Op::Reply(..) => "r",
            Op::Answer(_) => "a",
            Op::Destroy(_) => "d",
        });
        ops.push(op.clone());
        if run.known.iter().filter(|k| k.ctx != 0 && !k.gone && !k.responded).count() > 1 {
            cov.state("interleaved");
        }
        if let Err((sig, d)) = run.op(&op, cov) {
            return Err(fail(&sig, format!("{d}\nrequests: {reqs:?}\nsteps: {ops:?}"), &cfg, mark));
        }
    }
    for (t, v) in run.traces.drain() {
        OLD.with(|o| o.borrow_mut().insert(t, v));
    }
    cov.distinct(&format!("{level:?} {shape}"));
    let effects = std::mem::take(&mut run.effects);
    drop(run);
    if rng.pct(3) {
        cov.sample(format!("{level:?} {} requests, steps {shape}", reqs.len()));
    }

    // the same requests without tracing: nothing but trace metadata and exports may differ
    if spans_on {
        let plain = full_config(&sets, &services, None, ident);
        let Some(mut run) = start(&plain, &reqs, false, false, ident) else {
            return Err(fail("rejected", "the configuration without tracing was rejected".into(), &plain, mark));
        };
        for (n, op) in ops.iter().enumerate() {
            if let Op::Answer(_) = op {
                run.effects.push(effects[n].clone());
                continue;
            }
            let r = run.op(op, cov);
            if r.is_err() || run.effects.last() != Some(&effects[n]) {
                let d = format!("step {n} ({op:?}) with tracing: {:?}\nwithout: {:?} {r:?}\nrequests: {reqs:?}\nsteps: {ops:?}", effects[n], run.effects.last());
                return Err(fail("tracing-changes", d, &cfg, mark));
            }
        }
        cov.state("same_untraced");
    }
    let _ = ROOT;
    Ok(())
}

pub static G19: Prop = Prop {
    id: "G19",
    level: "exploration",
    rule: "a case counts as distinct by the tracing level and the sequence of request starts, answers, response headers, export answers and cut-offs over the interleaved requests",
    quick: 4000,
    thorough: 400_000,
    case: g19,
    probes: &[],
    need: &["tracing", "no_tracing", "tracing_quiet", "interleaved", "traced_call", "trace_started", "id_made_up", "baggage", "export", "root_span", "exported_whole", "same_untraced", "export_answer"],
    assumptions: super::pipeline::ASSUME,
};

/// G23: what tracing keeps is bounded, and what it keeps is the newest.
fn g23(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let mut services = serde_json::Map::new();
    services.insert("ra".into(), svc("ratelimit", "rl-allow", "allow"));
    services.insert("tr".into(), svc("tracing", "otel-cluster", "deny"));
    let calls = rng.range(1, 3);
    let actions = (0..calls).map(|j| call("ra", &format!("v{j}"), &quote(&format!("d{j}")), vec![])).collect();
    let cfg = json!({"services": services, "actionSets": [aset("set", "h.test", actions)], "observability": {"httpHeaderIdentifier": ID_HEADER, "defaultLevel": "INFO", "tracing": {"service": "tr"}}}).to_string();
    let mut w = World::new();
    if !w.configure(&cfg) {
        return Err(fail("rejected", "the configuration was rejected".into(), &cfg, 0));
    }
    let mut log: Vec<String> = vec![];
    let mut serial = 0;
    // ids of requests whose spans ended since the last export, with how many spans each left, oldest first
    let mut ended: Vec<(String, usize)> = vec![];
    let mut rounds = rng.range(1, 4);
    // the first export takes what earlier cases left
    let mut first = true;
    while first || rounds > 0 {
        let most = if rng.pct(50) { 30 } else { 130 };
        let quiet = if first { 0 } else { rng.below(most) };
        // several requests at a time are cut off in any order
        let mut open: Vec<(u32, String)> = vec![];
        for n in 0..quiet {
            serial += 1;
            let id = format!("g23-{serial}");
            let mut s = stream("h.test", &[("x-request-id".into(), id.clone())]);
            full(&mut s);
            let ctx = w.new_stream(s);
            w.request_headers(ctx, true);
            cov.events += 1;
            let unanswered = rng.below(calls + 1);
            for t in w.outstanding(ctx).into_iter().skip(unanswered) {
                w.grpc_reply(t, 0, Some(pb::rl_response(1, &[])));
            }
            open.push((ctx, id));
            while open.len() > 3 || (n + 1 == quiet && !open.is_empty()) {
                let (ctx, id) = open.remove(rng.below(open.len()));
                w.log_done(ctx);
                w.destroy(ctx);
                ended.push((id, calls + 1));
            }
        }
        log.push(format!("{quiet} requests cut off"));
        serial += 1;
        let id = format!("g23-{serial}");
        let mut s = stream("h.test", &[("x-request-id".into(), id.clone())]);
        full(&mut s);
        let ctx = w.new_stream(s);
        w.request_headers(ctx, true);
        for t in w.outstanding(ctx) {
            w.grpc_reply(t, 0, Some(pb::rl_response(1, &[])));
        }
        let refuse = !first && rng.pct(15);
        if refuse {
            sim::with(|h| h.faults = Some(Box::new(|_, k, _| (k == sim::Kind::Dispatch).then_some(proxy_wasm::types::Status::InternalFailure))));
        }
        respond(ctx, vec![(":status".into(), "200".into())]);
        let mark = World::mark();
        let act = w.response_headers(ctx, true);
        sim::with(|h| h.faults = None);
        cov.events += 1;
        ended.push((id.clone(), calls + 1));
        let s = seen(mark);
        if !s.panics.is_empty() || !s.replies.is_empty() || act != proxy_wasm::types::Action::Continue {
            return Err(fail("export-disturbs", format!("{:?}\n{}", s.trace, log.join("\n")), &cfg, mark));
        }
        let all: Vec<&Call> = s.calls.iter().map(|c| &c.1).chain(s.refused.iter()).collect();
        let [c] = all.as_slice() else {
            return Err(fail("export", format!("{} exports\n{}", all.len(), log.join("\n")), &cfg, mark));
        };
        let list = spans(&c.message).unwrap_or_default();
        log.push(format!("export of {} spans after {} ended{}", list.len(), ended.iter().map(|e| e.1).sum::<usize>(), if refuse { ", refused" } else { "" }));
        let total: usize = ended.iter().map(|e| e.1).sum();
        if list.len() > 100 {
            return Err(fail("unbounded", format!("{} spans were kept\n{}", list.len(), log.join("\n")), &cfg, mark));
        }
        if !first {
            if list.len() != total.min(100) {
                return Err(fail("lost", format!("{total} spans ended, {} exported\n{}", list.len(), log.join("\n")), &cfg, mark));
            }
            let roots: Vec<&String> = list.iter().filter(|s| s.name == "kuadrant_filter").filter_map(|s| s.attrs.get("request_id")).collect();
            let want: Vec<&String> = ended.iter().map(|e| &e.0).skip(ended.len().saturating_sub(roots.len())).collect();
            if roots != want || (total <= 100 && roots.len() != ended.len()) {
                return Err(fail("not-newest", format!("spans of {roots:?}\nexpected {want:?}\n{}", log.join("\n")), &cfg, mark));
            }
            cov.state(if total > 100 { "overflow" } else { "all_kept" });
            if refuse {
                cov.state("refused");
            }
            rounds -= 1;
        }
        ended.clear();
        first = false;
        for t in w.outstanding(ctx) {
            w.grpc_reply(t, if rng.pct(30) { 14 } else { 0 }, Some(vec![]));
        }
        w.destroy(ctx);
    }
    cov.distinct(&log.join(";"));
    if rng.pct(5) {
        cov.sample(log.join("; "));
    }
    Ok(())
}

pub static G23: Prop = Prop {
    id: "G23",
    level: "exploration",
    rule: "a case counts as distinct by the number of requests cut off before each export, the spans each export carried, and which exports the host refused",
    quick: 800,
    thorough: 30_000,
    case: g23,
    probes: &[],
    need: &["overflow", "all_kept", "refused"],
    assumptions: super::pipeline::ASSUME,
};
