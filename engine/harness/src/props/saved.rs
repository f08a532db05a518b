//! G28: what a store action saves is what its expression gave, for later expressions and for the host.
use super::kit::*;
use crate::cfg::quote;
use crate::pb::{self, W};
use crate::prop::*;
use crate::rng::Rng;
use crate::world::World;
use proxy_wasm::sim::{self, Kind};
use proxy_wasm::types::{Action, Status};
use serde_json::{json, Value as J};

#[derive(Clone, Debug, PartialEq)]
enum V {
    Null,
    Bool(bool),
    Int(i64),
    Uint(u64),
    Double(f64),
    Str(String),
    Bytes(String),
    List(Vec<V>),
    Map(Vec<(String, V)>),
    /// has a value in expressions, but no form as a protobuf Value
    Odd(String),
}

const TEXTS: &[&str] = &["", "a", "x y", "it's", "naïve", "日本", "\u{1f600}", "a\\b", "line\nline", "null", "1", "true", "{\"a\":1}", "a.b", "%41"];
const KEYS: &[&str] = &["a", "b", "k1", "", "with space", "x.y", "é", "A"];

fn value(rng: &mut Rng, depth: usize) -> V {
    match rng.below(if depth == 0 { 12 } else { 17 }) {
        0 => V::Null,
        1 | 2 => V::Bool(rng.pct(50)),
        3 => V::Int(*rng.pick(&[0, 1, -1, 42, -300, 65536, 1 << 31, -(1 << 40), (1 << 53) - 1, -(1 << 53) + 1])),
        4 => V::Int(rng.next() as i64 >> (11 + rng.below(50))),
        5 => V::Uint(*rng.pick(&[0, 1, 255, 1 << 32, (1 << 53) - 1])),
        6 => V::Double(*rng.pick(&[0.0, 1.0, 0.5, -2.25, 1e-7, 1e300, -1e18, 3.141592653589793, 5e-324, 1.7976931348623157e308])),
        // (the CEL library takes no escapes here)
        7 => V::Bytes(rng.pick(&["", "a", "x y", "null", "1", "{}"]).to_string()),
        8 if depth > 0 && rng.pct(30) => V::Odd(rng.pick(&["timestamp('2024-01-01T00:00:00Z')", "duration('5s')", "{1: 'a'}", "{true: 1}", "[duration('1s')]", "{'a': {2u: 'x'}}"]).to_string()),
        8..=11 => V::Str(rng.pick(TEXTS).repeat(*rng.pick(&[1, 1, 1, 2, 40]))),
        12 | 13 => V::List((0..rng.below(4)).map(|_| value(rng, depth - 1)).collect()),
        _ => {
            let mut keys: Vec<&str> = KEYS.to_vec();
            rng.shuffle(&mut keys);
            V::Map((0..rng.below(4)).map(|i| (keys[i].to_string(), value(rng, depth - 1))).collect())
        }
    }
}

impl V {
    fn text(&self) -> String {
        match self {
            V::Null => "null".into(),
            V::Bool(b) => b.to_string(),
            V::Int(i) => i.to_string(),
            V::Uint(u) => format!("{u}u"),
            V::Double(d) => format!("{d:?}"),
            V::Str(s) => quote(s),
            V::Bytes(s) => format!("b{}", quote(s)),
            V::List(l) => format!("[{}]", l.iter().map(|v| v.text()).collect::<Vec<_>>().join(", ")),
            V::Map(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", quote(k), v.text())).collect::<Vec<_>>().join(", ")),
            V::Odd(s) => s.clone(),
        }
    }

    fn exportable(&self) -> bool {
        match self {
            V::Odd(_) => false,
            V::List(l) => l.iter().all(|v| v.exportable()),
            V::Map(m) => m.iter().all(|(_, v)| v.exportable()),
            _ => true,
        }
    }

    fn kind(&self) -> &'static str {
        match self {
            V::Null => "null",
            V::Bool(_) => "bool",
            V::Int(_) => "int",
            V::Uint(_) => "uint",
            V::Double(_) => "double",
            V::Str(_) => "string",
            V::Bytes(_) => "bytes",
            V::List(_) => "list",
            V::Map(_) => "map",
            V::Odd(_) => "odd",
        }
    }

    /// as google.protobuf.Value
    fn is(&self, b: &[u8]) -> bool {
        let Some(m) = pb::dec(b) else { return false };
        let [(f, w)] = &m[..] else { return false };
        match (self, f, w) {
            (V::Null, 1, W::Varint(0)) => true,
            (V::Int(i), 2, W::Fixed64(x)) => f64::from_bits(*x) == *i as f64,
            (V::Uint(i), 2, W::Fixed64(x)) => f64::from_bits(*x) == *i as f64,
            (V::Double(d), 2, W::Fixed64(x)) => x == &d.to_bits(),
            (V::Str(s) | V::Bytes(s), 3, W::Len(x)) => x == s.as_bytes(),
            (V::Bool(b), 4, W::Varint(x)) => *x == *b as u64,
            (V::Map(_), 5, W::Len(x)) => self.is_struct(x),
            (V::List(l), 6, W::Len(x)) => {
                let Some(items) = pb::dec(x) else { return false };
                items.len() == l.len() && items.iter().zip(l).all(|((f, w), v)| *f == 1 && matches!(w, W::Len(b) if v.is(b)))
            }
            _ => false,
        }
    }

    /// as google.protobuf.Struct
    fn is_struct(&self, b: &[u8]) -> bool {
        let V::Map(want) = self else { return false };
        let Some(fields) = pb::dec(b) else { return false };
        fields.len() == want.len()
            && want.iter().all(|(k, v)| {
                fields.iter().any(|(f, w)| {
                    let W::Len(e) = w else { return false };
                    let Some(e) = pb::dec(e) else { return false };
                    *f == 1 && pb::get_str(&e, 1) == *k && matches!(pb::get(&e, 2), Some(W::Len(b)) if v.is(b))
                })
            })
    }
}

/// An expression on what is saved at `p` that is true of `v`.
fn about(rng: &mut Rng, p: &str, v: &V) -> String {
    let whole = format!("{p} == {}", v.text());
    if rng.pct(30) && *v != V::Odd("r".into()) {
        return whole;
    }
    match v {
        V::Odd(r) if r == "r" => format!("{p}.overall_code == 1 && {p}.response_headers_to_add.size() == 1"),
        V::Bool(true) => p.to_string(),
        V::Bool(false) => format!("!{p}"),
        V::Int(_) => format!("{p} + 0 == {} && {p} - {p} == 0", v.text()),
        V::Uint(_) => format!("{p} + 0u == {}", v.text()),
        V::Double(_) => format!("{p} + 0.0 == {}", v.text()),
        V::Str(s) => match rng.below(4) {
            0 => format!("{p} + '|' == {}", quote(&format!("{s}|"))),
            1 => format!("{p}.size() == {}", quote(s) + ".size()"),
            2 => format!("{p}.startsWith({})", quote(s)),
            _ => format!("[{p}][0] == {}", quote(s)),
        },
        V::List(l) if !l.is_empty() => {
            let i = rng.below(l.len());
            let inner = about(rng, &format!("{p}[{i}]"), &l[i]);
            format!("{p}.size() == {} && {inner}", l.len())
        }
        V::Map(m) if !m.is_empty() => {
            let (k, v) = rng.pick(m).clone();
            let plain = k.chars().all(|c| c.is_ascii_alphanumeric()) && !k.is_empty();
            let at = if plain && rng.pct(50) { format!("{p}.{k}") } else { format!("{p}[{}]", quote(&k)) };
            let inner = about(rng, &at, &v);
            format!("{p}.size() == {} && {} in {p} && {inner}", m.len(), quote(&k))
        }
        _ => whole,
    }
}

const PATHS: &[&str] = &["a", "ab", "p.v", "p.vw", "p.x.y", "p.x.z", "q.r.s.t", "q.r.s.u", "saved", "p1", "p10.v", "auth.who", "auth.identity.name", "A", "_u", "metadata2.x"];

struct St {
    path: String,
    val: V,
    expr: String,
    pred: bool,
    export: bool,
}

/// Values saved once a body has come, and others under the same paths that are saved before, after or not at all.
fn late(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let response = rng.pct(40);
    let from = if response { "responseBodyJSON" } else { "requestBodyJSON" };
    let mut paths: Vec<String> = PATHS.iter().map(|p| p.to_string()).collect();
    rng.shuffle(&mut paths);
    let (path, chain) = (paths[0].clone(), "chain.of".to_string());
    let never = |rng: &mut Rng, path: &str| {
        let export = rng.pct(50);
        if rng.pct(70) {
            store(path, rng.pick(&["'never'", "null", "[1]"]), "request.method == 'PUT'", export)
        } else {
            store(path, "duration('1s')", "true", true) // has no form for the host
        }
    };
    let early = rng.pct(40);
    let mut acts = vec![];
    let idle = |rng: &mut Rng, acts: &mut Vec<J>, path: &str| {
        for _ in 0..rng.below(3) {
            acts.push(never(rng, path));
        }
    };
    let mut exports: Vec<(String, V)> = vec![];
    let mut at_body: Vec<(String, V)> = vec![];
    let of_body = V::Str(rng.pick(&["", "v", "é🦀", "null", "a.b"]).to_string());
    idle(rng, &mut acts, &path);
    if early {
        acts.push(store(&path, "'early'", "true", true));
        exports.push((path.clone(), V::Str("early".into())));
        idle(rng, &mut acts, &path);
    }
    acts.push(store(&path, &format!("{from}('/v')"), "true", true));
    at_body.push((path.clone(), of_body.clone()));
    idle(rng, &mut acts, &path);
    // reads what is there: the early value, or else the one that is to come
    acts.push(store(&chain, &format!("[{path}, {path}]"), if rng.pct(50) { "true".into() } else { format!("{path} != 'other'") }.as_str(), true));
    if early {
        exports.push((chain.clone(), V::List(vec![V::Str("early".into()); 2])));
    } else {
        at_body.push((chain.clone(), V::List(vec![of_body.clone(); 2])));
    }
    for other in &paths[1..rng.range(1, 4)] {
        idle(rng, &mut acts, other);
    }
    let again = rng.pct(50);
    if again {
        // waits for the same body, so it is saved last
        acts.push(store(&path, &format!("{from}('/w')"), "true", true));
        at_body.push((path.clone(), V::Bool(true)));
        acts.push(store("last.one", &format!("{{'k': {from}('/w'), 'p': {path}}}"), "true", true));
        at_body.push(("last.one".into(), V::Map(vec![("k".into(), V::Bool(true)), ("p".into(), V::Bool(true))])));
    }
    let now = exports.len();
    exports.extend(at_body);
    let cfg = json!({"services": {"s": svc("ratelimit", "s", "deny")}, "actionSets": [aset("s", "h.test", acts)]}).to_string();
    let mut w = World::new();
    if !w.configure(&cfg) {
        return Err(Violation::new("config-rejected", "a valid configuration was rejected").cfg(&cfg));
    }
    let ctx = w.new_stream(stream("h.test", &[]));
    let mark = World::mark();
    w.request_headers(ctx, response);
    let mut before = 0;
    if response {
        respond(ctx, vec![(":status".into(), "200".into()), ("content-type".into(), "application/json".into())]);
        w.response_headers(ctx, false);
    }
    before += seen(mark).exports.len();
    let V::Str(text) = &of_body else { unreachable!() };
    let body = json!({"a": 1, "v": text, "w": true, "z": [null]}).to_string().into_bytes();
    let mut at = 0;
    let mut held = vec![];
    while at < body.len() {
        let n = if rng.pct(30) { body.len() - at } else { 1 + rng.below(body.len() - at) };
        held.extend(&body[at..at + n]);
        at += n;
        buffer(ctx, response, Some(held.clone()));
        let end = at == body.len();
        let a = if response { w.response_body(ctx, held.len(), end) } else { w.request_body(ctx, held.len(), end) };
        if a == Action::Continue {
            held.clear();
        }
    }
    buffer(ctx, response, None);
    if !response {
        respond(ctx, vec![(":status".into(), "200".into())]);
        w.response_headers(ctx, true);
    }
    w.log_done(ctx);
    let s = seen(mark);
    if let Some(p) = s.panics.first() {
        return Err(fail("panic", p.clone(), &cfg, mark));
    }
    if !s.replies.is_empty() {
        return Err(fail("reply", format!("a store action ended the request: {:?}", s.replies), &cfg, mark));
    }
    cov.events += s.trace.len() as u64;
    let names: Vec<&String> = s.exports.iter().map(|e| &e.0).collect();
    if before != now || names.iter().map(|n| n.to_string()).collect::<Vec<_>>() != exports.iter().map(|e| format!("kuadrant.{}", e.0)).collect::<Vec<_>>() {
        return Err(fail("late-exports", format!("{before} values exported before the body, expected {now}; in all {names:?}, expected {:?}", exports.iter().map(|e| &e.0).collect::<Vec<_>>()), &cfg, mark));
    }
    for ((_, b), (path, v)) in s.exports.iter().zip(&exports) {
        if !(if matches!(v, V::Map(_)) { v.is_struct(b) } else { v.is(b) }) {
            return Err(fail("export-value", format!("{path} was exported as {b:?}, which is not {}", v.text()), &cfg, mark));
        }
    }
    cov.state(if early { "saved_before_the_body" } else { "waits_for_the_body" });
    cov.distinct(&format!("late{response}{early}{again}{names:?}{}", cfg.len()));
    w.destroy(ctx);
    Ok(())
}

fn case(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    if rng.pct(15) {
        return late(rng, cov);
    }
    let mut paths: Vec<String> = PATHS.iter().map(|p| p.to_string()).collect();
    rng.shuffle(&mut paths);
    paths.truncate(rng.range(1, 4));
    let hs = vec![("x-one".to_string(), "1".to_string()), ("x-two".to_string(), "a".to_string()), ("x-two".to_string(), "b".to_string())];
    let refuse = if rng.pct(15) { Some(rng.below(2)) } else { None };
    let nested = rng.pct(35);
    let traced = rng.pct(10);
    let n = rng.range(1, 7);
    let split = if nested { rng.below(n + 1) } else { n };
    let mut state: Vec<(String, Option<V>)> = vec![];
    let (mut outer, mut inner): (Vec<J>, Vec<J>) = (vec![], vec![]);
    // names of headers and whether they have to be there
    let mut readers: Vec<(String, bool, bool, String)> = vec![];
    let mut exports: Vec<(String, V)> = vec![];
    let mut attempts = 0;
    let mut shape = String::new();
    for i in 0..n {
        let list = if i < split { &mut outer } else { &mut inner };
        let known: Vec<(String, Option<V>)> = state.clone();
        if known.is_empty() || rng.pct(50) {
            // a store; not twice where the first saved nothing
            let free: Vec<String> = paths.iter().filter(|p| !known.iter().any(|(q, v)| q == *p && v.is_none())).cloned().collect();
            if free.is_empty() {
                continue;
            }
            let path = rng.pick(&free).clone();
            // a reply is known by its name only within
            let about_reply = |v: &Option<V>| matches!(v, Some(v) if format!("{v:?}").contains("Odd(\"r\")"));
            let (val, expr) = match rng.below(10) {
                // from the reply around it
                3 | 4 if i >= split => match rng.below(4) {
                    0 => (V::Int(1), "r.overall_code".to_string()),
                    1 => (V::Str("x-h".into()), "r.response_headers_to_add[0].key".to_string()),
                    2 => (V::List(vec![V::Str("v é".into())]), "r.response_headers_to_add.map(h, h.value)".to_string()),
                    _ => (V::Odd("r".into()), "r".to_string()),
                },
                0 => (V::Str("GET".into()), "request.method".to_string()),
                1 => (V::Map(vec![("k".into(), V::Str("a,b".into())), ("o".into(), V::Str("1".into()))]), "{'k': request.headers['x-two'], 'o': request.headers['x-one']}".to_string()),
                2 => match known.iter().rev().find_map(|(p, v)| if about_reply(v) { None } else { v.clone().map(|v| (p.clone(), v)) }) {
                    // saved from what was saved before
                    Some((p, v)) => (V::List(vec![v, V::Null]), format!("[{p}, null]")),
                    None => (V::Null, "null".to_string()),
                },
                _ => {
                    let v = value(rng, 3);
                    let e = v.text();
                    (v, if rng.pct(20) { format!("(request.method == 'GET' ? {e} : null)") } else { e })
                }
            };
            let s = St { path, val, expr, pred: rng.pct(85), export: rng.pct(60) };
            let mut a = store(&s.path, &s.expr, if s.pred { "request.method != 'PUT'" } else { "request.method == 'PUT'" }, s.export);
            if !s.export && rng.pct(50) {
                a.as_object_mut().unwrap().remove("exportToHost");
            }
            if i < split && rng.pct(20) {
                a["execution"] = json!("sequential");
            }
            list.push(a);
            let mut ok = s.pred;
            if s.pred && s.export {
                if !s.val.exportable() {
                    ok = false;
                    cov.state("no_form_for_the_host");
                } else {
                    if refuse == Some(attempts) {
                        ok = false;
                        cov.state("host_refuses");
                    } else {
                        exports.push((s.path.clone(), s.val.clone()));
                        cov.state(s.val.kind());
                    }
                    attempts += 1;
                }
            }
            shape += &format!("{}{}{}{};", if i < split { "" } else { ">" }, s.val.kind(), s.pred as u8, s.export as u8);
            match state.iter_mut().find(|(p, _)| *p == s.path) {
                Some(e) => {
                    if ok {
                        e.1 = Some(s.val);
                        cov.state("saved_again");
                    }
                }
                None => state.push((s.path, if ok { Some(s.val) } else { None })),
            }
        } else {
            let (p, v) = rng.pick(&known).clone();
            let name = format!("x-r{i}");
            let (holds, expr) = match &v {
                Some(v) => (true, about(rng, &p, v)),
                // nothing was saved there: nothing is found
                None => (false, format!("{p} == 'something' || {p}.size() > 0")),
            };
            shape += &format!("r{};", v.as_ref().map_or("-", |v| v.kind()));
            let response = rng.pct(25);
            if response {
                // evaluated again when the response comes: not saved again after this
                paths.retain(|q| *q != p);
            }
            let a = match rng.below(3) {
                0 => set_headers(response, &format!("[['{name}', 'yes']]"), &expr),
                1 => set_headers(response, &format!("[['{name}', ({expr}) ? 'yes' : 'no']]"), "true"),
                _ => set_headers(response, &format!("[['{name}', [{expr}].exists(b, b) ? 'yes' : 'no']]"), "true"),
            };
            list.push(a);
            readers.push((name, holds, response, expr));
        }
    }
    if !inner.is_empty() {
        outer.push(call("s", "r", "'d'", inner));
        cov.state("nested");
    }
    let mut cfg = json!({"services": {"s": svc("ratelimit", "s", "deny")}, "actionSets": [aset("s", "h.test", outer)]});
    if traced {
        cfg["services"]["otel"] = svc("tracing", "otel", "allow");
        cfg["observability"] = json!({"httpHeaderIdentifier": "x-request-id", "defaultLevel": "DEBUG", "tracing": {"service": "otel"}});
    }
    let cfg = cfg.to_string();
    let mut w = World::new();
    if !w.configure(&cfg) {
        return Err(Violation::new("config-rejected", "a valid configuration was rejected").cfg(&cfg));
    }
    let ctx = w.new_stream(stream("h.test", &hs));
    let mark = World::mark();
    if let Some(k) = refuse {
        let mut at = 0;
        sim::with(|h| {
            h.faults = Some(Box::new(move |_, kind, _| {
                if kind != Kind::SetProperty {
                    return None;
                }
                at += 1;
                if at == k + 1 {
                    Some(Status::InternalFailure)
                } else {
                    None
                }
            }))
        });
    }
    w.request_headers(ctx, true);
    for _ in 0..3 {
        for t in w.outstanding(ctx) {
            w.grpc_reply(t, 0, Some(pb::rl_response(1, &[("x-h".into(), "v é".into())])));
        }
    }
    respond(ctx, vec![(":status".into(), "200".into())]);
    w.response_headers(ctx, true);
    for t in w.outstanding(ctx) {
        w.grpc_reply(t, 0, Some(pb::rl_response(1, &[("x-h".into(), "v é".into())])));
    }
    w.log_done(ctx);
    let s = seen(mark);
    if let Some(p) = s.panics.first() {
        return Err(fail("panic", p.clone(), &cfg, mark));
    }
    if !s.replies.is_empty() {
        return Err(fail("reply", format!("a store or headers action ended the request: {:?}", s.replies), &cfg, mark));
    }
    cov.events += s.trace.len() as u64;
    if s.exports.len() != exports.len() {
        return Err(fail("exports", format!("{} values exported, expected {}: {:?}", s.exports.len(), exports.len(), exports.iter().map(|e| &e.0).collect::<Vec<_>>()), &cfg, mark));
    }
    for ((name, b), (path, v)) in s.exports.iter().zip(&exports) {
        if *name != format!("kuadrant.{path}") {
            return Err(fail("export-path", format!("exported {name}, expected kuadrant.{path}"), &cfg, mark));
        }
        // a map at the top is the Struct itself
        let right = if matches!(v, V::Map(_)) { v.is_struct(b) } else { v.is(b) };
        if !right {
            return Err(fail("export-value", format!("{path} was exported as {b:?}, which is not {}", v.text()), &cfg, mark));
        }
    }
    let (req, resp) = (req_headers(ctx), resp_headers(ctx));
    for (name, holds, response, expr) in &readers {
        let got: Vec<&String> = if *response { &resp } else { &req }.iter().filter(|(k, _)| k == name).map(|(_, v)| v).collect();
        let yes = got.len() == 1 && got[0] == "yes";
        if *holds != yes || got.len() > 1 {
            return Err(fail("read-back", format!("{expr}: header {name} is {got:?}, expected {}", if *holds { "yes" } else { "no such value" }), &cfg, mark));
        }
        cov.state(if *holds { "read_back" } else { "not_saved" });
    }
    w.destroy(ctx);
    cov.distinct(&format!("{nested}{shape}"));
    cov.sample(shape);
    Ok(())
}

pub static G28: Prop = Prop {
    id: "G28",
    level: "exploration",
    rule: "a case counts as distinct by the sequence of stores (kind of value, whether they apply, whether they export) and of the readers between them",
    quick: 20000,
    thorough: 500000,
    case,
    probes: &[],
    need: &["null", "bool", "int", "uint", "double", "string", "bytes", "list", "map", "no_form_for_the_host", "host_refuses", "saved_again", "nested", "read_back", "not_saved", "waits_for_the_body", "saved_before_the_body"],
    assumptions: super::pipeline::ASSUME,
};
