//! G27: the work done for a request is in proportion to what the request brings.
use super::kit::*;
use crate::mem;
use crate::pb;
use crate::prop::*;
use crate::rng::Rng;
use crate::world::World;
use proxy_wasm::sim::{self, Ev};
use proxy_wasm::types::Action;
use serde_json::{json, Value as J};

/// What one run cost: bytes of bodies read from the proxy, bytes allocated, processor time.
#[derive(Debug, Clone, Copy)]
struct Work {
    read: u64,
    bytes: i64,
    cpu: u64,
    /// what the run was for did happen
    done: bool,
}

struct Meter {
    total: i64,
    mark: usize,
}

impl Meter {
    fn start(w: &mut World) -> Meter {
        w.timed = true;
        w.spent = 0;
        sim::with(|h| h.keep_reads = true);
        Meter { total: mem::total(), mark: World::mark() }
    }
    fn stop(self, w: &mut World, done: bool) -> Work {
        let bytes = mem::total() - self.total;
        w.timed = false;
        let read = sim::with(|h| {
            h.keep_reads = false;
            h.events[self.mark..].iter().map(|r| if let Ev::ReadBuffer(_, _, _, k) = &r.ev { *k as u64 } else { 0 }).sum()
        });
        Work { read, bytes, cpu: w.spent, done }
    }
}

/// A body of about `n` bytes that ends with the value looked for.
fn body(events: bool, kind: usize, unit: &str, n: usize) -> Vec<u8> {
    let times = |u: &str| u.repeat(n / u.len() + 1);
    let b = if events {
        let tail = "data: {\"z\":\"end\"}\n\ndata: [DONE]\n\n";
        match kind {
            0 => times(&format!("data: {{\"a\":\"{unit}\"}}\n\n")) + tail,
            1 => format!("data: {{\"a\":\"{}\",\"z\":\"end\"}}\n\ndata: [DONE]\n\n", times(unit)),
            2 => format!(": {}\n{tail}", times(unit)),
            3 => format!("data: {{\n{}data: \"z\":\"end\"}}\n\ndata: [DONE]\n\n", times("data:\n")),
            4 => times("\n") + tail,
            5 => times("\r\n") + tail,
            6 => times(&format!(": {unit}\r")) + tail,
            _ => times(&format!("event: {unit}\nid: {unit}\ndata: [1]\n\n")) + tail,
        }
    } else {
        match kind {
            0 => format!("{{\"y\":\"g\",\"items\":[{}0],\"z\":\"end\"}}", times(&format!("{{\"y\":\"g\",\"a\":1,\"b\":\"{unit}\"}},"))),
            1 => format!("{{\"y\":\"g\",\"x\":\"{}\",\"z\":\"end\"}}", times(unit)),
            2 => format!("{{\"y\":\"g\",\"{}\":1,\"z\":\"end\"}}", times(unit)),
            3 => format!("{{\"y\":\"g\",\"x\":0.{},\"z\":\"end\"}}", times("1")),
            4 => format!("{{\"y\":\"g\",\"z\":\"{}\"}}", times("\\u0041\\n")),
            5 => format!("{{\"y\":\"g\",\"x\":1{},\"z\":\"end\"}}", times(" \n")),
            6 => format!("{{\"y\":\"g\",{}\"z\":\"end\"}}", (0..n / (unit.len() + 12) + 1).map(|i| format!("\"{unit}{i}\":1,")).collect::<String>()),
            _ => format!("{{\"y\":\"g\",\"x\":{}1{},\"z\":\"end\"}}", times("[").split_at(n / 50).0, times("]").split_at(n / 50).0),
        }
    };
    b.into_bytes()
}

#[derive(Clone, Debug)]
struct Passing {
    response: bool,
    events: bool,
    kind: usize,
    unit: String,
    chunk: usize,
    hold: bool,
    readers: usize,
    form: usize,
}

fn pass(p: &Passing, n: usize) -> Work {
    let what = if p.response { "responseBodyJSON" } else { "requestBodyJSON" };
    let mut actions: Vec<J> = vec![];
    if p.hold {
        if p.response {
            actions.push(store("h.y", "responseBodyJSON('/y')", "true", false));
        }
        actions.push(call("s", "g", if p.response { "h.y" } else { "'guard'" }, vec![]));
    }
    for i in 0..p.readers {
        actions.push(match p.form {
            0 => store(&format!("v.z{i}"), &format!("{what}('/z')"), "true", true),
            1 => json!({"service": "rep", "scope": "s", "conditionalData": [{"data": [{"expression": {"key": "k", "value": "responseBodyJSON('/z')"}}]}]}),
            _ => {
                let mut c = call("s", &format!("q{i}"), "responseBodyJSON('/z')", vec![]);
                c["isGuard"] = json!(false);
                c
            }
        });
    }
    let cfg = json!({"services": {"s": svc("ratelimit", "cl", "deny"), "rep": svc("ratelimit-report", "cr", "allow")}, "actionSets": [aset("x", "a.com", actions)]}).to_string();
    let mut w = World::new();
    let mut done = w.configure(&cfg);
    let ctx = w.new_stream(stream("a.com", &[]));
    w.request_headers(ctx, p.response);
    if p.response {
        for t in w.outstanding(ctx) {
            w.grpc_reply(t, 0, Some(pb::rl_response(1, &[])));
        }
        respond(ctx, vec![(":status".into(), "200".into()), ("content-type".into(), if p.events { "text/event-stream" } else { "application/json" }.into())]);
        w.response_headers(ctx, false);
    }
    let b = body(p.events, p.kind, &p.unit, n);
    let meter = Meter::start(&mut w);
    let mark = World::mark();
    let mut held: Vec<u8> = vec![];
    let mut at = 0;
    while at < b.len() {
        let end = at.saturating_add(p.chunk).min(b.len());
        held.extend_from_slice(&b[at..end]);
        at = end;
        let len = held.len();
        buffer(ctx, p.response, Some(std::mem::take(&mut held)));
        let a = if p.response { w.response_body(ctx, len, at == b.len()) } else { w.request_body(ctx, len, at == b.len()) };
        sim::with(|h| {
            let st = h.streams.get_mut(&ctx).unwrap();
            held = (if p.response { &mut st.resp_buf } else { &mut st.req_buf }).take().unwrap_or_default();
        });
        if a == Action::Continue {
            held.clear();
        }
    }
    for t in w.outstanding(ctx) {
        w.grpc_reply(t, 0, Some(pb::rl_response(1, &[])));
    }
    w.log_done(ctx);
    let work = meter.stop(&mut w, false);
    let s = seen(mark);
    done &= s.panics.is_empty() && if p.form == 0 { s.exports.len() == p.readers } else { s.calls.len() == p.readers + usize::from(p.hold) };
    w.destroy(ctx);
    Work { done, ..work }
}

/// The functions of G21, on a text that comes with the request.
const TEXT: &[(&str, &str)] = &[
    ("T.indexOf('zz') == -1", "ab"),
    ("T.indexOf('b', T.size() - 1) >= -1", "ab"),
    ("T.lastIndexOf('zz') == -1", "ab"),
    ("T.lastIndexOf('é') >= 0", "éb"),
    ("T.lastIndexOf('zz', 5) == -1", "éb"),
    ("T.replace('a', 'xyz').size() > 0", "ab"),
    ("T.replace('a', 'xyz', 1000).size() > 0", "ab"),
    ("T.replace('', '-').size() > 0", "aé"),
    ("T.split('a').size() > 0", "ab"),
    ("T.split('').size() > 0", "ab"),
    ("T.split('a', 500).size() > 0", "ab"),
    ("T.split('a').join('-').size() > 0", "ab"),
    ("T.substring(5).size() > 0", "éb"),
    ("T.substring(5, T.size() - 1).size() > 0", "ab"),
    ("T.charAt(T.size() - 1).size() > 0", "ab"),
    ("T.charAt(1900).size() > 0", "éb"),
    ("T.trim().size() >= 0", " "),
    ("T.trim().size() >= 0", "\u{2003}"),
    ("T.lowerAscii().size() >= 0", "aB"),
    ("T.upperAscii().size() >= 0", "aé"),
    ("(T + T).size() > 0", "ab"),
    ("T == T", "ab"),
];

fn text(e: &str, unit: &str, header: bool, n: usize) -> Work {
    let at = if header { "request.headers['x-t']" } else { "request.path" };
    let cfg = json!({"services": {}, "actionSets": [aset("x", "a.com", vec![store("a.b", "'1'", &e.replace('T', at), true)])]}).to_string();
    let mut w = World::new();
    let ok = w.configure(&cfg);
    let t = unit.repeat(n / 2);
    let mut s = stream("a.com", &if header { vec![("x-t".to_string(), t.clone())] } else { vec![] });
    if !header {
        prop(&mut s, "request.path", t.as_bytes());
    }
    let ctx = w.new_stream(s);
    let mark = World::mark();
    let m = Meter::start(&mut w);
    w.request_headers(ctx, true);
    let done = ok && seen(mark).exports.len() == 1;
    let work = m.stop(&mut w, done);
    w.destroy(ctx);
    work
}

fn headers(kind: usize, n: usize) -> Work {
    let mut w = World::new();
    let actions = vec![json!({"service": "s", "scope": "x"}), set_headers(false, "[['x', request.headers['x-7']]]", "true")];
    let ok = w.configure(&json!({"services": {"s": svc("ratelimit", "s", "deny")}, "actionSets": [aset("s", "a.com", actions)]}).to_string());
    let hs: Vec<_> = (0..n).map(|i| (format!("x-{i}"), "value".to_string())).collect();
    let few = hs[..8].to_vec();
    let ctx = w.new_stream(stream("a.com", if kind == 1 { &few } else { &hs }));
    let mark = World::mark();
    let m = Meter::start(&mut w);
    w.request_headers(ctx, true);
    for t in w.outstanding(ctx) {
        w.grpc_reply(t, 0, Some(pb::rl_response(1, if kind == 0 { &few } else { &hs })));
    }
    respond(ctx, vec![(":status".into(), "200".into())]);
    w.response_headers(ctx, true);
    w.log_done(ctx);
    let maps = seen(mark).maps.len();
    let work = m.stop(&mut w, ok && maps >= 2);
    w.destroy(ctx);
    work
}

/// What an authorization service says about the request, read by expressions and the host.
fn metadata(n: usize) -> Work {
    let mut w = World::new();
    let actions = vec![json!({"service": "au", "scope": "x"}), {
        let mut a = set_headers(false, "[['x-who', auth.who]]", "auth.who == 'me'");
        a["execution"] = json!("sequential");
        a
    }];
    let ok = w.configure(&json!({"services": {"au": svc("auth", "au", "deny")}, "actionSets": [aset("s", "a.com", actions)]}).to_string());
    let mut st = stream("a.com", &[]);
    full(&mut st);
    let ctx = w.new_stream(st);
    let field = |k: &str, v: &str| pb::sub(1, &[pb::s(1, k), pb::sub(2, &[pb::s(3, v)])]);
    let mut fields: Vec<_> = (0..n).map(|i| field(&format!("key-{i}"), "some value")).collect();
    fields.push(field("who", "me"));
    let answer = pb::enc(&vec![pb::sub(3, &[]), pb::sub(4, &fields)]);
    let mark = World::mark();
    let m = Meter::start(&mut w);
    w.request_headers(ctx, true);
    for t in w.outstanding(ctx) {
        w.grpc_reply(t, 0, Some(answer.clone()));
    }
    w.log_done(ctx);
    let done = ok && seen(mark).maps.iter().any(|(_, h)| h.iter().any(|(k, v)| k == "x-who" && v == "me"));
    let work = m.stop(&mut w, done);
    w.destroy(ctx);
    work
}

/// One request among many hostnames, or with many labels in the name asked for.
fn route(kind: usize, n: usize) -> Work {
    let mut w = World::new();
    let name = |i: usize| match kind {
        0 => format!("h{i}.example.com"),
        1 => format!("*.h{i}.example.com"),
        _ => format!("a.h{i}.com"),
    };
    let names: Vec<String> = if kind == 3 { vec!["*.com".into()] } else { (0..n).map(name).collect() };
    let mut set = aset("x", "a.com", vec![store("a.b", "'1'", "true", true)]);
    set["routeRuleConditions"]["hostnames"] = json!(names);
    let mut ok = w.configure(&json!({"services": {}, "actionSets": [set]}).to_string());
    let host = match kind {
        1 => "a.h7.example.com".to_string(),
        3 => "a.".repeat(n) + "com",
        _ => name(n - 2),
    };
    let mut best: Option<Work> = None;
    for _ in 0..10 {
        let ctx = w.new_stream(stream(&host, &[]));
        let mark = World::mark();
        let m = Meter::start(&mut w);
        w.request_headers(ctx, true);
        ok &= seen(mark).exports.len() == 1;
        let k = m.stop(&mut w, ok);
        w.destroy(ctx);
        best = Some(match best {
            Some(b) => Work { read: b.read.min(k.read), bytes: b.bytes.min(k.bytes), cpu: b.cpu.min(k.cpu), done: b.done && k.done },
            None => k,
        });
    }
    best.unwrap()
}

/// One more request when `n` others wait for an answer, or have been served.
fn among(waiting: bool, n: usize) -> Work {
    let mut w = World::new();
    let mut ok = w.configure(&json!({"services": {"s": svc("ratelimit", "s", "deny")}, "actionSets": [aset("s", "a.com", vec![json!({"service": "s", "scope": "x"})])]}).to_string());
    let one = |w: &mut World, answer: bool| {
        let ctx = w.new_stream(stream("a.com", &[]));
        w.request_headers(ctx, true);
        if answer {
            for t in w.outstanding(ctx) {
                w.grpc_reply(t, 0, Some(pb::rl_response(1, &[])));
            }
            respond(ctx, vec![(":status".into(), "200".into())]);
            w.response_headers(ctx, true);
            w.log_done(ctx);
            w.destroy(ctx);
        }
    };
    for _ in 0..n {
        one(&mut w, !waiting);
    }
    let mut best: Option<Work> = None;
    for _ in 0..10 {
        let mark = World::mark();
        let m = Meter::start(&mut w);
        one(&mut w, true);
        ok &= seen(mark).calls.len() == 1;
        let k = m.stop(&mut w, ok);
        best = Some(match best {
            Some(b) => Work { read: b.read.min(k.read), bytes: b.bytes.min(k.bytes), cpu: b.cpu.min(k.cpu), done: b.done && k.done },
            None => k,
        });
    }
    best.unwrap()
}

const STEP: usize = 8;

/// Compares the work for `n` with the work for eight times as much.
fn judge(what: &str, flat: bool, small: usize, large: usize, readers: u64, run: &dyn Fn(usize) -> Work, cov: &mut Cov) -> Result<(), Violation> {
    // the first run also pays for what is set up once
    let a = run(small);
    let b = run(large);
    let a2 = run(small);
    if !a.done || !b.done {
        return Err(Violation::new("not-done", format!("{what}: {} did not have its effect: {a:?} {b:?}", if a.done { large } else { small })));
    }
    let step = (large / small) as i64;
    let said = |w: &Work, n: usize| format!("{n}: {} bytes read, {} allocated, {} us", w.read, w.bytes, w.cpu / 1000);
    let bad = |sig: &str, a: &Work, b: &Work| Err(Violation::new(sig, format!("{what}: {}; {}", said(a, small), said(b, large))));
    let base = a.bytes.max(a2.bytes);
    // buffers double as they grow
    let most = if flat { base * 2 + 20_000 } else { base * step * 2 + 100_000 };
    if b.bytes > most {
        return bad("allocates-too-much", &a, &b);
    }
    // what is read besides bodies are the answers of calls
    if readers > 0 && b.read > readers * (large as u64 + 600) + 600 {
        return bad("reads-too-much", &a, &b);
    }
    let factor = if flat { 5 } else { step as u64 * 7 / 2 };
    let too_slow = |a: u64, b: u64| b > 3_000_000.min(a * 100) && b > factor * a.max(20_000);
    let (mut ca, mut cb) = (a.cpu.min(a2.cpu), b.cpu);
    let mut tries = 0;
    // anything else that runs on the machine can only make it look slower
    while too_slow(ca, cb) && tries < 6 {
        cb = cb.min(run(large).cpu);
        ca = ca.max(run(small).cpu);
        tries += 1;
    }
    if too_slow(ca, cb) {
        return bad("takes-too-long", &Work { cpu: ca, ..a }, &Work { cpu: cb, ..b });
    }
    cov.events += 3;
    Ok(())
}

fn case(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    match rng.below(20) {
        0..=11 => {
            let response = rng.pct(65);
            let events = response && rng.pct(50);
            let form = if response { rng.below(3) } else { 0 };
            let chunk = *rng.pick(&[16, 120, 1000, 4000, 16_000, usize::MAX]);
            let p = Passing {
                response,
                events,
                // the other readers go no deeper than 128
                kind: rng.below(if form == 0 || events { 8 } else { 7 }),
                unit: rng.pick(&["text text ", "é", "x", "0123456789abcdef"]).to_string(),
                chunk,
                hold: rng.pct(30) && !events,
                readers: if form == 0 { rng.range(1, 3) } else { 1 },
                form,
            };
            // keep the number of callbacks within reason
            let large = if chunk < 100 { 100_000 } else { 400_000 };
            cov.state(match (p.response, p.events) {
                (false, _) => "request_body",
                (_, false) => "response_body",
                _ => "events",
            });
            cov.state(if p.chunk > large { "whole" } else { "in_pieces" });
            if p.hold {
                cov.state(if p.response { "held_response" } else { "held" });
            }
            let size = |n: usize| body(p.events, p.kind, &p.unit, n).len();
            let (small, large) = (large / STEP, large);
            cov.distinct(&format!("{p:?}"));
            cov.sample(format!("{p:?}"));
            judge(&format!("{p:?}"), false, small, large.max(size(large)), (p.readers + usize::from(p.hold && p.response)) as u64, &|n| pass(&p, if n == small { small } else { large }), cov)
        }
        12..=14 => {
            let (e, unit) = *rng.pick(TEXT);
            let header = rng.pct(40);
            cov.state("text");
            cov.distinct(&format!("{e}{unit}{header}"));
            judge(&format!("{e} of {unit:?}.."), false, 4_000, 64_000, 0, &|n| text(e, unit, header, n), cov)
        }
        15 => {
            let kind = rng.below(3);
            cov.state("headers");
            cov.distinct(&format!("headers{kind}"));
            judge(&format!("headers {kind}"), false, 100, 800, 0, &|n| headers(kind, n), cov)
        }
        16 => {
            cov.state("metadata");
            cov.distinct("metadata");
            judge("metadata", false, 200, 1600, 0, &metadata, cov)
        }
        17 => {
            let kind = rng.below(4);
            cov.state(if kind == 3 { "labels" } else { "hostnames" });
            cov.distinct(&format!("route{kind}"));
            if kind == 3 {
                judge("labels", false, 200, 1600, 0, &|n| route(kind, n), cov)
            } else {
                judge(&format!("hostnames {kind}"), true, 500, 60_000, 0, &|n| route(kind, n), cov)
            }
        }
        _ => {
            let waiting = rng.pct(50);
            cov.state(if waiting { "waiting" } else { "served" });
            cov.distinct(&format!("among{waiting}"));
            judge(&format!("among requests (waiting: {waiting})"), true, 50, 4000, 0, &|n| among(waiting, n), cov)
        }
    }
}

pub static G27: Prop = Prop {
    id: "G27",
    level: "exploration",
    rule: "a case counts as distinct by what grows: the kind of body, its chunks, whether it is held and how it is read; the function and text; the kind of headers, hostnames or other requests",
    quick: 400,
    thorough: 6000,
    case,
    probes: &[],
    need: &["request_body", "response_body", "events", "whole", "in_pieces", "held", "held_response", "text", "headers", "metadata", "labels", "hostnames", "waiting", "served"],
    assumptions: super::pipeline::ASSUME,
};
