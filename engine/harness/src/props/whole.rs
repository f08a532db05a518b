//! G20: no input makes the filter panic. G22: requests do not influence each other.
use super::kit::*;
use super::{messages, soup};
use crate::flight::{Flight, Plan, Stage, Step};
use crate::pb;
use crate::prop::*;
use crate::rng::Rng;
use crate::world::{World, ROOT};
use proxy_wasm::sim::{self, Ev, Kind};
use proxy_wasm::types::{LogLevel, Status};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

fn mutate(rng: &mut Rng, j: &mut J) {
    match j {
        J::Object(m) if !m.is_empty() && rng.pct(85) => {
            let keys: Vec<String> = m.keys().cloned().collect();
            let k = rng.pick(&keys).clone();
            if rng.pct(15) {
                m.remove(&k);
            } else if rng.pct(5) {
                let v = m.remove(&k).unwrap_or(J::Null);
                m.insert(format!("{k}x"), v);
            } else if let Some(v) = m.get_mut(&k) {
                mutate(rng, v);
            }
        }
        J::Array(a) if !a.is_empty() && rng.pct(85) => {
            let i = rng.below(a.len());
            if rng.pct(10) {
                a.remove(i);
            } else if rng.pct(10) {
                let v = a[i].clone();
                a.push(v);
            } else {
                mutate(rng, &mut a[i]);
            }
        }
        J::String(s) if rng.pct(50) => {
            let mut c: Vec<char> = s.chars().collect();
            let at = rng.below(c.len() + 1);
            match rng.below(3) {
                0 => c.insert(at, *rng.pick(&['\u{1F980}', '(', '\'', '"', '.', '*', '\0', ':', '$'])),
                1 if at < c.len() => {
                    c.remove(at);
                }
                _ => c.truncate(at),
            }
            *s = c.into_iter().collect();
        }
        j => {
            *j = match rng.below(9) {
                0 => J::Null,
                1 => json!(true),
                2 => json!(-1),
                3 => json!(u64::MAX),
                4 => json!(1.5),
                5 => json!({}),
                6 => json!([]),
                7 => json!([j.clone()]),
                _ => json!(rng.pick(soup::WORDS)),
            }
        }
    }
}

fn noise(rng: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..rng.range(1, 4) {
        if b.is_empty() {
            b.push(rng.next() as u8);
            continue;
        }
        let i = rng.below(b.len());
        match rng.below(4) {
            0 => b[i] ^= 1 << rng.below(8),
            1 => b.truncate(i),
            2 => b.insert(i, rng.next() as u8),
            _ => b[i] = *rng.pick(&[0xff, 0x00, 0x80, 0x0a, b'"', b'{', b'[', b'\\']),
        }
    }
}

fn hostile_body(rng: &mut Rng) -> Vec<u8> {
    match rng.below(9) {
        0 => vec![],
        1 => {
            let n = rng.range(1, 64);
            (0..n).map(|_| rng.next() as u8).collect()
        }
        2 => {
            // nested far deeper than any document of use
            let n = *rng.pick(&[10, 300, 20_000]);
            let open = *rng.pick(&["[", "{\"a\":", "{\"deep\":"]);
            open.repeat(n).into_bytes()
        }
        3 => format!("{{\"a\":{}}}", "9".repeat(rng.range(1, 400))).into_bytes(),
        4 => format!("{{\"a\":\"{}\"}}", rng.pick(&["\\ud800", "\\udc00\\ud800", "\\u12", "\\x", "\u{1F980}", "\\"])).into_bytes(),
        5 => {
            let mut b = soup::body(rng, true);
            noise(rng, &mut b);
            b
        }
        6 => {
            let mut b = soup::body(rng, false);
            noise(rng, &mut b);
            b
        }
        7 => format!("data:{}\n\n", "x".repeat(rng.below(5000))).into_bytes(),
        _ => {
            let sse = rng.pct(50);
            soup::body(rng, sse)
        }
    }
}

/// A configuration that reads what it can of a response.
fn reader(rng: &mut Rng) -> J {
    let ptr = *rng.pick(&["/usage/total_tokens", "/a/b", "/a", "", "/list/0", "/é", "/deep/deep"]);
    let value = match rng.below(4) {
        0 => format!("responseBodyJSON('{ptr}') + 1"),
        1 => format!("string(responseBodyJSON('{ptr}'))"),
        _ => format!("responseBodyJSON('{ptr}')"),
    };
    let mut actions = vec![];
    for i in 0..rng.range(1, 3) {
        actions.push(match rng.below(4) {
            0 => json!({"service": "rl", "scope": "s", "conditionalData": [{"data": [{"expression": {"key": "ratelimit.hits_addend", "value": value.clone()}}]}]}),
            1 => store(&format!("q{i}"), &value.replace("response", "request"), "true", true),
            2 => set_headers(true, "[['x-r', response.headers['content-type']]]", "true"),
            _ => store(&format!("s{i}"), &value, "true", rng.pct(80)),
        });
    }
    json!({"services": {"rl": svc("ratelimit-report", "rl-cluster", "deny")}, "actionSets": [aset("s", "*", actions)]})
}

/// Requests that go all their way in the order a proxy calls, with contents of any kind.
fn orderly(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let mut w = World::new();
    sim::with(|h| h.log_level = LogLevel::Warn);
    let opts = soup::Opts { broken: rng.pct(20), tracing: rng.pct(20) };
    let c = if rng.pct(60) { reader(rng) } else { soup::config(rng, &opts) };
    let text = c.to_string();
    let mut shape = String::from("o");
    if w.configure(&text) {
        for t in w.outstanding(ROOT) {
            w.grpc_reply(t, 0, Some(messages::descriptor_answer(&[("dyn-cluster", soup::DYN, soup::descriptors())])));
        }
    }
    for serial in 0..rng.range(1, 5) {
        let mut r = soup::request(rng, serial, opts.tracing);
        if rng.pct(15) {
            soup::spoil(rng, &mut r);
        }
        if rng.pct(60) {
            for (list, all) in [(&mut r.req, false), (&mut r.resp, true)] {
                let mut b = if rng.pct(70) { soup::body(rng, all) } else { hostile_body(rng) };
                while all && rng.pct(40) {
                    b.extend(soup::body(rng, true));
                }
                *list = soup::chunks(rng, &b);
            }
            if rng.pct(70) {
                r.resp_headers = vec![(":status".into(), "200".into()), ("content-type".into(), "text/event-stream".into())];
            }
        }
        let ctx = w.new_stream(sim::Stream { props: r.props.clone(), req_headers: Some(r.headers.clone()), ..Default::default() });
        let mut held = w.request_headers(ctx, r.req.is_empty()) == proxy_wasm::types::Action::Pause;
        shape.push(if held { 'H' } else { 'h' });
        let mut ended = false;
        for response in [false, true] {
            let chunks = if response { &r.resp } else { &r.req };
            if response {
                respond(ctx, r.resp_headers.clone());
                w.response_headers(ctx, chunks.is_empty());
                shape.push('r');
            }
            let mut buf: Vec<u8> = vec![];
            for i in 0..chunks.len() {
                for t in w.outstanding(ctx) {
                    if held || rng.pct(50) {
                        let service = sim::with(|h| h.tokens[&t].call.service.clone());
                        let (st, b) = soup::reply(rng, &service);
                        w.grpc_reply(t, st, b);
                        shape.push('a');
                    }
                }
                buf.extend_from_slice(&chunks[i]);
                buffer(ctx, response, Some(buf.clone()));
                let last = i + 1 == chunks.len() && rng.pct(90);
                let n = buf.len();
                held = if response { w.response_body(ctx, n, last) } else { w.request_body(ctx, n, last) } == proxy_wasm::types::Action::Pause;
                if !held {
                    buf.clear();
                }
                cov.events += 1;
            }
            if !chunks.is_empty() && rng.pct(10) {
                if response {
                    w.response_trailers(ctx);
                } else {
                    w.request_trailers(ctx);
                }
                shape.push('t');
            }
            shape.push_str(&format!("{}", chunks.len().min(4)));
            if World::since(0).iter().any(|e| e.ctx == ctx && matches!(e.ev, Ev::Reply { .. })) {
                ended = true;
                if rng.pct(50) {
                    break;
                }
            }
        }
        shape.push(if ended { 'E' } else { 'e' });
        for t in w.outstanding(ctx) {
            if rng.pct(80) {
                let service = sim::with(|h| h.tokens[&t].call.service.clone());
                let (st, b) = soup::reply(rng, &service);
                w.grpc_reply(t, st, b);
            }
        }
        if World::since(0).iter().any(|e| e.ctx == ctx && matches!(e.ev, Ev::SetProp(..))) {
            cov.state("exported");
        }
        w.log_done(ctx);
        w.destroy(ctx);
        if let Some(p) = &w.panicked {
            return Err(fail("panic", p.clone(), &text, 0));
        }
    }
    cov.state("orderly");
    cov.distinct(&shape);
    Ok(())
}

fn g20(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    if rng.pct(40) {
        return orderly(rng, cov);
    }
    let mut w = World::new();
    let chatty = rng.pct(10);
    sim::with(|h| h.log_level = if chatty { LogLevel::Trace } else { LogLevel::Warn });
    let faulty = rng.pct(40);
    let mut fr = Rng::new(rng.next());
    let rate = rng.range(1, 25);
    if faulty {
        sim::with(|h| {
            h.faults = Some(Box::new(move |_, k, _| {
                // a host without working metrics stops the module for good: not of interest
                if k == Kind::DefineMetric || !fr.pct(rate) {
                    return None;
                }
                Some(*fr.pick(&[Status::NotFound, Status::BadArgument, Status::Empty, Status::InternalFailure, Status::ParseFailure]))
            }))
        });
    }
    let opts = soup::Opts { broken: rng.pct(60), tracing: rng.pct(40) };
    let mut text = String::new();
    let mut shape = String::new();
    let mut live: Vec<(u32, soup::Request)> = vec![];
    let mut serial = 0;
    let steps = rng.range(8, 60);
    for step in 0..steps {
        cov.events += 1;
        let op = if step == 0 { 0 } else { rng.below(40) };
        match op {
            0 | 1 => {
                let mut c = soup::config(rng, &opts);
                let valid = rng.pct(70);
                if !valid {
                    for _ in 0..rng.range(1, 3) {
                        mutate(rng, &mut c);
                    }
                }
                text = c.to_string();
                let ok = match rng.below(20) {
                    0 => w.configure_without(),
                    1 => {
                        let mut b = text.clone().into_bytes();
                        noise(rng, &mut b);
                        text = String::from_utf8_lossy(&b).into_owned();
                        w.configure(&text)
                    }
                    _ => w.configure(&text),
                };
                cov.state(if ok { "configured" } else { "config_rejected" });
                shape.push('c');
            }
            2 | 3 => {
                w.tick();
                shape.push('t');
            }
            4 | 5 => {
                for t in w.outstanding(ROOT) {
                    let strange = rng.pct(30);
                    let d = if strange { soup::strange_descriptors(rng) } else { soup::descriptors() };
                    let mut b = messages::descriptor_answer(&[("dyn-cluster", soup::DYN, d)]);
                    if strange {
                        cov.state("strange_descriptors");
                    }
                    if rng.pct(25) {
                        noise(rng, &mut b);
                        cov.state("descriptor_noise");
                    }
                    w.grpc_reply(t, if rng.pct(10) { 14 } else { 0 }, Some(b));
                    shape.push('D');
                }
            }
            6..=9 => {
                serial += 1;
                let mut r = soup::request(rng, serial, opts.tracing);
                if rng.pct(40) {
                    soup::spoil(rng, &mut r);
                    cov.state("odd_request");
                }
                let s = sim::Stream { props: r.props.clone(), req_headers: Some(r.headers.clone()), ..Default::default() };
                let ctx = w.new_stream(s);
                live.push((ctx, r));
                shape.push('s');
                if rng.pct(90) {
                    w.request_headers(ctx, rng.pct(50));
                }
            }
            10..=12 if !live.is_empty() => {
                let k = rng.below(live.len());
                w.request_headers(live[k].0, rng.pct(50));
                cov.state("headers_again");
                shape.push('h');
            }
            13..=22 if !live.is_empty() => {
                // any callback in any order, with sizes that may not match what is held
                let k = rng.below(live.len());
                let ctx = live[k].0;
                let b = if rng.pct(60) { hostile_body(rng) } else { live[k].1.resp.concat() };
                let n = match rng.below(6) {
                    0 => 0,
                    1 => b.len() + rng.below(100),
                    2 => rng.below(b.len() + 1),
                    3 if rng.pct(20) => 1 << 30,
                    _ => b.len(),
                };
                match rng.below(5) {
                    4 => {
                        if rng.pct(50) {
                            w.request_trailers(ctx);
                        } else {
                            w.response_trailers(ctx);
                        }
                        shape.push('t');
                    }
                    0 => {
                        buffer(ctx, false, rng.pct(95).then_some(b));
                        w.request_body(ctx, n, rng.pct(40));
                        shape.push('q');
                    }
                    1 => {
                        if rng.pct(95) {
                            respond(ctx, live[k].1.resp_headers.clone());
                        }
                        w.response_headers(ctx, rng.pct(20));
                        shape.push('r');
                    }
                    _ => {
                        buffer(ctx, true, rng.pct(95).then_some(b));
                        w.response_body(ctx, n, rng.pct(40));
                        shape.push('b');
                    }
                }
            }
            23..=34 if !live.is_empty() => {
                let k = rng.below(live.len());
                let ctx = live[k].0;
                let out = w.outstanding(ctx);
                if rng.pct(8) || out.is_empty() {
                    // a token nobody waits for, or somebody else's
                    let t = rng.below(60) as u32;
                    w.raw_reply(ctx, t, rng.below(3) as u32, rng.pct(50).then(|| hostile_body(rng)));
                    cov.state("unknown_token");
                    shape.push('u');
                } else {
                    let t = *rng.pick(&out);
                    let service = sim::with(|h| h.tokens[&t].call.service.clone());
                    let (st, mut b) = soup::reply(rng, &service);
                    if let (Some(b), true) = (&mut b, rng.pct(25)) {
                        noise(rng, b);
                        cov.state("answer_noise");
                    }
                    w.grpc_reply(t, st, b);
                    cov.state("answered");
                    shape.push('a');
                }
            }
            _ if !live.is_empty() => {
                let k = rng.below(live.len());
                let (ctx, _) = live.remove(k);
                w.log_done(ctx);
                w.destroy(ctx);
                shape.push('d');
            }
            _ => {}
        }
        if let Some(p) = &w.panicked {
            // when the host refuses the reply that stands in for a request that could not be
            // judged, the module gives up on purpose: nothing may pass
            let ev = World::since(0);
            if ev.len() > 1 && matches!(ev[ev.len() - 2].ev, Ev::ReplyRefused) {
                cov.state("gave_up");
                return Ok(());
            }
            return Err(fail("panic", p.clone(), &text, 0));
        }
    }
    for (ctx, _) in live {
        w.log_done(ctx);
        w.destroy(ctx);
    }
    if let Some(p) = &w.panicked {
        return Err(fail("panic", p.clone(), &text, 0));
    }
    for r in World::since(0) {
        match r.ev {
            Ev::Dispatch(..) => cov.state("dispatch"),
            Ev::DispatchRefused(..) => cov.state("dispatch_refused"),
            Ev::Reply { .. } => cov.state("local_reply"),
            Ev::SetMap(..) => cov.state("headers_set"),
            Ev::SetProp(..) => cov.state("exported"),
            _ => {}
        }
    }
    if faulty {
        cov.state("host_failures");
    }
    cov.distinct(&shape);
    if rng.pct(1) {
        cov.sample(format!("{shape} with {text}"));
    }
    Ok(())
}

pub static G20: Prop = Prop {
    id: "G20",
    level: "exploration",
    rule: "a case counts as distinct by its sequence of configurations, ticks, descriptor answers, streams, callbacks, answers, unknown answers and destructions",
    quick: 12_000,
    thorough: 1_000_000,
    case: g20,
    probes: &[],
    need: &["configured", "config_rejected", "headers_again", "orderly", "odd_request", "unknown_token", "answered", "answer_noise", "descriptor_noise", "strange_descriptors", "host_failures", "dispatch", "dispatch_refused", "local_reply", "headers_set", "exported"],
    assumptions: super::pipeline::ASSUME,
};

/// What one step of a stream showed the outside.
fn effects(recs: &[sim::Rec], resumed: (u32, u32)) -> Vec<String> {
    let mut out = vec![];
    let sorted = |b: &[u8]| {
        // protobuf maps are written in any order
        let mut v = b.to_vec();
        v.sort();
        v
    };
    for r in recs {
        match &r.ev {
            Ev::Dispatch(_, c) | Ev::DispatchRefused(c, _) => {
                let mut m: Vec<String> = c.metadata.iter().map(|(k, v)| format!("{k}={}", String::from_utf8_lossy(v))).collect();
                m.sort();
                out.push(format!("call {}/{}/{} {:?} {m:?} {:?}", c.upstream, c.service, c.method, c.timeout, String::from_utf8_lossy(&sorted(&c.message))));
            }
            Ev::Reply { status, headers, body } => out.push(format!("reply {status} {headers:?} {:?}", body.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()))),
            Ev::SetMap(t, h) => out.push(format!("map {t:?} {h:?}")),
            Ev::SetProp(p, b) => out.push(format!("property {p:?} {:?}", sorted(b))),
            Ev::Metric(n, v) => out.push(format!("metric {n} {v}")),
            Ev::Panic(p) => out.push(format!("panic {p}")),
            Ev::Exit(w, a) => out.push(format!("{w} -> {a:?}")),
            _ => {}
        }
    }
    out.push(format!("resumed {resumed:?}"));
    out
}

type Replies = BTreeMap<String, (u32, Option<Vec<u8>>)>;

struct Alone {
    plan: Plan,
    replies: Replies,
    config: String,
    /// None: the stream's next callback; Some(n): answer the nth outstanding call
    steps: Vec<Option<usize>>,
    seen: Vec<Vec<String>>,
    pace: usize,
    broken_off: bool,
}

/// One step of a stream under Envoy's rules; what it showed.
fn walk(w: &mut World, f: &mut Flight, a: &Replies, step: Option<usize>) -> Option<Vec<String>> {
    let mark = World::mark();
    let before = sim::with(|h| h.streams.get(&f.ctx).map_or((0, 0), |s| (s.resume_req, s.resume_resp)));
    match step {
        None => {
            let _ = f.step(w, Step::Stream);
        }
        Some(n) => {
            let t = *w.outstanding(f.ctx).get(n)?;
            let up = sim::with(|h| h.tokens[&t].call.upstream.clone());
            f.raw = Some(a.get(&up).cloned().unwrap_or((0, None)));
            let _ = f.step(w, Step::Answer(t));
        }
    }
    let after = sim::with(|h| h.streams.get(&f.ctx).map_or((0, 0), |s| (s.resume_req, s.resume_resp)));
    let recs: Vec<sim::Rec> = World::since(mark);
    let foreign: Vec<String> = recs.iter().filter(|r| r.ctx != f.ctx).map(|r| format!("in context {}: {:?}", r.ctx, r.ev)).collect();
    let mut e = effects(&recs, (after.0 - before.0, after.1 - before.1));
    e.extend(foreign);
    Some(e)
}

fn load(w: &mut World, rng: &mut Rng, text: &str) -> bool {
    let ok = w.configure(text);
    if w.outstanding(ROOT).is_empty() && rng.pct(50) {
        w.tick();
    }
    for t in w.outstanding(ROOT) {
        w.grpc_reply(t, 0, Some(messages::descriptor_answer(&[("dyn-cluster", soup::DYN, soup::descriptors())])));
    }
    ok
}

fn g22(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let mut w = World::new();
    let opts = soup::Opts { broken: false, tracing: false };
    let mut config = soup::config(rng, &opts).to_string();
    if !load(&mut w, rng, &config) {
        cov.state("rejected");
        return Ok(());
    }
    w.tick();
    for t in w.outstanding(ROOT) {
        w.grpc_reply(t, 0, Some(messages::descriptor_answer(&[("dyn-cluster", soup::DYN, soup::descriptors())])));
    }
    let n = rng.range(2, 5);
    let mut all: Vec<Alone> = vec![];
    let mut flights: Vec<Flight> = vec![];
    let mut live: Vec<usize> = vec![];
    let mut shape = String::new();
    while flights.len() < n || !live.is_empty() {
        if flights.len() < n && (live.is_empty() || rng.pct(25)) {
            if rng.pct(12) && !flights.is_empty() {
                // a configuration for the streams to come; those there keep theirs
                let next = soup::config(rng, &opts).to_string();
                if load(&mut w, rng, &next) {
                    config = next;
                    cov.state("reconfigured");
                    shape.push('C');
                }
            }
            let serial = flights.len();
            let r = soup::request(rng, serial, false);
            let plan = Plan {
                headers: r.headers,
                props: r.props,
                req_chunks: r.req,
                req_trailers: rng.pct(12),
                resp_trailers: rng.pct(12),
                resp_headers: r.resp_headers,
                resp_chunks: r.resp,
                answers: BTreeMap::new(),
                local_reply_callbacks: rng.pct(50),
                answer_bias: 50,
            };
            let mut replies = Replies::new();
            for (up, service) in [
                ("rl-cluster", "envoy.service.ratelimit.v3.RateLimitService"),
                ("rl2-cluster", "envoy.service.ratelimit.v3.RateLimitService"),
                ("check-cluster", "kuadrant.service.ratelimit.v1.RateLimitService"),
                ("report-cluster", "kuadrant.service.ratelimit.v1.RateLimitService"),
                ("auth-cluster", "envoy.service.auth.v3.Authorization"),
                ("auth2-cluster", "envoy.service.auth.v3.Authorization"),
                ("dyn-cluster", soup::DYN),
            ] {
                replies.insert(up.into(), soup::reply(rng, service));
            }
            let mut f = Flight::new(&mut w, plan.clone(), None);
            f.mask = 0;
            flights.push(f);
            all.push(Alone { plan, replies, config: config.clone(), steps: vec![], seen: vec![], pace: rng.range(10, 90), broken_off: false });
            live.push(serial);
            shape.push('s');
            continue;
        }
        if rng.pct(2) {
            w.tick();
        }
        let k = rng.below(live.len());
        let i = live[k];
        let (f, a) = (&mut flights[i], &mut all[i]);
        let steps = f.enabled(&w);
        let out = w.outstanding(f.ctx).len();
        if steps.is_empty() || f.stage == Stage::Finished || a.steps.len() > 60 || rng.pct(1) {
            a.broken_off = f.stage != Stage::Finished;
            let _ = f.finish(&mut w);
            live.remove(k);
            shape.push('d');
            continue;
        }
        let stream = steps[0] == Step::Stream;
        let step = if out > 0 && (!stream || rng.pct(a.pace)) { Some(rng.below(out)) } else { None };
        cov.events += 1;
        shape.push_str(if step.is_some() { "a" } else { "n" });
        shape.push((b'0' + i as u8) as char);
        let Some(seen) = walk(&mut w, f, &a.replies, step) else { continue };
        a.steps.push(step);
        a.seen.push(seen);
        if w.panicked.is_some() {
            return Ok(()); // G20's
        }
    }
    drop(flights);
    for (i, a) in all.iter().enumerate() {
        let mut w = World::new();
        if !load(&mut w, rng, &a.config) {
            return Err(fail("rejected-alone", "a configuration taken before was rejected".into(), &a.config, 0));
        }
        w.tick();
        for t in w.outstanding(ROOT) {
            w.grpc_reply(t, 0, Some(messages::descriptor_answer(&[("dyn-cluster", soup::DYN, soup::descriptors())])));
        }
        let mut f = Flight::new(&mut w, a.plan.clone(), None);
        f.mask = 0;
        for (n, step) in a.steps.iter().enumerate() {
            let possible = match step {
                None => f.enabled(&w).first() == Some(&Step::Stream),
                Some(k) => w.outstanding(f.ctx).len() > *k,
            };
            let seen = if possible { walk(&mut w, &mut f, &a.replies, *step) } else { None };
            if seen.as_ref() != Some(&a.seen[n]) {
                let d = format!(
                    "request {i} of {}, step {n} ({step:?}) with the others: {:#?}\nalone: {seen:#?}\nheaders {:?}\nsteps {:?}\nall: {shape}",
                    all.len(),
                    a.seen[n],
                    a.plan.headers,
                    a.steps
                );
                return Err(fail("differs", d, &a.config, 0));
            }
            for e in a.seen[n].iter() {
                for (s, k) in [("call ", "call"), ("reply ", "reply"), ("map ", "headers"), ("property ", "exported")] {
                    if e.starts_with(s) {
                        cov.state(k);
                    }
                }
            }
        }
        if !a.broken_off {
            cov.state("to_the_end");
        }
        cov.state("compared");
    }
    let _ = pb::W::Len(vec![]);
    cov.distinct(&shape);
    if rng.pct(1) {
        cov.sample(format!("{shape} with {config}"));
    }
    Ok(())
}

pub static G22: Prop = Prop {
    id: "G22",
    level: "exploration",
    rule: "a case counts as distinct by the interleaving of the steps of its 2-5 requests and of the configurations loaded in between",
    quick: 3000,
    thorough: 400_000,
    case: g22,
    probes: &[],
    need: &["compared", "to_the_end", "reconfigured", "call", "reply", "headers", "exported"],
    assumptions: super::pipeline::ASSUME,
};

fn plan(rng: &mut Rng, serial: usize) -> (Plan, Replies) {
    let r = soup::request(rng, serial, false);
    let plan = Plan {
        headers: r.headers,
        props: r.props,
        req_chunks: r.req,
        req_trailers: rng.pct(12),
        resp_trailers: rng.pct(12),
        resp_headers: r.resp_headers,
        resp_chunks: r.resp,
        answers: BTreeMap::new(),
        local_reply_callbacks: rng.pct(50),
        answer_bias: 50,
    };
    let mut replies = Replies::new();
    for (up, service) in [
        ("rl-cluster", "envoy.service.ratelimit.v3.RateLimitService"),
        ("rl2-cluster", "envoy.service.ratelimit.v3.RateLimitService"),
        ("check-cluster", "kuadrant.service.ratelimit.v1.RateLimitService"),
        ("report-cluster", "kuadrant.service.ratelimit.v1.RateLimitService"),
        ("auth-cluster", "envoy.service.auth.v3.Authorization"),
        ("auth2-cluster", "envoy.service.auth.v3.Authorization"),
        ("dyn-cluster", soup::DYN),
    ] {
        replies.insert(up.into(), soup::reply(rng, service));
    }
    (plan, replies)
}

fn loaded(w: &mut World, rng: &mut Rng, text: &str) -> bool {
    let ok = load(w, rng, text);
    w.tick();
    for t in w.outstanding(ROOT) {
        w.grpc_reply(t, 0, Some(messages::descriptor_answer(&[("dyn-cluster", soup::DYN, soup::descriptors())])));
    }
    ok
}

fn g29(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let mut config = soup::config(rng, &soup::Opts { broken: false, tracing: false });
    for (_, s) in config["services"].as_object_mut().unwrap() {
        s["timeout"] = json!(rng.pick(super::same::TIMEOUTS)[0]);
    }
    let mut w = World::new();
    if !loaded(&mut w, rng, &config.to_string()) {
        cov.state("rejected");
        return Ok(());
    }
    let n = rng.range(1, 3);
    let mut all: Vec<Alone> = vec![];
    for serial in 0..n {
        let (plan, replies) = plan(rng, serial);
        let mut f = Flight::new(&mut w, plan.clone(), None);
        f.mask = 0;
        let mut a = Alone { plan, replies, config: String::new(), steps: vec![], seen: vec![], pace: rng.range(10, 90), broken_off: false };
        while f.stage != Stage::Finished && a.steps.len() < 60 {
            let steps = f.enabled(&w);
            let out = w.outstanding(f.ctx).len();
            if steps.is_empty() {
                break;
            }
            let stream = steps[0] == Step::Stream;
            let step = if out > 0 && (!stream || rng.pct(a.pace)) { Some(rng.below(out)) } else { None };
            let Some(seen) = walk(&mut w, &mut f, &a.replies, step) else { break };
            a.steps.push(step);
            a.seen.push(seen);
            if w.panicked.is_some() {
                return Ok(()); // G20's
            }
        }
        let _ = f.finish(&mut w);
        all.push(a);
    }
    for _ in 0..2 {
        let (text, done) = super::same::other_words(rng, &config);
        let mut w = World::new();
        if !loaded(&mut w, rng, &text) {
            return Err(fail("rejected-in-other-words", format!("{done:?}: rejected is {text}"), &config.to_string(), 0));
        }
        for d in &done {
            cov.state(d);
        }
        for a in &all {
            let mut f = Flight::new(&mut w, a.plan.clone(), None);
            f.mask = 0;
            for (n, step) in a.steps.iter().enumerate() {
                cov.events += 1;
                let possible = match step {
                    None => f.enabled(&w).first() == Some(&Step::Stream),
                    Some(k) => w.outstanding(f.ctx).len() > *k,
                };
                let seen = if possible { walk(&mut w, &mut f, &a.replies, *step) } else { None };
                if seen.as_ref() != Some(&a.seen[n]) {
                    let d = format!("{done:?}: step {n} ({step:?}): {:#?}\nin other words: {seen:#?}\nheaders {:?}\nsteps {:?}\n{text}", a.seen[n], a.plan.headers, a.steps);
                    return Err(fail("differs-in-other-words", d, &config.to_string(), 0));
                }
                for e in a.seen[n].iter() {
                    for (s, k) in [("call ", "call"), ("reply ", "reply"), ("map ", "headers"), ("property ", "exported")] {
                        if e.starts_with(s) {
                            cov.state(k);
                        }
                    }
                }
            }
            let _ = f.finish(&mut w);
            cov.state("compared");
        }
        let steps: String = all.iter().map(|a| format!("{}-{:?};", a.steps.len(), a.plan.headers.len())).collect();
        cov.distinct(&format!("{done:?}{steps}"));
    }
    Ok(())
}

pub static G29: Prop = Prop {
    id: "G29",
    level: "exploration",
    rule: "a case counts as distinct by what was said otherwise in the configuration and the length of the requests compared",
    quick: 6000,
    thorough: 400_000,
    case: g29,
    probes: &[],
    need: &["compared", "call", "reply", "headers", "exported", "unused_services", "other_hosts", "renamed_services", "renamed_sets", "renamed_variables", "idle_actions", "defaults", "parentheses", "more_hostnames", "hostname_case", "split_sets", "moved_sets", "spelling"],
    assumptions: super::pipeline::ASSUME,
};
