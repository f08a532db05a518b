//! G16: descriptors of dynamic services are fetched, kept and used per (cluster, service).
use super::kit::*;
use crate::pb::{self, W};
use crate::prop::*;
use crate::rng::Rng;
use crate::world::{World, ROOT};
use proxy_wasm::sim::{self, Call, Kind};
use proxy_wasm::types::Status;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

type Key = (String, String);

#[derive(Clone, Debug, PartialEq)]
enum St {
    Missing,
    Pending(u32),
    /// numbers of the request's and the answer's field
    Have(u32, u32),
}

const PKG: &str = "pk.v1";
const EMBEDDED: &[&str] = &["envoy.service.ratelimit.v3.RateLimitService", "kuadrant.service.ratelimit.v1.RateLimitService", "envoy.service.auth.v3.Authorization"];

/// A descriptor set: one file with a service of one method over messages of one text field each.
fn fds(service: &str, req: u32, rep: u32) -> Vec<u8> {
    let simple = service.rsplit('.').next().unwrap();
    let package = &service[..service.len() - simple.len() - 1];
    let field = |name: &str, n: u32| pb::sub(2, &[pb::s(1, name), pb::int(3, n as i64), pb::int(4, 1), pb::int(5, 9)]);
    let file = [
        pb::s(1, &format!("{simple}.proto")),
        pb::s(2, package),
        pb::sub(4, &[pb::s(1, "Req"), field("text", req)]),
        pb::sub(4, &[pb::s(1, "Rep"), field("ok", rep)]),
        pb::sub(6, &[pb::s(1, simple), pb::sub(2, &[pb::s(1, "Do"), pb::s(2, &format!(".{package}.Req")), pb::s(3, &format!(".{package}.Rep"))])]),
        pb::s(12, "proto3"),
    ];
    pb::enc(&[pb::sub(1, &file)])
}

struct Svc {
    key: Key,
    mode: &'static str,
    method: &'static str,
    host: String,
}

struct Model {
    st: BTreeMap<Key, St>,
    /// keys of the configuration in force
    wanted: BTreeSet<Key>,
    source: String,
    live: Vec<Svc>,
    builtin: Option<String>,
}

fn asked(c: &Call) -> Vec<Key> {
    pb::dec(&c.message)
        .unwrap_or_default()
        .iter()
        .filter_map(|(f, w)| match (f, w) {
            (1, W::Len(b)) => {
                let m = pb::dec(b)?;
                Some((pb::get_str(&m, 1), pb::get_str(&m, 2)))
            }
            _ => None,
        })
        .collect()
}

impl Model {
    /// Checks what the module asked for at a moment it had to ask for all that is missing.
    fn fetch(&mut self, mark: usize, cov: &mut Cov) -> Result<(), (String, String)> {
        let s = seen(mark);
        if let Some(p) = s.panics.first() {
            return Err(("panic".into(), p.clone()));
        }
        let need: BTreeSet<Key> = self.wanted.iter().filter(|k| self.st[*k] == St::Missing).cloned().collect();
        let all: Vec<(Option<u32>, &Call)> = s.calls.iter().map(|(t, c)| (Some(*t), c)).chain(s.refused.iter().map(|c| (None, c))).collect();
        if all.len() > 1 {
            return Err(("asked-twice".into(), format!("{} requests for descriptors at once", all.len())));
        }
        let Some((token, call)) = all.first() else {
            if !need.is_empty() {
                return Err(("not-asked".into(), format!("descriptors missing, none asked for: {need:?}")));
            }
            cov.state("nothing_to_fetch");
            return Ok(());
        };
        if (call.upstream.as_str(), call.service.as_str(), call.method.as_str(), call.timeout) != (self.source.as_str(), "kuadrant.v1.DescriptorService", "GetServiceDescriptors", Duration::from_secs(1)) {
            return Err(("fetch-call".into(), format!("{call:?}, expected at {}", self.source)));
        }
        let list = asked(call);
        let set: BTreeSet<Key> = list.iter().cloned().collect();
        if set.len() != list.len() {
            return Err(("fetch-duplicates".into(), format!("{list:?}")));
        }
        if let Some(k) = need.iter().find(|k| !set.contains(*k)) {
            return Err(("not-asked".into(), format!("{k:?} is missing and was not asked for: {list:?}")));
        }
        for k in &set {
            match self.st.get(k) {
                Some(St::Missing) if self.wanted.contains(k) => {}
                other => return Err(("asked-needlessly".into(), format!("{k:?} ({other:?}) was asked for"))),
            }
        }
        match token {
            Some(t) => {
                for k in set {
                    self.st.insert(k, St::Pending(*t));
                }
                cov.state("fetch");
            }
            None => cov.state("fetch_refused"),
        }
        Ok(())
    }
}

fn g16(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let mut w = World::new();
    let mut m = Model { st: BTreeMap::new(), wanted: BTreeSet::new(), source: "kuadrant-operator-grpc".into(), live: vec![], builtin: None };
    let keys: Vec<Key> = {
        let mut v = vec![];
        for c in ["c1", "c2", "c3", "C1"] {
            for s in ["pk.v1.A", "pk.v1.B"] {
                v.push((c.to_string(), s.to_string()));
            }
        }
        v
    };
    let mut log: Vec<String> = vec![];
    let mut serial = 0u32;
    let mut shape = String::new();
    let mut in_flight: Vec<(u32, u32, Key, &'static str)> = vec![]; // ctx, token, key, mode
    let steps = rng.range(4, 18);
    let report = |sig: &str, d: String, log: &[String], mark: usize| fail(sig, d, &log.join("\n"), mark);
    for step in 0..steps {
        let op = if step == 0 { 0 } else { rng.below(10) };
        let mark = World::mark();
        cov.events += 1;
        match op {
            // a configuration, sometimes one that is rejected, sometimes with the fetch refused
            0 | 1 => {
                let many = rng.pct(30);
                let mut svcs = serde_json::Map::new();
                let mut sets = vec![];
                let mut live = vec![];
                let mut wanted = BTreeSet::new();
                for (i, k) in keys.iter().enumerate() {
                    if !rng.pct(55) {
                        continue;
                    }
                    serial += 1;
                    let mode = *rng.pick(&["deny", "allow"]);
                    let method = if rng.pct(8) { "Nope" } else { "Do" };
                    svcs.insert(format!("s{i}"), json!({"type": "dynamic", "endpoint": k.0, "grpcService": k.1, "grpcMethod": method, "failureMode": mode, "timeout": "100ms"}));
                    let host = format!("h{serial}.com");
                    sets.push(aset(&format!("x{i}"), &host, vec![
                        json!({"type": "grpc", "service": format!("s{i}"), "var": "r", "predicate": "true", "isGuard": true, "terminal": false,
                            "onReply": [set_headers(false, "[['x-ok', r.ok]]", "true")],
                            "messageBuilder": format!("{PKG}.Req {{ text: request.host }}")}),
                        set_headers(false, "[['x-end', 'v']]", "true"),
                    ]));
                    live.push(Svc { key: k.clone(), mode, method, host });
                    wanted.insert(k.clone());
                }
                let builtin = rng.pct(50).then(|| *rng.pick(EMBEDDED));
                if let Some(b) = builtin {
                    svcs.insert("builtin".into(), if b.contains("Authorization") || rng.pct(50) {
                        json!({"type": "dynamic", "endpoint": "c1", "grpcService": b, "grpcMethod": if b.contains("auth") { "Check" } else { "ShouldRateLimit" }, "failureMode": "deny", "timeout": "100ms"})
                    } else {
                        svc(rng.pick(&["ratelimit", "ratelimit-check", "ratelimit-report", "auth"]), "c1", "deny")
                    });
                }
                let builtin_host = builtin.filter(|b| *b == EMBEDDED[0]).map(|_| {
                    serial += 1;
                    let host = format!("h{serial}.com");
                    svcs.insert("rl".into(), json!({"type": "dynamic", "endpoint": "c1", "grpcService": EMBEDDED[0], "grpcMethod": "ShouldRateLimit", "failureMode": "deny", "timeout": "100ms"}));
                    sets.push(aset("rl", &host, vec![call("rl", "r", "'d'", vec![])]));
                    host
                });
                let mut cfg = json!({"services": svcs, "actionSets": sets});
                let source = if rng.pct(40) { Some(format!("src{}", rng.below(3))) } else { None };
                if let Some(s) = &source {
                    cfg["descriptorService"] = json!(s);
                }
                let broken = step > 0 && rng.pct(20);
                if broken {
                    cfg["actionSets"].as_array_mut().unwrap().push(aset("bad", "bad.com", vec![set_headers(false, "[['a', ", "true")]));
                }
                let refuse = rng.pct(15);
                if refuse {
                    sim::with(|h| h.faults = Some(Box::new(move |ctx, k, _| (ctx == ROOT && k == Kind::Dispatch).then_some(Status::InternalFailure))));
                }
                let ok = w.configure(&cfg.to_string());
                sim::with(|h| h.faults = None);
                log.push(format!("configure {cfg} -> {ok}"));
                shape.push_str(if broken { "X" } else { "C" });
                if ok == broken {
                    return Err(report("configure", format!("accepted: {ok}"), &log, mark));
                }
                for k in &wanted {
                    m.st.entry(k.clone()).or_insert(St::Missing);
                }
                if broken {
                    cov.state("rejected");
                    let s = seen(mark);
                    if let Some(p) = s.panics.first() {
                        return Err(report("panic", p.clone(), &log, mark));
                    }
                    continue;
                }
                m.live = live;
                m.builtin = builtin_host;
                m.wanted = wanted;
                m.source = source.unwrap_or("kuadrant-operator-grpc".into());
                if builtin.is_some() && m.wanted.is_empty() {
                    cov.state("builtin_only");
                }
                m.fetch(mark, cov).map_err(|(s, d)| report(&s, d, &log, mark))?;
                if !m.wanted.is_empty() && !matches!(sim::with(|h| h.tick_period), Some(d) if !d.is_zero() && d <= Duration::from_secs(10)) {
                    return Err(report("no-tick", "descriptors are needed but the module asked for no ticks".into(), &log, mark));
                }
            }
            2 | 3 => {
                let refuse = rng.pct(15);
                if refuse {
                    sim::with(|h| h.faults = Some(Box::new(move |ctx, k, _| (ctx == ROOT && k == Kind::Dispatch).then_some(Status::BadArgument))));
                }
                w.tick();
                sim::with(|h| h.faults = None);
                log.push("tick".into());
                shape.push('T');
                m.fetch(mark, cov).map_err(|(s, d)| report(&s, d, &log, mark))?;
            }
            // a long time without an answer that helps
            4 if rng.pct(12) => {
                let rounds = rng.range(3, 70);
                log.push(format!("{rounds} rounds of ticks and answers that don't help"));
                shape.push('L');
                for _ in 0..rounds {
                    let mark = World::mark();
                    let refuse = rng.pct(15);
                    if refuse {
                        sim::with(|h| h.faults = Some(Box::new(move |ctx, k, _| (ctx == ROOT && k == Kind::Dispatch).then_some(Status::InternalFailure))));
                    }
                    w.tick();
                    sim::with(|h| h.faults = None);
                    m.fetch(mark, cov).map_err(|(s, d)| report(&s, d, &log, mark))?;
                    for t in w.outstanding(ROOT) {
                        let mark = World::mark();
                        match rng.below(3) {
                            0 => w.grpc_reply(t, 0, None),
                            1 => w.grpc_reply(t, 0, Some(vec![0x0a, 0x7f, 1])),
                            _ => w.grpc_reply(t, rng.range(1, 16) as u32, None),
                        };
                        for st in m.st.values_mut().filter(|s| **s == St::Pending(t)) {
                            *st = St::Missing;
                        }
                        let s = seen(mark);
                        if let Some(p) = s.panics.first() {
                            return Err(report("panic", p.clone(), &log, mark));
                        }
                        if !s.calls.is_empty() {
                            return Err(report("asked-early", format!("{} calls on an answer", s.calls.len()), &log, mark));
                        }
                    }
                }
                cov.state("long_outage");
            }
            // an answer to an outstanding fetch
            4..=6 => {
                let out = w.outstanding(ROOT);
                if out.is_empty() {
                    continue;
                }
                let t = *rng.pick(&out);
                let ks: Vec<Key> = m.st.iter().filter(|(_, s)| **s == St::Pending(t)).map(|(k, _)| k.clone()).collect();
                let mut have = vec![];
                let (status, body, what) = match rng.below(12) {
                    0 => (rng.range(1, 16) as u32, None, "status"),
                    1 => (rng.range(1, 16) as u32, Some(descs(&ks.iter().map(|k| (k.clone(), fds(&k.1, 1, 2))).collect::<Vec<_>>())), "status"),
                    2 => (0, None, "empty"),
                    3 => {
                        let mut b = descs(&ks.iter().map(|k| (k.clone(), fds(&k.1, 1, 2))).collect::<Vec<_>>());
                        b.extend_from_slice(&[0x0a, 0x7f, 1]);
                        (0, Some(b), "undecodable")
                    }
                    _ => {
                        let mut items = vec![];
                        for k in &ks {
                            let (a, b) = (rng.range(1, 40) as u32, rng.range(1, 40) as u32);
                            match rng.below(8) {
                                0 => cov.state("left_out"),
                                1 => {
                                    items.push((k.clone(), vec![0xff, 0xff, 1, 2, 3]));
                                    cov.state("garbage");
                                }
                                2 => {
                                    items.push((k.clone(), fds(if k.1.ends_with('A') { "pk.v1.B" } else { "other.v2.A" }, a, b)));
                                    cov.state("other_service");
                                }
                                3 => {
                                    // a file that needs another one that is not there
                                    let f = pb::dec(&fds(&k.1, a, b)).unwrap();
                                    let W::Len(file) = &f[0].1 else { unreachable!() };
                                    let mut file = file.clone();
                                    file.extend(pb::enc(&[pb::s(3, "missing/dep.proto")]));
                                    items.push((k.clone(), pb::enc(&[(1, W::Len(file))])));
                                    cov.state("incomplete");
                                }
                                _ => {
                                    items.push((k.clone(), fds(&k.1, a, b)));
                                    have.push((k.clone(), a, b));
                                }
                            }
                        }
                        if rng.pct(20) {
                            items.push((("c1".into(), EMBEDDED[0].into()), fds(EMBEDDED[0], 9, 9)));
                        }
                        for k in &keys {
                            // entries nobody asked this time
                            if !ks.contains(k) && rng.pct(10) {
                                items.push((k.clone(), fds(&k.1, 41, 42)));
                                cov.state("unasked");
                            }
                        }
                        rng.shuffle(&mut items);
                        (0, Some(descs(&items)).filter(|b| !b.is_empty()), "items")
                    }
                };
                cov.state(what);
                log.push(format!("answer {t}: {status} {what}, usable {have:?} of {ks:?}"));
                shape.push_str(&format!("A{}{}", &what[..1], have.len()));
                w.grpc_reply(t, status, body);
                for k in ks {
                    m.st.insert(k, St::Missing);
                }
                for (k, a, b) in have {
                    m.st.insert(k, St::Have(a, b));
                    cov.state("received");
                }
                let s = seen(mark);
                if let Some(p) = s.panics.first() {
                    return Err(report("panic", p.clone(), &log, mark));
                }
                if !s.calls.is_empty() {
                    return Err(report("asked-early", format!("{} calls on an answer", s.calls.len()), &log, mark));
                }
            }
            // a request to a service the module knows by itself
            7 if m.builtin.is_some() => {
                let ctx = w.new_stream(stream(m.builtin.as_ref().unwrap(), &[]));
                w.request_headers(ctx, true);
                let s = seen(mark);
                log.push("request to the built-in service".into());
                let ok = matches!(&s.calls[..], [(_, c)] if c.service == EMBEDDED[0] && c.upstream == "c1" && pb::dec(&c.message) == Some(vec![pb::s(1, "d")]));
                if !ok || !s.panics.is_empty() {
                    return Err(report("builtin", format!("calls {:?}, panics {:?}, replies {:?}", s.calls, s.panics, s.replies), &log, mark));
                }
                cov.state("builtin_called");
                w.destroy(ctx);
            }
            // a request to a service
            _ => {
                if m.live.is_empty() {
                    continue;
                }
                let i = rng.below(m.live.len());
                let sv = &m.live[i];
                let ctx = w.new_stream(stream(&sv.host, &[]));
                w.request_headers(ctx, true);
                let s = seen(mark);
                log.push(format!("request to {} ({:?} {} {}), {:?}", sv.host, sv.key, sv.mode, sv.method, m.st[&sv.key]));
                if let Some(p) = s.panics.first() {
                    return Err(report("panic", p.clone(), &log, mark));
                }
                let end = req_headers(ctx).iter().any(|(k, _)| k == "x-end");
                let st: Vec<u32> = s.replies.iter().map(|r| r.0).collect();
                match (&m.st[&sv.key], sv.method) {
                    (St::Have(a, _), "Do") => {
                        let [(t, c)] = &s.calls[..] else {
                            return Err(report("not-called", format!("descriptors are there, {} calls, replies {st:?}", s.calls.len()), &log, mark));
                        };
                        if (&c.upstream, &c.service, c.method.as_str()) != (&sv.key.0, &sv.key.1, "Do") {
                            return Err(report("wrong-target", format!("{c:?}"), &log, mark));
                        }
                        let want = vec![pb::s(*a, &sv.host)];
                        if pb::dec(&c.message).as_ref() != Some(&want) {
                            return Err(report("wrong-schema", format!("sent {:?}, expected {want:?}", pb::dec(&c.message)), &log, mark));
                        }
                        cov.state("called");
                        shape.push('R');
                        in_flight.push((ctx, *t, sv.key.clone(), sv.mode));
                    }
                    (known, method) => {
                        if !s.calls.is_empty() {
                            return Err(report("called-blind", format!("{known:?} {method}: called {:?}", s.calls), &log, mark));
                        }
                        let want: Vec<u32> = if sv.mode == "deny" { vec![500] } else { vec![] };
                        if st != want || end == (sv.mode == "deny") {
                            return Err(report("blind-outcome", format!("{} without descriptors: replies {st:?}, went on {end}", sv.mode), &log, mark));
                        }
                        cov.state(if sv.mode == "deny" { "denied_without" } else { "allowed_without" });
                        shape.push('r');
                        w.destroy(ctx);
                    }
                }
            }
        }
        // answers to calls of requests
        if !in_flight.is_empty() && rng.pct(40) {
            let i = rng.below(in_flight.len());
            let (ctx, t, key, _) = in_flight.remove(i);
            let St::Have(_, b) = m.st[&key] else {
                return Err(report("model", "a usable descriptor was lost".into(), &log, mark));
            };
            let mark = World::mark();
            w.grpc_reply(t, 0, Some(pb::enc(&[pb::s(b, "yes")])));
            let s = seen(mark);
            log.push(format!("answer to the call of stream {ctx}"));
            let h = req_headers(ctx);
            let has = |n: &str, v: &str| h.iter().any(|(k, x)| k == n && x == v);
            if !s.panics.is_empty() || !s.replies.is_empty() || !has("x-ok", "yes") || !has("x-end", "v") {
                return Err(report("answer-unread", format!("panics {:?}, replies {:?}, headers {h:?}", s.panics, s.replies), &log, mark));
            }
            cov.state("answered");
            w.destroy(ctx);
        }
    }
    cov.distinct(&shape);
    cov.sample(shape);
    Ok(())
}

fn descs(items: &[(Key, Vec<u8>)]) -> Vec<u8> {
    super::messages::descriptor_answer(&items.iter().map(|((c, s), f)| (c.as_str(), s.as_str(), f.clone())).collect::<Vec<_>>())
}

pub static G16: Prop = Prop {
    id: "G16",
    level: "exploration",
    rule: "a case counts as distinct by its sequence of configurations, ticks, answers (with the number of usable descriptors) and requests (with or without descriptors)",
    quick: 8000,
    thorough: 200000,
    case: g16,
    probes: &[],
    need: &["long_outage", "nothing_to_fetch", "fetch", "fetch_refused", "rejected", "builtin_only", "builtin_called", "left_out", "unasked", "garbage", "other_service", "incomplete", "status", "empty", "undecodable", "received", "called", "answered", "denied_without", "allowed_without"],
    assumptions: super::pipeline::ASSUME,
};
