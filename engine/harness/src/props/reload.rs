//! G15: a configuration takes effect as a whole or not at all, and only for requests that come after it.
use super::kit::*;
use crate::pb;
use crate::prop::*;
use crate::rng::Rng;
use crate::world::World;
use proxy_wasm::sim::{self, Call, Kind};
use proxy_wasm::types::Status;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    /// typed call, then headers and a store that show the version
    Typed,
    Deny,
    Ratelimit,
    Auth,
    /// call with its nested reply actions two levels deep
    Nested,
    Empty,
    /// route predicate that does not hold
    Closed,
}

const HOSTS: &[&str] = &["a.com", "b.com", "*.c.com", "c.com", "x.c.com"];
const TIMEOUTS: &[(Option<&str>, u64)] = &[
    (None, 20_000),
    (Some("100ms"), 100_000),
    (Some("5s"), 5_000_000),
    (Some("1m"), 60_000_000),
    (Some("1m30s"), 90_000_000),
    (Some("1.5s"), 1_500_000),
    (Some("250us"), 250),
    (Some("1h"), 3_600_000_000),
];

#[derive(Clone, Debug)]
struct Ver {
    k: usize,
    text: String,
    /// shape of the action set that governs each host
    sets: BTreeMap<&'static str, Shape>,
    timeout_us: u64,
    deny: bool,
    tracker: Option<String>,
    request_data: bool,
}

fn draw(rng: &mut Rng, k: usize, cov: &mut Cov) -> (Ver, J) {
    let v = format!("v{k}");
    let (timeout, timeout_us) = *rng.pick(TIMEOUTS);
    let mode = *rng.pick(&[None, Some("deny"), Some("allow")]);
    let mk = |kind: &str| {
        let mut s = json!({"type": kind, "endpoint": format!("cl-{v}")});
        if let Some(t) = timeout {
            s["timeout"] = json!(t);
        }
        if let Some(m) = mode {
            s["failureMode"] = json!(m);
        }
        s
    };
    if mode.is_none() {
        cov.state("default_failure_mode");
    }
    if timeout.is_none() {
        cov.state("default_timeout");
    }
    let mut sets = BTreeMap::new();
    let mut js = vec![];
    for h in HOSTS {
        if !rng.pct(65) {
            continue;
        }
        let shape = *rng.pick(&[Shape::Typed, Shape::Typed, Shape::Deny, Shape::Ratelimit, Shape::Auth, Shape::Nested, Shape::Empty, Shape::Closed]);
        sets.insert(*h, shape);
        // minimal action: what may be left out is
        let tc = |mut a: J, rng: &mut Rng| {
            if rng.pct(50) {
                for (f, d) in [("isGuard", json!(true)), ("execution", json!("parallel")), ("sources", json!([]))] {
                    if rng.pct(50) {
                        a[f] = d;
                    }
                }
            }
            a
        };
        let actions = match shape {
            Shape::Typed => vec![
                tc(json!({"type": "grpc", "service": "rl", "var": "r", "predicate": "true", "terminal": false, "messageBuilder": format!("envoy.service.ratelimit.v3.RateLimitRequest {{ domain: '{v}' }}"),
                    "onReply": [set_headers(true, &format!("[['x-reply', '{v}']]"), "r.overall_code == 1"), deny(&format!("DenyResponse {{ status: {}u, body: '{v}' }}", 400 + k), "r.overall_code == 2")]}), rng),
                set_headers(true, &format!("[['x-late', '{v}']]"), "true"),
                store("ver", &format!("'{v}'"), "true", true),
                {
                    // not exported unless it says so
                    let mut s = store("hidden", &format!("'{v}'"), "true", false);
                    s.as_object_mut().unwrap().remove("exportToHost");
                    s
                },
            ],
            Shape::Nested => vec![tc(
                json!({"type": "grpc", "service": "rl", "var": "r", "predicate": "true", "terminal": false, "messageBuilder": format!("envoy.service.ratelimit.v3.RateLimitRequest {{ domain: '{v}' }}"),
                    "onReply": [{"type": "grpc", "service": "rl", "var": "q", "predicate": "true", "terminal": false, "messageBuilder": format!("envoy.service.ratelimit.v3.RateLimitRequest {{ domain: '{v}' }}"),
                        "onReply": [set_headers(true, &format!("[['x-reply', '{v}']]"), "q.overall_code == 1")]}]}),
                rng,
            )],
            Shape::Deny => vec![deny(&format!("DenyResponse {{ status: {}u, body: '{v}' }}", 400 + k), "true")],
            Shape::Ratelimit => vec![json!({"service": "rl", "scope": v, "conditionalData": [{"predicates": [], "data": [{"static": {"key": "kv", "value": v}}]}]})],
            Shape::Auth => vec![json!({"service": "au", "scope": v})],
            Shape::Empty => vec![],
            Shape::Closed => vec![deny("DenyResponse { status: 499u }", "true")],
        };
        let mut rc = json!({"hostnames": [h]});
        if shape == Shape::Closed {
            rc["predicates"] = json!(["true", format!("request.headers['x-open'] == '{v}'")]);
        } else if rng.pct(30) {
            rc["predicates"] = json!(["request.method == 'GET'"]);
        }
        js.push(json!({"name": format!("{v}-{h}"), "routeRuleConditions": rc, "actions": actions}));
    }
    let request_data = rng.pct(40);
    let tracker = rng.pct(40).then(|| format!("x-id-{v}"));
    let mut cfg = json!({"services": {"rl": mk("ratelimit"), "au": mk("auth"), "tr": {"type": "tracing", "endpoint": "otel"}}, "actionSets": js});
    if request_data {
        cfg["requestData"] = json!({"metrics.labels.who": format!("'{v}'")});
    }
    if let Some(t) = &tracker {
        cfg["observability"] = json!({"httpHeaderIdentifier": t});
    } else if rng.pct(30) {
        cfg["observability"] = json!({"defaultLevel": "ERROR"});
    }
    (Ver { k, text: cfg.to_string(), sets, timeout_us, deny: mode != Some("allow"), tracker, request_data }, cfg)
}

/// The same configuration with one thing wrong, often in its last action set.
fn spoil(rng: &mut Rng, good: &J) -> (String, String) {
    const BAD: &[&str] = &["!!", "a ==", "request.headers[", "'open", "1 +", ")", ""];
    let bad = *rng.pick(BAD);
    let mut c = good.clone();
    let typed = |over: J| {
        let mut a = json!({"predicate": "true", "terminal": false});
        for (k, v) in over.as_object().unwrap() {
            a[k] = v.clone();
        }
        a
    };
    let grpc = |svc: &str, mb: &str, nested: J| json!({"type": "grpc", "service": svc, "var": "r", "predicate": "true", "terminal": false, "messageBuilder": mb, "onReply": nested});
    let mut what = String::new();
    let mut set = json!({"name": "bad", "routeRuleConditions": {"hostnames": ["a.com"]}, "actions": [deny("DenyResponse { status: 498u }", "true")]});
    let mut add = true;
    match rng.below(27) {
        0 => {
            let t = good.to_string();
            let n = rng.range(1, t.len() - 1);
            return (t[..(0..=n).rev().find(|i| t.is_char_boundary(*i)).unwrap()].to_string(), format!("cut at {n}"));
        }
        1 => return (rng.pick(&["", "null", "[]", "5", "\"x\"", "{}", "nonsense", "{\"services\":{}}", "{\"actionSets\":[]}"]).to_string(), "not a configuration".into()),
        2 => {
            c["services"]["rl"]["type"] = json!(rng.pick(&["unknown", "Auth", ""]));
            add = false;
            what += "service type";
        }
        3 => {
            c["services"]["au"]["failureMode"] = json!(rng.pick(&["maybe", "DENY", ""]));
            add = false;
            what += "failure mode";
        }
        4 => {
            c["services"]["rl"]["timeout"] = rng.pick(&[json!("soon"), json!(5), json!(""), json!("5"), json!("-5s"), json!("5 parsecs")]).clone();
            add = false;
            what += "timeout";
        }
        5 => {
            c["services"]["rl"].as_object_mut().unwrap().remove(*rng.pick(&["type", "endpoint"]));
            add = false;
            what += "service without type or endpoint";
        }
        6 => {
            let mut s = json!({"type": "dynamic", "endpoint": "cl", "grpcService": "a.B", "grpcMethod": "C"});
            s.as_object_mut().unwrap().remove(*rng.pick(&["grpcService", "grpcMethod"]));
            c["services"]["dyn"] = s;
            add = false;
            what += "dynamic service without a method";
        }
        7 => {
            set["routeRuleConditions"]["predicates"] = json!(["true", bad]);
            what += "route predicate";
        }
        8 => {
            set["actions"] = json!([deny("DenyResponse { status: 498u }", bad)]);
            what += "action predicate";
        }
        9 => {
            set["actions"] = json!([deny(bad, "true")]);
            what += "denyWith";
        }
        10 => {
            set["actions"] = json!([set_headers(rng.pct(50), bad, "true")]);
            what += "headers";
        }
        11 => {
            set["actions"] = json!([store("p", bad, "true", true)]);
            what += "store value";
        }
        12 => {
            set["actions"] = json!([grpc("rl", bad, json!([]))]);
            what += "messageBuilder";
        }
        13 => {
            set["actions"] = json!([grpc("nobody", "true", json!([]))]);
            what += "unknown service";
        }
        14 => {
            set["actions"] = json!([{"service": "nobody", "scope": "x"}]);
            what += "unknown service of a short action";
        }
        15 => {
            set["actions"] = json!([{"service": "tr", "scope": "x"}]);
            what += "short action on a tracing service";
        }
        16 => {
            set["actions"] = json!([grpc("tr", "true", json!([]))]);
            what += "call of a tracing service";
        }
        17 => {
            let mut a = deny("DenyResponse { status: 498u }", "true");
            a["execution"] = json!("sequential");
            set["actions"] = if rng.pct(50) { json!([grpc("rl", "true", json!([a]))]) } else { json!([grpc("rl", "true", json!([grpc("rl", "true", json!([a]))]))]) };
            what += "execution of a nested action";
        }
        18 => {
            let inner = rng.pick(&[set_headers(true, bad, "true"), deny("DenyResponse{}", bad), grpc("nobody", "true", json!([])), store("p", bad, "true", false)]).clone();
            set["actions"] = if rng.pct(50) { json!([grpc("rl", "true", json!([inner]))]) } else { json!([grpc("rl", "true", json!([grpc("rl", "true", json!([inner]))]))]) };
            what += "nested action";
        }
        19 => {
            let mut a = rng.pick(&[typed(json!({"type": "deny"})), typed(json!({"type": "headers", "headers": "[]"})), typed(json!({"type": "store", "value": "1"})), typed(json!({"type": "fail"})), typed(json!({"type": "other"})), typed(json!({})), json!({"type": "grpc"}), json!({})]).clone();
            if rng.pct(20) {
                a = json!("deny");
            }
            set["actions"] = json!([a]);
            what += "action without what it needs";
        }
        20 => {
            let mut a = deny("DenyResponse{}", "true");
            let (f, v) = rng.pick(&[("execution", json!("sometimes")), ("terminal", json!("yes")), ("isGuard", json!(1)), ("sources", json!("x")), ("predicate", json!(true))]).clone();
            a[f] = v;
            set["actions"] = json!([a]);
            what += "type of a field";
        }
        21 => {
            set["actions"] = json!([{"service": rng.pick(&["rl", "au"]), "scope": "x", "predicates": ["true", *rng.pick(&[bad, "true) || (true", ""])]}]);
            what += "predicate of a short action";
        }
        22 => {
            set["actions"] = json!([{"service": "rl", "scope": "x", "conditionalData": [{"predicates": [], "data": [{"expression": {"key": "k", "value": *rng.pick(&[bad, "'a') + string('b'", "'a', 'b'", ""])}}]}]}]);
            what += "data expression";
        }
        23 => {
            set["actions"] = json!([{"service": "rl", "scope": "x", "conditionalData": [{"predicates": [], "data": [rng.pick(&[json!({"other": {"key": "k", "value": "v"}}), json!({"static": {"key": "k"}}), json!({"expression": "v"}), json!({})]).clone()]}]}]);
            what += "data item";
        }
        24 => {
            let p = *rng.pick(&[bad, "true) && (true", ""]);
            let ps = if rng.pct(50) { json!([p]) } else { json!(["true", p]) };
            set["actions"] = json!([{"service": rng.pick(&["rl", "au"]), "scope": "x", "conditionalData": [{"predicates": ps, "data": [{"static": {"key": "k", "value": "v"}}]}]}]);
            what += "condition of a data block";
        }
        25 => {
            c["requestData"]["metrics.labels.bad"] = json!(bad);
            add = rng.pct(50);
            what += "request data";
        }
        _ => {
            set.as_object_mut().unwrap().remove(*rng.pick(&["name", "routeRuleConditions", "actions"]));
            what += "action set without what it needs";
        }
    }
    if add {
        let sets = c["actionSets"].as_array_mut().unwrap();
        let at = if rng.pct(60) { sets.len() } else { rng.below(sets.len() + 1) };
        sets.insert(at, set);
    }
    let what = format!("{what} ({bad})");
    (c.to_string(), what)
}

struct Live {
    ctx: u32,
    ver: Option<usize>,
    host: &'static str,
    shape: Option<Shape>,
    calls: usize,
    answered: usize,
    /// replied to the client
    ended: bool,
    responded: bool,
    approved: bool,
}

/// What is recorded and exported of a request depends on nothing but the accepted configuration.
fn traces(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let mut w = World::new();
    let ident = rng.pct(85);
    let variant = |rng: &mut Rng| {
        let mut o = json!({});
        if ident {
            o["httpHeaderIdentifier"] = json!("x-id");
        }
        let level = *rng.pick(&["", "OFF", "ERROR", "WARN", "INFO", "INFO", "DEBUG", "TRACE", "info", "other"]);
        if !level.is_empty() {
            o["defaultLevel"] = json!(level);
        }
        if rng.pct(70) {
            o["tracing"] = json!({"service": "tr"});
        }
        o
    };
    let base = json!({
        "services": {"rl": {"type": "ratelimit", "endpoint": "cl", "failureMode": "deny"}, "au": {"type": "auth", "endpoint": "cl"}, "tr": {"type": "tracing", "endpoint": "otel"}},
        "actionSets": [{"name": "s", "routeRuleConditions": {"hostnames": ["a.com"]}, "actions": [
            set_headers(false, "[['x-a', '1']]", "true"),
            store("p", "'v'", "true", true),
            {"type": "grpc", "service": "rl", "var": "r", "predicate": "true", "terminal": false, "messageBuilder": "envoy.service.ratelimit.v3.RateLimitRequest { domain: 'd' }", "onReply": [set_headers(true, "[['x-b', '1']]", "true")]},
        ]}],
    });
    let cfgs: Vec<J> = (0..rng.range(1, 3))
        .map(|_| {
            let mut c = base.clone();
            c["observability"] = variant(rng);
            c
        })
        .collect();
    let mut shown = String::new();
    let mut known: Vec<Option<Vec<String>>> = vec![None; cfgs.len()];
    let mut cur = 0;
    let mut spoilt = false;
    let n = rng.range(4, 12);
    for step in 0..n {
        if step == 0 || rng.pct(30) {
            cur = rng.below(cfgs.len());
            shown += &format!("\naccepted: {}", cfgs[cur]);
            if !w.configure(&cfgs[cur].to_string()) {
                return Err(fail("config-rejected", "a correct configuration was rejected".into(), &shown, 0));
            }
            spoilt = false;
        }
        if rng.pct(40) {
            let mut b = base.clone();
            b["observability"] = variant(rng);
            let (text, what) = spoil(rng, &b);
            shown += &format!("\nrejected ({what}): {text}");
            if w.configure(&text) {
                return Err(fail("bad-config-accepted", format!("a configuration with a faulty {what} was accepted"), &shown, 0));
            }
            spoilt = true;
        }
        // the first takes away what is left of others
        for pass in 0..2 {
            let mark = World::mark();
            let trace = format!("{:032x}", (rng.next() as u128) << 64 | rng.next() as u128 | 1);
            let mut st = stream("a.com", &[("x-request-id".into(), "rid".into()), ("traceparent".into(), format!("00-{trace}-b7ad6b7169203331-01"))]);
            full(&mut st);
            let ctx = w.new_stream(st);
            w.request_headers(ctx, true);
            for t in w.outstanding(ctx) {
                w.grpc_reply(t, 0, Some(pb::rl_response(1, &[])));
            }
            respond(ctx, vec![(":status".into(), "200".into())]);
            w.response_headers(ctx, true);
            for t in w.outstanding(ctx) {
                w.grpc_reply(t, 0, Some(vec![]));
            }
            w.log_done(ctx);
            w.destroy(ctx);
            let s = seen(mark);
            if let Some(p) = s.panics.first() {
                return Err(fail("panic", p.clone(), &shown, mark));
            }
            let mut got: Vec<String> = vec![];
            for (_, c) in s.calls.iter().filter(|(_, c)| c.service == super::tracing::EXPORT) {
                got.push("export".into());
                got.extend(super::tracing::spans(&c.message).unwrap_or_default().into_iter().filter(|x| x.trace == trace).map(|x| x.name));
            }
            cov.events += 1;
            if pass == 0 {
                continue;
            }
            match &known[cur] {
                Some(k) if *k != got => {
                    return Err(fail("traces", format!("a request recorded as {k:?} under this configuration is now recorded as {got:?}"), &shown, mark));
                }
                _ => known[cur] = Some(got.clone()),
            }
            cov.state(if got.is_empty() { "untraced" } else { "traced" });
            if spoilt {
                cov.state("traces_after_rejected");
            }
            cov.distinct(&format!("traces {got:?} {spoilt} {cur}"));
        }
    }
    Ok(())
}

fn g15(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    if rng.pct(20) {
        return traces(rng, cov);
    }
    let mut w = World::new();
    let mut vers: Vec<Ver> = vec![];
    let mut cur: Option<usize> = None;
    let mut live: Vec<Live> = vec![];
    let mut shown = String::new();
    let mut good: Option<J> = None;
    let mut texts: Vec<(String, Option<usize>)> = vec![];
    let steps = rng.range(8, 26);
    for step in 0..steps {
        let mark = World::mark();
        let dice = if cur.is_none() && step > 1 { 0 } else { rng.below(100) };
        if dice < 25 {
            // a configuration arrives
            if !texts.is_empty() && rng.pct(30) {
                // one that was received before, more often than not the last
                let (text, ver) = if rng.pct(60) { texts.last().unwrap().clone() } else { rng.pick(&texts).clone() };
                shown += &format!("\nagain, {}: {text}", ver.map_or("rejected".into(), |k| format!("v{k}")));
                match (w.configure(&text), ver) {
                    (true, None) => return Err(fail("bad-config-accepted", "a configuration that was rejected is accepted when it comes again".into(), &shown, mark)),
                    (false, Some(_)) => return Err(fail("config-rejected", "a configuration that was accepted is rejected when it comes again".into(), &shown, mark)),
                    (true, Some(k)) => {
                        if cur != Some(k) {
                            cov.state("back_to_an_earlier");
                        }
                        cur = Some(k);
                    }
                    (false, None) => cov.state("rejected_again"),
                }
            } else if good.is_some() && rng.pct(45) {
                let base = if rng.pct(50) { good.clone().unwrap() } else { draw(rng, 90, &mut Cov::default()).1 };
                let (text, what) = spoil(rng, &base);
                shown += &format!("\nrejected ({what}): {text}");
                cov.state("rejected");
                if w.configure(&text) {
                    return Err(fail("bad-config-accepted", format!("a configuration with a faulty {what} was accepted"), &shown, mark));
                }
                texts.push((text, None));
            } else if good.is_some() && rng.pct(8) {
                // the host has none to give
                let status = rng.pct(50);
                sim::with(|h| {
                    h.plugin_config = None;
                    h.faults = Some(Box::new(move |_, k, what| (status && k == Kind::GetBuffer && what == "PluginConfiguration").then_some(Status::InternalFailure)))
                });
                cov.state("no_config");
                let ok = w.configure_without();
                sim::with(|h| h.faults = None);
                if ok {
                    return Err(fail("bad-config-accepted", "accepted although the host has no configuration".into(), &shown, mark));
                }
            } else {
                let k = vers.len();
                let (v, j) = draw(rng, k, cov);
                shown += &format!("\nv{k}: {}", v.text);
                if !w.configure(&v.text) {
                    return Err(fail("config-rejected", format!("v{k} was rejected"), &shown, mark));
                }
                if live.iter().any(|l| !l.responded && !l.ended) {
                    cov.state("reload_in_flight");
                }
                cur = Some(k);
                texts.push((v.text.clone(), Some(k)));
                vers.push(v);
                good = Some(j);
                cov.state("accepted");
            }
            let s = seen(mark);
            if let Some(p) = s.panics.first() {
                return Err(fail("panic", p.clone(), &shown, mark));
            }
            if !s.calls.is_empty() || !s.replies.is_empty() || !s.maps.is_empty() {
                return Err(fail("config-effect", format!("receiving a configuration touched requests: {:?}", s.trace), &shown, mark));
            }
            continue;
        }
        if dice < 55 || live.is_empty() {
            // a request arrives
            let host = *rng.pick(&["a.com", "b.com", "c.com", "x.c.com", "y.c.com", "z.org"]);
            let mut st = stream(host, &[("x-request-id".into(), format!("rid{step}"))]);
            prop(&mut st, "request.id", format!("rid{step}").as_bytes());
            full(&mut st);
            let ver = cur;
            let ctx = w.new_stream(st);
            w.request_headers(ctx, true);
            let s = seen(mark);
            if let Some(p) = s.panics.first() {
                return Err(fail("panic", p.clone(), &shown, mark));
            }
            let v = ver.map(|k| &vers[k]);
            let entry = v.and_then(|v| match host {
                "a.com" | "b.com" => v.sets.get(host).copied(),
                "c.com" => v.sets.get("c.com").copied(),
                "x.c.com" => v.sets.get("x.c.com").or_else(|| v.sets.get("*.c.com")).copied(),
                "y.c.com" => v.sets.get("*.c.com").copied(),
                _ => None,
            });
            // a route predicate on a header that is not there can't be evaluated
            let want_calls: Vec<(String, Option<String>)> = match entry {
                Some(Shape::Typed | Shape::Nested | Shape::Ratelimit) => vec![("envoy.service.ratelimit.v3.RateLimitService".into(), v.map(|v| format!("v{}", v.k)))],
                Some(Shape::Auth) => vec![("envoy.service.auth.v3.Authorization".into(), None)],
                _ => vec![],
            };
            let got: Vec<(String, Option<String>)> = s
                .calls
                .iter()
                .map(|(_, c)| (c.service.clone(), c.service.contains("ratelimit").then(|| pb::get_str(&pb::dec(&c.message).unwrap_or_default(), 1))))
                .collect();
            if got != want_calls {
                return Err(fail("governed-by", format!("{host} under {ver:?} as {entry:?}: calls {got:?}, expected {want_calls:?}"), &shown, mark));
            }
            for (_, c) in &s.calls {
                check_call(c, v.unwrap(), entry.unwrap()).map_err(|d| fail("call-config", d, &shown, mark))?;
            }
            let reply = match entry {
                Some(Shape::Deny) => Some((400 + ver.unwrap() as u32, Some(format!("v{}", ver.unwrap())))),
                Some(Shape::Closed) => Some((500, None)),
                _ => None,
            };
            check_reply(&s, reply.clone(), v, step, entry == Some(Shape::Closed)).map_err(|d| fail("reply-config", format!("{host} under {ver:?} as {entry:?}: {d}"), &shown, mark))?;
            // exports show the version and only what was asked to be exported
            let exports: Vec<(String, String)> = s.exports.iter().map(|(p, b)| (p.clone(), String::from_utf8_lossy(b).into_owned())).collect();
            let exported = exports.iter().any(|(p, b)| p == "kuadrant.ver" && v.is_some_and(|v| b.ends_with(&format!("v{}", v.k))));
            if (entry == Some(Shape::Typed)) != exported || exports.len() != exported as usize {
                return Err(fail("export-config", format!("{host} under {ver:?} as {entry:?}: exported {exports:?}"), &shown, mark));
            }
            cov.state(match entry {
                None => "ungoverned",
                Some(Shape::Typed) => "typed",
                Some(Shape::Nested) => "nested",
                Some(Shape::Deny) => "denied",
                Some(Shape::Ratelimit) => "ratelimit",
                Some(Shape::Auth) => "auth",
                Some(Shape::Empty) => "no_actions",
                Some(Shape::Closed) => "route_error",
            });
            live.push(Live { ctx, ver, host, shape: entry, calls: s.calls.len(), answered: 0, ended: reply.is_some(), responded: false, approved: false });
            cov.events += 1;
            continue;
        }
        // an event for one that is under way
        let i = rng.below(live.len());
        let l = &mut live[i];
        let v = l.ver.map(|k| vers[k].clone());
        let stale = l.ver != cur;
        if stale {
            cov.state("event_after_reload");
        }
        let open = w.outstanding(l.ctx);
        if let Some(t) = open.first().copied() {
            let v = v.unwrap();
            let dice = rng.below(4);
            let body = match (l.shape, dice) {
                (_, 0) => None,
                (Some(Shape::Auth), 1) => Some(pb::enc(&[pb::sub(1, &[pb::int(1, 7)]), pb::sub(2, &[pb::sub(1, &[pb::int(1, 401)]), pb::s(3, "no")])])),
                (Some(Shape::Auth), _) => Some(pb::enc(&[pb::sub(1, &[pb::int(1, 0)]), pb::sub(3, &[])])),
                (_, 1) => Some(pb::rl_response(2, &[])),
                _ => Some(pb::rl_response(1, &[])),
            };
            w.grpc_reply(t, if body.is_none() { 14 } else { 0 }, body.clone());
            l.answered += 1;
            let s = seen(mark);
            if let Some(p) = s.panics.first() {
                return Err(fail("panic", p.clone(), &shown, mark));
            }
            let mut more = 0;
            let reply = match (l.shape.unwrap(), &body) {
                (_, None) => {
                    cov.state(if v.deny { "failure_denied" } else { "failure_allowed" });
                    v.deny.then_some((500, None))
                }
                (Shape::Auth, Some(_)) if dice == 1 => Some((401, Some("no".to_string()))),
                (Shape::Auth, Some(_)) => None,
                (Shape::Typed, Some(_)) if dice == 1 => Some((400 + v.k as u32, Some(format!("v{}", v.k)))),
                (Shape::Ratelimit, Some(_)) if dice == 1 => Some((429, Some("Too Many Requests\n".into()))),
                (Shape::Nested, Some(_)) if l.answered == 1 => {
                    more = 1;
                    None
                }
                (Shape::Nested, Some(_)) if dice == 1 => None,
                _ => {
                    l.approved = matches!(l.shape, Some(Shape::Typed | Shape::Nested));
                    None
                }
            };
            if s.calls.len() != more {
                return Err(fail("nested-call", format!("{} under {:?}: {} calls after the answer, expected {more}", l.host, l.ver, s.calls.len()), &shown, mark));
            }
            for (_, c) in &s.calls {
                check_call(c, &v, Shape::Nested).map_err(|d| fail("call-config", d, &shown, mark))?;
            }
            l.calls += more;
            check_reply(&s, reply.clone(), Some(&v), usize::MAX, false).map_err(|d| fail("reply-config", format!("{} under {:?}: {d}", l.host, l.ver), &shown, mark))?;
            l.ended |= reply.is_some();
        } else if !l.ended && !l.responded {
            respond(l.ctx, vec![(":status".into(), "200".into())]);
            w.response_headers(l.ctx, true);
            l.responded = true;
            let s = seen(mark);
            if let Some(p) = s.panics.first() {
                return Err(fail("panic", p.clone(), &shown, mark));
            }
            let hs = resp_headers(l.ctx);
            let mut want: Vec<(String, String)> = vec![(":status".into(), "200".into())];
            if let Some(v) = &v {
                let tag = format!("v{}", v.k);
                if l.approved {
                    want.push(("x-reply".into(), tag.clone()));
                }
                if l.shape == Some(Shape::Typed) {
                    want.push(("x-late".into(), tag));
                }
            }
            let mut got: Vec<(String, String)> = hs.iter().filter(|(k, _)| !k.starts_with("x-id-")).cloned().collect();
            got.sort();
            want.sort();
            let ids: Vec<&String> = hs.iter().map(|(k, _)| k).filter(|k| k.starts_with("x-id-")).collect();
            // hosts nothing is declared for carry no tracker
            let track: Vec<&String> = v.iter().filter(|_| l.shape.is_some()).filter_map(|v| v.tracker.as_ref()).collect();
            if got != want || ids != track {
                return Err(fail("response-config", format!("{} under {:?} as {:?}: response headers {hs:?}, expected {want:?} and {track:?}", l.host, l.ver, l.shape), &shown, mark));
            }
            cov.state("response");
        } else {
            w.log_done(l.ctx);
            let ctx = l.ctx;
            live.remove(i);
            w.destroy(ctx);
            if let Some(p) = seen(mark).panics.first() {
                return Err(fail("panic", p.clone(), &shown, mark));
            }
        }
        cov.events += 1;
    }
    cov.distinct(&format!("{:?}", World::since(0).iter().map(|r| std::mem::discriminant(&r.ev)).collect::<Vec<_>>()));
    cov.sample(shown.chars().take(300).collect::<String>());
    Ok(())
}

fn check_call(c: &Call, v: &Ver, shape: Shape) -> Result<(), String> {
    let tag = format!("v{}", v.k);
    if c.upstream != format!("cl-{tag}") {
        return Err(format!("{tag}: call to {}", c.upstream));
    }
    if c.timeout.as_micros() as u64 != v.timeout_us {
        return Err(format!("{tag}: timeout {:?}, expected {}us", c.timeout, v.timeout_us));
    }
    let m = pb::dec(&c.message).ok_or("message not decodable")?;
    if shape == Shape::Ratelimit {
        let ds: Vec<Vec<(String, String)>> = pb::all_msgs(&m, 2).iter().map(|d| pb::all_msgs(d, 1).iter().map(|e| (pb::get_str(e, 1), pb::get_str(e, 2))).collect()).collect();
        let mut want = vec![vec![("kv".to_string(), tag.clone())]];
        if v.request_data {
            want.push(vec![("who".to_string(), tag.clone())]);
        }
        if ds != want {
            return Err(format!("{tag}: descriptors {ds:?}, expected {want:?}"));
        }
    }
    if shape == Shape::Auth {
        let text = String::from_utf8_lossy(&c.message);
        let tags = ["v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9"];
        if !text.contains(&tag) || tags.iter().take(10).any(|t| *t != tag && !tag.starts_with(t) && text.contains(t)) {
            return Err(format!("{tag}: check message {text:?}"));
        }
    }
    Ok(())
}

fn check_reply(s: &Seen, want: Option<(u32, Option<String>)>, v: Option<&Ver>, _step: usize, at_build: bool) -> Result<(), String> {
    let got: Vec<(u32, String)> = s.replies.iter().map(|(c, _, b)| (*c, String::from_utf8_lossy(b.as_deref().unwrap_or_default()).into_owned())).collect();
    let exp: Vec<(u32, String)> = want.iter().map(|(c, b)| (*c, b.clone().unwrap_or_else(|| "Internal Server Error.\n".into()))).collect();
    if got != exp {
        return Err(format!("replies {got:?}, expected {exp:?}"));
    }
    if let (Some((_, hs, _)), Some(v)) = (s.replies.first(), v) {
        let ids: Vec<&String> = hs.iter().map(|(k, _)| k).filter(|k| k.starts_with("x-id-")).collect();
        let track: Vec<&String> = v.tracker.iter().collect();
        if !at_build && ids != track {
            return Err(format!("tracking headers {ids:?}, expected {track:?}"));
        }
    }
    Ok(())
}

pub static G15: Prop = Prop {
    id: "G15",
    level: "exploration",
    rule: "a case counts as distinct by the sequence of kinds of events at the module's boundary over its configurations, requests and answers",
    quick: 5000,
    thorough: 220000,
    case: g15,
    probes: &[],
    need: &[
        "accepted", "rejected", "no_config", "reload_in_flight", "event_after_reload", "typed", "nested", "denied", "ratelimit", "auth", "ungoverned", "no_actions", "route_error", "default_failure_mode",
        "default_timeout", "failure_denied", "failure_allowed", "response", "back_to_an_earlier", "rejected_again", "traced", "untraced", "traces_after_rejected",
    ],
    assumptions: super::pipeline::ASSUME,
};
