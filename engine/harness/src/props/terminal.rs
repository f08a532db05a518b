//! G26: what comes after an action marked terminal is never evaluated.
use super::kit::*;
use crate::pb;
use crate::prop::*;
use crate::rng::Rng;
use crate::world::World;
use proxy_wasm::types::MapType;
use serde_json::{json, Value as J};

/// when an action is evaluated: at the request headers, at the reply of the call around it,
/// at the request body, at the response headers, at the response body
const AT_ONCE: usize = 0;
const REPLY: usize = 1;
const REQ_BODY: usize = 2;
const RESP: usize = 3;
const RESP_BODY: usize = 4;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mark {
    Call,
    Req,
    Resp,
    Export,
    Deny,
    Fail,
    /// nothing to be seen from outside
    Nothing,
}

struct Watched {
    name: String,
    mark: Mark,
    phase: usize,
}

/// An action that leaves a mark of its own.
fn marking(rng: &mut Rng, name: &str, base: usize, final_ones: bool) -> (J, Watched) {
    // what is over by then can't be read or changed any more
    let kind = match (rng.below(if final_ones { 8 } else { 7 }), base) {
        (3, RESP..) => 4,
        (5, RESP) => 6,
        (5 | 6, RESP_BODY) => 4,
        (k, _) => k,
    };
    let (mark, phase, mut a) = match kind {
        0 => (Mark::Call, base, {
            let mut c = call("after", &format!("v{name}"), &format!("'{name}'"), vec![]);
            c["isGuard"] = json!(rng.pct(50));
            c
        }),
        1 | 2 => (Mark::Export, base, store(&format!("m.{name}"), &format!("'{name}'"), "true", true)),
        3 => (Mark::Export, base.max(REQ_BODY), store(&format!("m.{name}"), "requestBodyJSON('/a')", "true", true)),
        4 => (Mark::Export, base.max(RESP_BODY), store(&format!("m.{name}"), "responseBodyJSON('/a')", "true", true)),
        5 => (Mark::Req, base, set_headers(false, &format!("[['x-{name}', '1']]"), "true")),
        6 => (Mark::Resp, base.max(RESP), set_headers(true, &format!("[['x-{name}', '1']]"), "true")),
        _ => (Mark::Deny, base, deny("DenyResponse { status: 418u, body: 'after' }", "true")),
    };
    if rng.pct(40) {
        let p = *rng.pick(&["request.method == 'GET'", "!false", "'x'.size() == 1", "request.headers['x-y'] == 'yes'"]);
        a["predicate"] = json!(p);
    }
    (a, Watched { name: name.into(), mark, phase })
}

/// The places, in the order of events, where an action left its mark.
fn marks(s: &Seen, w: &Watched) -> Vec<usize> {
    let mut at = vec![];
    let (mut calls, mut maps, mut exports, mut replies) = (0, 0, 0, 0);
    let mut before = (false, false);
    for (i, t) in s.trace.iter().enumerate() {
        if t.starts_with("dispatch token=") {
            let (_, c) = &s.calls[calls];
            calls += 1;
            if w.mark == Mark::Call && c.upstream == "after" && c.message == pb::enc(&[pb::s(1, &w.name)]) {
                at.push(i);
            }
        } else if t.starts_with("SetMap") {
            let (ty, m) = &s.maps[maps];
            maps += 1;
            let response = *ty == MapType::HttpResponseHeaders;
            let has = m.iter().any(|(k, _)| *k == format!("x-{}", w.name));
            let had = if response { &mut before.1 } else { &mut before.0 };
            if has && !*had && (w.mark == if response { Mark::Resp } else { Mark::Req }) {
                at.push(i);
            }
            *had = has;
        } else if t.starts_with("SetProp") {
            let (n, _) = &s.exports[exports];
            exports += 1;
            if w.mark == Mark::Export && *n == format!("kuadrant.m.{}", w.name) {
                at.push(i);
            }
        } else if t.starts_with("local reply ") {
            let (st, _, b) = &s.replies[replies];
            replies += 1;
            let own = match w.mark {
                Mark::Deny => b.as_deref() == Some(if w.name == "t" { b"no" } else { b"after" }) && (*st == 403 || *st == 418),
                Mark::Fail => *st == 500,
                _ => false,
            };
            if own {
                at.push(i);
            }
        }
    }
    at
}

fn case(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let nested = rng.pct(40);
    let base = if nested { REPLY } else { AT_ONCE };
    let holds = rng.pct(65);
    let flag = rng.pct(75);
    let pred = if holds { *rng.pick(&["true", "request.method == 'GET'", "request.headers['x-y'] == 'yes'"]) } else { *rng.pick(&["false", "request.method == 'PUT'", "request.headers['x-y'] == 'no'"]) };
    let kind = rng.below(8);
    let (mark, phase, mut t) = match kind {
        0 => (Mark::Deny, base, deny("DenyResponse { status: 403u, body: 'no' }", pred)),
        1 => (Mark::Fail, base, json!({"type": "fail", "predicate": pred, "logMessage": "no"})),
        2 => (Mark::Req, base, set_headers(false, "[['x-t', '1']]", pred)),
        3 => (Mark::Resp, base.max(RESP), set_headers(true, "[['x-t', '1']]", pred)),
        4 => (Mark::Export, base.max(REQ_BODY), store("m.t", "requestBodyJSON('/a')", pred, true)),
        5 => (Mark::Export, base.max(RESP_BODY), store("m.t", "responseBodyJSON('/a')", pred, true)),
        6 => (Mark::Export, base, store("m.t", "'t'", pred, true)),
        _ => (Mark::Nothing, base, match rng.below(4) {
            0 => set_headers(rng.pct(40), *rng.pick(&["[]", "[['x-t', '1']].filter(x, false)", "'t'", "{'x-t': '1'}"]), pred),
            1 if base < RESP => set_headers(false, "[['x-y', 'yes']]", pred),
            2 => store("m.t", "null", pred, false),
            _ => store("m.t", "'t'", pred, false),
        }),
    };
    // a denial is the end whatever it says
    let flag = flag || mark == Mark::Deny;
    t["terminal"] = json!(flag);
    let active = flag && holds;
    let seq = !nested && rng.pct(35);
    if seq {
        t["execution"] = json!("sequential");
    }
    // only store actions wait for the fields of their value before they look at the predicate
    let phase_seen = if holds || matches!(kind, 4 | 5) { phase } else { base };
    let mut watched = vec![];
    let mut actions = vec![];
    for i in 0..rng.below(3) {
        actions.push(marking(rng, &format!("b{i}"), AT_ONCE, false).0);
    }
    // before any sequential action, what is ahead of it completes
    let ahead_waits = |a: &[J]| a.iter().any(|x| x.to_string().contains("BodyJSON") || x["target"] == "response");
    let mut forced = AT_ONCE;
    if seq && ahead_waits(&actions) {
        actions.clear();
    }
    if nested {
        let mut on = vec![];
        for i in 0..rng.below(2) {
            on.push(marking(rng, &format!("n{i}"), REPLY, false).0);
        }
        on.push(t);
        for i in 0..rng.range(1, 3) {
            let (a, w) = marking(rng, &format!("s{i}"), REPLY, false);
            on.push(a);
            watched.push(w);
        }
        actions.push(call("first", "f", "'f'", on));
        cov.state("nested");
    } else {
        if seq {
            forced = phase_seen;
        }
        actions.push(t);
    }
    let n = rng.range(if nested { 0 } else { 1 }, 4);
    for i in 0..n {
        let ends = i + 1 == n && !nested && rng.pct(30);
        let (a, w) = marking(rng, &format!("a{i}"), forced, ends);
        let stop = w.mark == Mark::Deny;
        actions.push(a);
        watched.push(w);
        if stop {
            break;
        }
    }
    let mut cfg = json!({"services": {"first": svc("ratelimit", "first", "deny"), "after": svc("ratelimit", "after", "allow")}, "actionSets": [aset("s", "h.test", actions)]});
    if rng.pct(25) {
        cfg["services"]["otel"] = svc("tracing", "otel", "allow");
        cfg["observability"] = json!({"httpHeaderIdentifier": "x-request-id", "defaultLevel": *rng.pick(&["ERROR", "INFO", "DEBUG"]), "tracing": {"service": "otel"}});
        cov.state("traced");
    }
    let cfg = cfg.to_string();
    let mut w = World::new();
    if !w.configure(&cfg) {
        return Err(Violation::new("config-rejected", "a valid configuration was rejected").cfg(&cfg));
    }
    let ctx = w.new_stream(stream("h.test", &[("x-y".to_string(), "yes".to_string())]));
    let mark0 = World::mark();
    let answer = |w: &mut World, rng: &mut Rng| {
        for _ in 0..20 {
            let mut open = w.outstanding(ctx);
            if open.is_empty() {
                break;
            }
            rng.shuffle(&mut open);
            w.grpc_reply(open[0], 0, Some(pb::rl_response(1, &[])));
        }
    };
    let replied = |m: usize| !seen(m).replies.is_empty();
    w.request_headers(ctx, false);
    answer(&mut w, rng);
    if !replied(mark0) {
        buffer(ctx, false, Some(b"{\"a\":1}".to_vec()));
        w.request_body(ctx, 7, true);
        answer(&mut w, rng);
    }
    let cut = replied(mark0);
    // the proxy's own reply passes through the filter as well
    if !cut || rng.pct(60) {
        respond(ctx, vec![(":status".into(), if cut { "500" } else { "200" }.into()), ("content-type".into(), "application/json".into())]);
        w.response_headers(ctx, false);
        answer(&mut w, rng);
        if !replied(mark0) || cut {
            buffer(ctx, true, Some(b"{\"a\":2}".to_vec()));
            w.response_body(ctx, 7, true);
            answer(&mut w, rng);
        }
    }
    w.log_done(ctx);
    let s = seen(mark0);
    if let Some(p) = s.panics.first() {
        return Err(fail("panic", p.clone(), &cfg, mark0));
    }
    cov.events += s.trace.len() as u64;
    let me = Watched { name: "t".into(), mark, phase };
    // a fail action that isn't terminal leaves no mark
    let silent = mark == Mark::Fail && !flag || mark == Mark::Nothing;
    let own = marks(&s, &me);
    let stopped_by_other = watched.iter().any(|x| x.mark == Mark::Deny && (x.phase < phase_seen || !active));
    if own.len() != usize::from(holds && !silent) && !(stopped_by_other || mark == Mark::Fail && !active) {
        return Err(fail("terminal-action", format!("the action {kind} (holds: {holds}, terminal: {flag}) took effect {} times", own.len()), &cfg, mark0));
    }
    if active && !stopped_by_other {
        cov.state(["deny", "fail", "request_headers", "response_headers", "store_from_request", "store_from_response", "store", "no_effect_of_its_own"][kind]);
        // what was evaluated while the reply around the action was still out stands
        let end = own.first().copied().unwrap_or(usize::MAX);
        for x in &watched {
            let at = marks(&s, x);
            // what stood in the queue before the terminal action got what it needed has run
            if x.phase < phase {
                if at.len() != 1 {
                    return Err(fail("ran-ahead", format!("{} ({:?}), which doesn't have to wait, took effect {} times", x.name, x.mark, at.len()), &cfg, mark0));
                }
                cov.state("ran_ahead");
            } else if !at.is_empty() && !(nested && x.name.starts_with('a') && at[0] < end) {
                return Err(fail("ran-after-terminal", format!("{} ({:?}) ran after the terminal action {kind} had", x.name, x.mark), &cfg, mark0));
            } else {
                cov.state("kept_from_running");
            }
        }
        if matches!(mark, Mark::Deny | Mark::Fail) && s.replies.len() != 1 {
            return Err(fail("terminal-reply", format!("{} replies", s.replies.len()), &cfg, mark0));
        }
    } else if !active && !stopped_by_other {
        cov.state(if holds { "not_terminal" } else { "does_not_hold" });
        for x in &watched {
            let at = marks(&s, x);
            if at.len() != 1 {
                return Err(fail("not-run", format!("{} ({:?}) comes after an action that ends nothing (holds: {holds}, terminal: {flag}), and took effect {} times", x.name, x.mark, at.len()), &cfg, mark0));
            }
        }
    } else if !active {
        // the reply of a later action: it was evaluated
        cov.state("later_reply");
        if s.replies.len() != 1 {
            return Err(fail("not-run", format!("a later action calls for a reply, got {:?}", s.replies), &cfg, mark0));
        }
    }
    w.destroy(ctx);
    cov.distinct(&format!("{nested}{holds}{flag}{seq}{kind}|{}", watched.iter().map(|x| format!("{:?}{}", x.mark, x.phase)).collect::<String>()));
    Ok(())
}

pub static G26: Prop = Prop {
    id: "G26",
    level: "exploration",
    rule: "a case counts as distinct by the kind and place of the action under test, whether it holds, is terminal, is sequential, and the kinds and phases of the actions after it",
    quick: 12000,
    thorough: 300000,
    case,
    probes: &[("terminal-call", super::findings::terminal_call)],
    need: &["deny", "fail", "request_headers", "response_headers", "store_from_request", "store_from_response", "store", "no_effect_of_its_own", "traced", "nested", "ran_ahead", "kept_from_running", "not_terminal", "does_not_hold", "later_reply"],
    assumptions: super::pipeline::ASSUME,
};
