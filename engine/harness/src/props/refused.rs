//! G04, where the reply of a denial can't be sent: the host refuses it, or it has no status
//! a proxy could send. The request is denied all the same, with the standard reply.
use super::kit::*;
use crate::pb;
use crate::prop::*;
use crate::rng::Rng;
use crate::world::World;
use proxy_wasm::sim::{self, Kind};
use proxy_wasm::types::Status;
use serde_json::json;

pub fn case(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let kind = rng.below(6);
    let huge = kind < 3 && rng.pct(30);
    let refusals = if huge { rng.below(2) } else { rng.range(1, 2) };
    let status: u64 = if huge { *rng.pick(&[4294967496u64, 4294967699, u64::MAX, 1 << 32, 1 << 40]) } else { rng.range(400, 599) as u64 };
    let reply = format!("DenyResponse {{ status: {status}u, headers: [['x-why', 'no']], body: 'no' }}");
    let mode = if rng.pct(50) { "deny" } else { "allow" };
    let denying = match kind {
        0 => deny(&reply, "true"),
        1 => call("rl", "r", "'d'", vec![deny(&reply, "r.overall_code == 2"), set_headers(false, "[['x-under', '1']]", "r.overall_code == 1")]),
        2 => deny(&reply, "st.q == 1"),
        3 => json!({"service": "rl", "scope": "x"}),
        4 => json!({"service": "au", "scope": "x"}),
        _ => json!({"type": "fail", "predicate": "true", "terminal": true, "logMessage": "no"}),
    };
    let mut actions = vec![];
    if kind == 2 {
        actions.push(store("st.q", "requestBodyJSON('/a')", "true", false));
    }
    actions.push(denying);
    for i in 0..rng.below(3) {
        actions.push(match rng.below(3) {
            0 => set_headers(rng.pct(50), &format!("[['x-{i}', 'v']]"), "true"),
            1 => call("late", "l", "'d'", vec![]),
            _ => store(&format!("s{i}"), "'v'", "true", true),
        });
    }
    let tracker = rng.pct(50);
    let mut cfg = json!({"services": {"rl": svc("ratelimit", "rl", mode), "au": svc("auth", "au", mode), "late": svc("ratelimit", "late", "allow")},
        "actionSets": [aset("s", "h.test", actions)]});
    if tracker {
        cfg["observability"] = json!({"httpHeaderIdentifier": "x-track"});
    }
    let text = cfg.to_string();
    let mut w = World::new();
    if !w.configure(&text) {
        return Err(Violation::new("config-rejected", "a valid configuration was rejected").cfg(&text));
    }
    let mut s = stream("h.test", &[("x-request-id".to_string(), "req-1".to_string())]);
    full(&mut s);
    prop(&mut s, "request.id", b"req-1");
    let why = *rng.pick(&[Status::BadArgument, Status::InternalFailure, Status::NotFound]);
    let ctx = w.new_stream(s);
    let mark = World::mark();
    let mut left = refusals;
    sim::with(|h| {
        h.faults = Some(Box::new(move |_, k, _| {
            if k == Kind::SendReply && left > 0 {
                left -= 1;
                return Some(why);
            }
            None
        }))
    });
    w.request_headers(ctx, kind != 2);
    let answer = |t: u32, up: &str| match up {
        "au" => (t, pb::enc(&vec![pb::sub(2, &[pb::sub(1, &[pb::int(1, 401)]), pb::s(3, "no")])])),
        "late" => (t, pb::rl_response(1, &[])),
        _ => (t, pb::rl_response(2, &[("x-why".into(), "no".into())])),
    };
    let mut calls: Vec<(u32, String)> = seen(mark).calls.into_iter().map(|(t, c)| (t, c.upstream)).collect();
    rng.shuffle(&mut calls);
    for (t, up) in calls {
        let (t, b) = answer(t, &up);
        w.grpc_reply(t, 0, Some(b));
    }
    if kind == 2 {
        buffer(ctx, false, Some(b"{\"a\":1}".to_vec()));
        w.request_body(ctx, 7, true);
    }
    let s = seen(mark);
    if let Some(p) = s.panics.first() {
        return Err(fail("panic", p.clone(), &text, mark));
    }
    // what happens from the denial on
    let tr = &s.trace;
    let standard = |h: &[(String, String)], st: u32, b: &Option<Vec<u8>>| {
        let mut want: Vec<(String, String)> = vec![];
        if tracker {
            want.push(("x-track".into(), "req-1".into()));
        }
        st == 500 && b.as_deref() == Some(&b"Internal Server Error.\n"[..]) && h == want.as_slice()
    };
    // the fail action answers with the standard reply at once: nothing stands in for it
    let replaced = if kind == 5 { refusals < 1 } else { refusals <= usize::from(!huge) };
    let denied: i64 = s.metrics.iter().filter(|(n, _)| n == "kuadrant.denied").map(|m| m.1).sum();
    if replaced {
        if s.replies.len() != 1 || !standard(&s.replies[0].1, s.replies[0].0, &s.replies[0].2) {
            return Err(fail("denial-lost", format!("the reply of a denial could not be sent, and the standard one was not sent in its place: {:?}", s.replies), &text, mark));
        }
        if denied != 1 {
            return Err(fail("denial-count", format!("one denied request counted {denied} times"), &text, mark));
        }
        if s.resumed.0 > 0 && kind != 2 {
            return Err(fail("denial-resumed", "a denied request was resumed".into(), &text, mark));
        }
        let at = tr.iter().position(|e| e.starts_with("local reply ")).unwrap_or(0);
        if let Some(e) = tr[at..].iter().find(|e| e.starts_with("dispatch ") || e.starts_with("SetMap") || e.starts_with("SetProp")) {
            return Err(fail("effect-after-denial", format!("after the request was denied: {e}"), &text, mark));
        }
        cov.state(if huge { "unsendable_status" } else { "refused_reply_replaced" });
    } else {
        if !s.replies.is_empty() {
            return Err(fail("reply-after-refusals", format!("{:?}", s.replies), &text, mark));
        }
        if denied != 0 {
            return Err(fail("denial-count", format!("no reply was accepted, {denied} requests counted as denied"), &text, mark));
        }
        cov.state("refused_reply_final");
    }
    w.destroy(ctx);
    cov.events += s.trace.len() as u64;
    cov.distinct(&format!("refused|{kind}|{refusals}|{huge}|{tracker}|{}", s.calls.len()));
    Ok(())
}
