//! Fixed scenarios for the defects listed in known_findings.json. Each says what it saw when
//! that is not what the property asks for.
use super::kit::*;
use crate::world::World;
use serde_json::{json, Value as J};

/// Runs one request with these bodies under these actions; what the client and services saw.
fn run(actions: Vec<J>, request: Option<&str>, response: Option<&str>, answer: Option<(u32, Vec<u8>)>) -> Result<String, String> {
    let cfg = json!({"services": {"rl": svc("ratelimit", "rl", "deny"), "au": svc("auth", "au", "deny")},
        "actionSets": [aset("s", "h.test", actions)]});
    let mut w = World::new();
    if !w.configure(&cfg.to_string()) {
        return Err("configuration rejected".into());
    }
    let mut s = stream("h.test", &[]);
    full(&mut s);
    let ctx = w.new_stream(s);
    let mark = World::mark();
    w.request_headers(ctx, request.is_none());
    if let Some((status, body)) = answer {
        for (t, _) in seen(mark).calls {
            w.grpc_reply(t, status, Some(body.clone()));
        }
    }
    if let Some(b) = request {
        buffer(ctx, false, Some(b.as_bytes().to_vec()));
        w.request_body(ctx, b.len(), true);
    }
    if seen(mark).replies.is_empty() {
        respond(ctx, vec![(":status".into(), "200".into()), ("content-type".into(), "application/json".into())]);
        w.response_headers(ctx, response.is_none());
        if let Some(b) = response {
            buffer(ctx, true, Some(b.as_bytes().to_vec()));
            w.response_body(ctx, b.len(), true);
        }
    }
    let s = seen(mark);
    w.destroy(ctx);
    let mut out = vec![];
    for p in &s.panics {
        out.push(format!("panic {p}"));
    }
    for (_, c) in &s.calls {
        out.push(format!("call {}", c.upstream));
    }
    for r in &s.replies {
        out.push(format!("reply {}", r.0));
    }
    for e in &s.trace {
        if e.starts_with("SetProp") {
            out.push(e.clone());
        }
    }
    Ok(if out.is_empty() { "nothing".into() } else { out.join(", ") })
}

fn expect(got: Result<String, String>, want: &str, what: &str) -> Result<(), String> {
    let got = got?;
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: expected {want}, saw {got}"))
    }
}

pub fn request_fields_in_deny() -> Result<(), String> {
    expect(run(vec![deny("DenyResponse { status: 403u }", "requestBodyJSON('/a') == 1")], Some("{\"a\":1}"), None, None), "reply 403", "a deny action on a field of the request body")
}

pub fn request_fields_in_call() -> Result<(), String> {
    expect(run(vec![call("rl", "r", "requestBodyJSON('/a')", vec![])], Some("{\"a\":\"d\"}"), None, None), "call rl", "a call with a field of the request body")
}

pub fn denial_without_status() -> Result<(), String> {
    let body = crate::pb::enc(&vec![crate::pb::sub(2, &[crate::pb::s(3, "no")])]);
    expect(run(vec![json!({"service": "au", "scope": "x"})], None, None, Some((0, body))), "call au, reply 403", "a denial whose status is left out")
}

pub fn both_bodies() -> Result<(), String> {
    expect(run(vec![store("st.q", "requestBodyJSON('/a') + responseBodyJSON('/b')", "true", true)], Some("{\"a\":\"x\"}"), Some("{\"b\":\"y\"}"), None), "SetProp", "a value of fields of both bodies")
}

pub fn response_fields_in_reply_actions() -> Result<(), String> {
    let answer = (0, crate::pb::rl_response(1, &[]));
    expect(run(vec![call("rl", "r", "'d'", vec![call("au", "n", "responseBodyJSON('/b')", vec![])])], None, Some("{\"b\":\"y\"}"), Some(answer)), "call rl, call au", "a call nested in a reply, with a field of the response body")
}

pub fn terminal_call() -> Result<(), String> {
    let mut c = call("rl", "r", "'d'", vec![]);
    c["terminal"] = json!(true);
    let answer = (0, crate::pb::rl_response(1, &[]));
    expect(run(vec![c, store("st.q", "'x'", "true", true)], None, None, Some(answer)), "call rl", "a terminal call, and a store action after it")
}
