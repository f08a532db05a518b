//! What the smaller properties share: configurations, streams and what a callback did.
use crate::prop::Violation;
use crate::world::World;
use proxy_wasm::sim::{self, Call, Ev, Headers, Stream};
use proxy_wasm::types::{Action, MapType};
use serde_json::{json, Value as J};

pub fn svc(kind: &str, endpoint: &str, mode: &str) -> J {
    json!({"type": kind, "endpoint": endpoint, "failureMode": mode, "timeout": "100ms"})
}

pub fn aset(name: &str, host: &str, actions: Vec<J>) -> J {
    json!({"name": name, "routeRuleConditions": {"hostnames": [host]}, "actions": actions})
}

/// A typed rate-limit call that carries `domain`.
pub fn call(service: &str, var: &str, domain: &str, on_reply: Vec<J>) -> J {
    json!({"type": "grpc", "service": service, "var": var, "predicate": "true", "isGuard": true, "terminal": false, "onReply": on_reply,
        "messageBuilder": format!("envoy.service.ratelimit.v3.RateLimitRequest {{ domain: {domain} }}")})
}

pub fn set_headers(response: bool, pairs: &str, predicate: &str) -> J {
    json!({"type": "headers", "target": if response { "response" } else { "request" }, "headers": pairs, "predicate": predicate, "terminal": false})
}

pub fn store(path: &str, value: &str, predicate: &str, export: bool) -> J {
    json!({"type": "store", "path": path, "value": value, "predicate": predicate, "terminal": false, "exportToHost": export})
}

pub fn deny(reply: &str, predicate: &str) -> J {
    json!({"type": "deny", "predicate": predicate, "terminal": true, "denyWith": reply})
}

/// The attributes a check request reports.
pub fn full(s: &mut Stream) {
    for (k, v) in [("request.id", "rid"), ("request.protocol", "HTTP/1.1"), ("request.query", ""), ("destination.address", "10.1.1.1:80")] {
        if !s.props.contains_key(&k.split('.').map(|t| t.to_string()).collect::<Vec<_>>()) {
            prop(s, k, v.as_bytes());
        }
    }
    prop(s, "source.port", &4567u64.to_le_bytes());
    prop(s, "destination.port", &80u64.to_le_bytes());
    prop(s, "request.time", &1_700_000_000_123_456_789u64.to_le_bytes());
    prop(s, "request.size", &0u64.to_le_bytes());
}

pub fn prop(s: &mut Stream, path: &str, v: &[u8]) {
    s.props.insert(path.split('.').map(|t| t.to_string()).collect(), v.to_vec());
}

pub fn stream(host: &str, extra: &[(String, String)]) -> Stream {
    let mut h: Headers = vec![(":authority".into(), host.into()), (":method".into(), "GET".into()), (":path".into(), "/p".into())];
    h.extend(extra.iter().cloned());
    let mut s = Stream { req_headers: Some(h), ..Default::default() };
    for (k, v) in [("request.host", host), ("request.method", "GET"), ("request.path", "/p"), ("request.url_path", "/p"), ("request.scheme", "http"), ("source.address", "10.0.0.1:4567")] {
        prop(&mut s, k, v.as_bytes());
    }
    s
}

/// What the module asked of the host since a mark.
#[derive(Default, Debug)]
pub struct Seen {
    pub calls: Vec<(u32, Call)>,
    pub refused: Vec<Call>,
    pub replies: Vec<(u32, Headers, Option<Vec<u8>>)>,
    pub maps: Vec<(MapType, Headers)>,
    pub exports: Vec<(String, Vec<u8>)>,
    pub resumed: (u32, u32),
    pub panics: Vec<String>,
    pub metrics: Vec<(String, i64)>,
    pub ticks: Vec<std::time::Duration>,
    pub actions: Vec<Option<Action>>,
    pub trace: Vec<String>,
}

pub fn seen(mark: usize) -> Seen {
    let mut s = Seen::default();
    for r in World::since(mark) {
        s.trace.push(crate::flight::show(&r.ev));
        match r.ev {
            Ev::Dispatch(t, c) => s.calls.push((t, c)),
            Ev::DispatchRefused(c, _) => s.refused.push(c),
            Ev::Reply { status, headers, body } => s.replies.push((status, headers, body)),
            Ev::SetMap(t, m) => s.maps.push((t, m)),
            Ev::SetProp(p, b) => s.exports.push((p.join("|"), b)),
            Ev::ResumeRequest => s.resumed.0 += 1,
            Ev::ResumeResponse => s.resumed.1 += 1,
            Ev::Panic(p) => s.panics.push(p),
            Ev::Metric(n, k) => s.metrics.push((n, k)),
            Ev::TickPeriod(d) => s.ticks.push(d),
            Ev::Exit(_, a) => s.actions.push(a),
            _ => {}
        }
    }
    s
}

pub fn fail(sig: &str, detail: String, cfg: &str, mark: usize) -> Violation {
    let mut v = Violation::new(sig, detail).cfg(cfg);
    v.trace = seen(mark).trace;
    v
}

pub fn req_headers(ctx: u32) -> Headers {
    sim::with(|h| h.streams[&ctx].req_headers.clone().unwrap_or_default())
}
pub fn resp_headers(ctx: u32) -> Headers {
    sim::with(|h| h.streams[&ctx].resp_headers.clone().unwrap_or_default())
}
pub fn respond(ctx: u32, hs: Headers) {
    sim::with(|h| h.streams.get_mut(&ctx).unwrap().resp_headers = Some(hs));
}
pub fn buffer(ctx: u32, response: bool, b: Option<Vec<u8>>) {
    sim::with(|h| {
        let s = h.streams.get_mut(&ctx).unwrap();
        if response {
            s.resp_buf = b;
        } else {
            s.req_buf = b;
        }
    });
}
