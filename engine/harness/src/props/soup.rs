//! Anything goes: configurations, requests and answers drawn over the whole surface, for the
//! properties that need no model of what the module should do with them.
use super::kit::*;
use crate::cfg::quote;
use crate::pb::{self, W};
use crate::rng::Rng;
use proxy_wasm::sim::Headers;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

pub const DYN: &str = "pk.v1.Soup";

/// (name, type, endpoint)
const SERVICES: &[(&str, &str, &str)] = &[
    ("rl", "ratelimit", "rl-cluster"),
    ("rl2", "ratelimit", "rl2-cluster"),
    ("check", "ratelimit-check", "check-cluster"),
    ("report", "ratelimit-report", "report-cluster"),
    ("auth", "auth", "auth-cluster"),
    ("auth2", "auth", "auth2-cluster"),
    ("dyn", "dynamic", "dyn-cluster"),
];

/// Descriptors of the dynamic service.
pub fn descriptors() -> Vec<u8> {
    let field = |name: &str, n: i64, label: i64, ty: i64| pb::sub(2, &[pb::s(1, name), pb::int(3, n), pb::int(4, label), pb::int(5, ty)]);
    let msg = |name: &str| pb::sub(4, &[pb::s(1, name), field("text", 1, 1, 9), field("num", 2, 1, 3), field("list", 3, 3, 9), field("ok", 4, 1, 8), field("raw", 5, 1, 12), field("ratio", 6, 1, 1)]);
    let file = [
        pb::s(1, "soup.proto"),
        pb::s(2, "pk.v1"),
        msg("Req"),
        msg("Rep"),
        pb::sub(6, &[pb::s(1, "Soup"), pb::sub(2, &[pb::s(1, "Do"), pb::s(2, ".pk.v1.Req"), pb::s(3, ".pk.v1.Rep")])]),
        pb::s(12, "proto3"),
    ];
    pb::enc(&[pb::sub(1, &file)])
}

/// Descriptor sets that decode but make no sense, or not to this module.
pub fn strange_descriptors(rng: &mut Rng) -> Vec<u8> {
    let field = |name: &str, n: i64, label: i64, ty: i64, tn: &str| {
        let mut f = vec![pb::s(1, name), pb::int(3, n), pb::int(4, label), pb::int(5, ty)];
        if !tn.is_empty() {
            f.push(pb::s(6, tn));
        }
        f
    };
    let mut files = vec![];
    for i in 0..rng.range(1, 3) {
        let mut file = vec![pb::s(1, if rng.pct(80) { ["a.proto", "b.proto", "c.proto"][i] } else { "a.proto" })];
        if rng.pct(85) {
            file.push(pb::s(2, if rng.pct(80) { "pk.v1" } else { *rng.pick(&["", ".", "pk.v1.Soup", "é"]) }));
        }
        if rng.pct(25) {
            file.push(pb::s(3, rng.pick(&["a.proto", "b.proto", "nowhere.proto"])));
        }
        for k in 0..rng.range(0, 4) {
            let mut m = vec![pb::s(1, if rng.pct(80) { ["Req", "Rep", "Other", "More"][k % 4] } else { *rng.pick(&["Req", "", "Soup", "a.b"]) })];
            for _ in 0..rng.below(4) {
                let ty = *rng.pick(&[1, 3, 8, 9, 10, 11, 12, 14, 0, 99, -1]);
                let tn = if matches!(ty, 10 | 11 | 14) || rng.pct(10) { *rng.pick(&[".pk.v1.Req", "Req", ".pk.v1.E", ".no.Such", "..", ""]) } else { "" };
                let mut f = field(rng.pick(&["text", "num", "te_xt", "TEXT", ""]), *rng.pick(&[1, 2, 3, 0, -5, 19_500, 1 << 29]), *rng.pick(&[1, 2, 3, 0, 9]), ty, tn);
                if rng.pct(15) {
                    f.push(pb::int(9, *rng.pick(&[0, 1, -1, 700])));
                }
                if rng.pct(15) {
                    f.push(pb::s(7, rng.pick(&["x", "12", "1e400", "true", ""])));
                }
                if rng.pct(10) {
                    f.push(pb::s(2, ".pk.v1.Rep"));
                }
                if rng.pct(10) {
                    f.push(pb::int(17, 1));
                }
                m.push(pb::sub(2, &f));
            }
            if rng.pct(15) {
                m.push(pb::sub(8, &[pb::s(1, "choice")]));
            }
            if rng.pct(15) {
                m.push(pb::sub(7, &[pb::int(7, 1)]));
            }
            if rng.pct(15) {
                m.push(pb::sub(5, &[pb::int(1, *rng.pick(&[1, 0, -4])), pb::int(2, *rng.pick(&[5, 0, -9]))]));
            }
            file.push(pb::sub(4, &m));
        }
        if rng.pct(30) {
            let mut e = vec![pb::s(1, "E")];
            for v in 0..rng.below(3) {
                e.push(pb::sub(2, &[pb::s(1, if rng.pct(70) { ["A", "B", "C"][v] } else { "A" }), pb::int(2, *rng.pick(&[0, 1, -1, 7]))]));
            }
            file.push(pb::sub(5, &e));
        }
        if rng.pct(85) {
            let mut sv = vec![pb::s(1, if rng.pct(90) { "Soup" } else { "Req" })];
            for _ in 0..rng.below(3) {
                sv.push(pb::sub(2, &[pb::s(1, if rng.pct(80) { "Do" } else { "" }), pb::s(2, rng.pick(&[".pk.v1.Req", "Req", ".no.Such", "", ".pk.v1.E"])), pb::s(3, rng.pick(&[".pk.v1.Rep", ".pk.v1.Req", "Nope", ""]))]));
            }
            file.push(pb::sub(6, &sv));
        }
        if rng.pct(10) {
            file.push(pb::sub(7, &field("ext", 100, 1, 9, "")));
        }
        match rng.below(8) {
            0 => {}
            1 => file.push(pb::s(12, rng.pick(&["editions", "proto4", "", "PROTO3"]))),
            2 | 3 => file.push(pb::s(12, "proto2")),
            _ => file.push(pb::s(12, "proto3")),
        }
        files.push(pb::sub(1, &file));
    }
    pb::enc(&files)
}

pub const WORDS: &[&str] = &["", "a", "b", "k", "GET", "POST", "/a/b?c=d&e=f", "h1.test", "é\u{1F980}z", "it's", "back\\slash", "\"q\"", "123", "-1", "true", "null", "  padded ", "a,b,,c", "x=1&y=2", "{\"a\":1}", "10.0.0.1:80", "[::1]:443", "%zz", "İıſ", "line\nbreak"];
const ATTRS: &[&str] = &[
    "request.id", "request.protocol", "request.scheme", "request.method", "request.path", "request.url_path", "request.query", "request.referer", "request.useragent", "request.host", "request.headers['x-a']",
    "request.headers['content-type']", "request.headers['X-B']", "source.address", "source.service", "source.principal", "source.remote_address", "destination.address", "destination.principal",
    "connection.requested_server_name", "connection.tls_version", "metadata.filter_metadata.ns.key", "metadata.other",
];
const NUMS: &[&str] = &["request.size", "source.port", "destination.port", "connection.id", "request.time"];
const POINTERS: &[&str] = &["/a", "/a/b", "/usage/total_tokens", "/list/1", "/list", "/é", "/a~1b", "", "/", "a", "/deep/deep/deep"];

#[derive(Clone, Default)]
pub struct Scope {
    /// variables a reply binds, with the service type
    pub vars: Vec<(String, &'static str)>,
    pub stored: Vec<String>,
    /// expressions that don't parse, or are none
    pub broken: bool,
}

pub fn lit(rng: &mut Rng) -> String {
    quote(rng.pick(WORDS))
}

pub fn int(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => "9223372036854775807".into(),
        1 => "-9223372036854775808".into(),
        2 => "-1".into(),
        3 => "0".into(),
        4 => "18446744073709551615u".into(),
        5 => format!("{}u", rng.below(5)),
        _ => rng.below(12).to_string(),
    }
}

pub fn value(rng: &mut Rng, sc: &Scope, d: usize) -> String {
    match rng.below(10) {
        0 | 1 => num(rng, sc, d),
        2 => boolean(rng, sc, d),
        3 if d > 0 => format!("[{}, {}]", value(rng, sc, d - 1), value(rng, sc, d - 1)),
        4 if d > 0 => format!("{{{}: {}}}", lit(rng), value(rng, sc, d - 1)),
        5 if d > 0 => format!("({} ? {} : {})", boolean(rng, sc, d - 1), value(rng, sc, d - 1), value(rng, sc, d - 1)),
        6 => match rng.below(6) {
            0 => "request.headers".into(),
            1 => "null".into(),
            2 => "b'\\xff\\x00a'".into(),
            3 => "request".into(),
            4 => "{}".into(),
            _ => "duration('3s')".into(),
        },
        _ => string(rng, sc, d),
    }
}

pub fn string(rng: &mut Rng, sc: &Scope, d: usize) -> String {
    if d == 0 {
        return match rng.below(9) {
            0..=3 => rng.pick(ATTRS).to_string(),
            4 if !sc.stored.is_empty() => rng.pick(&sc.stored).clone(),
            5 if !sc.vars.is_empty() => {
                let (v, k) = rng.pick(&sc.vars).clone();
                match k {
                    "auth" => format!("{v}.{}", rng.pick(&["denied_response.body", "status.message", "dynamic_metadata['user']", "ok_response.headers[0].header.value"])),
                    "dynamic" => format!("{v}.text"),
                    _ => format!("{v}.{}", rng.pick(&["response_headers_to_add[0].value", "raw_body", "response_headers_to_add[0].key"])),
                }
            }
            6 => format!("requestBodyJSON({})", quote(rng.pick(POINTERS))),
            7 => format!("responseBodyJSON({})", quote(rng.pick(POINTERS))),
            _ => lit(rng),
        };
    }
    let s = string(rng, sc, d - 1);
    match rng.below(16) {
        0 => format!("{s}.charAt({})", int(rng)),
        1 => format!("{s}.lowerAscii()"),
        2 => format!("{s}.upperAscii()"),
        3 => format!("{s}.trim()"),
        4 => format!("{s}.replace({}, {})", lit(rng), lit(rng)),
        5 => format!("{s}.replace({}, {}, {})", lit(rng), lit(rng), int(rng)),
        6 => format!("{s}.substring({})", int(rng)),
        7 => format!("{s}.substring({}, {})", int(rng), int(rng)),
        8 => format!("({s} + {})", string(rng, sc, d - 1)),
        9 => format!("string({})", value(rng, sc, d - 1)),
        10 => format!("{s}.split({})[{}]", lit(rng), rng.below(3)),
        11 => format!("{s}.split({}, {}).join({})", lit(rng), int(rng), lit(rng)),
        12 => format!("({} ? {s} : {})", boolean(rng, sc, d - 1), lit(rng)),
        13 => format!("[{s}, {}].map(x, x + 'y').join()", lit(rng)),
        14 => format!("{{'k': {s}}}.k"),
        _ => s,
    }
}

pub fn num(rng: &mut Rng, sc: &Scope, d: usize) -> String {
    if d == 0 {
        return if rng.pct(50) { int(rng) } else { rng.pick(NUMS).to_string() };
    }
    match rng.below(8) {
        0 => format!("size({})", value(rng, sc, d - 1)),
        1 => format!("int({})", value(rng, sc, d - 1)),
        2 => format!("{}.indexOf({})", string(rng, sc, d - 1), lit(rng)),
        3 => format!("{}.lastIndexOf({}, {})", string(rng, sc, d - 1), lit(rng), int(rng)),
        4 => format!("{}.indexOf({}, {})", string(rng, sc, d - 1), lit(rng), int(rng)),
        5 => {
            let op = *rng.pick(&["+", "-", "*", "/", "%"]);
            format!("({} {op} {})", num(rng, sc, d - 1), num(rng, sc, d - 1))
        }
        6 => format!("double({})", value(rng, sc, d - 1)),
        _ => format!("uint({})", num(rng, sc, d - 1)),
    }
}

pub fn boolean(rng: &mut Rng, sc: &Scope, d: usize) -> String {
    match rng.below(14) {
        0 | 1 => "true".into(),
        2 => "false".into(),
        3 if d > 0 => format!("({} && {})", boolean(rng, sc, d - 1), boolean(rng, sc, d - 1)),
        4 if d > 0 => format!("({} || {})", boolean(rng, sc, d - 1), boolean(rng, sc, d - 1)),
        5 if d > 0 => format!("!({})", boolean(rng, sc, d - 1)),
        6 => format!("has(request.headers.{})", rng.pick(&["host", "accept", "nope"])),
        7 => format!("'x-a' in request.headers && {} != ''", string(rng, sc, d.saturating_sub(1))),
        8 => format!("{}.startsWith({})", string(rng, sc, d.saturating_sub(1)), lit(rng)),
        9 => format!("{}.matches({})", string(rng, sc, d.saturating_sub(1)), quote(rng.pick(&["^a", "[a-z]+", "(", "é", "."]))),
        10 => format!("request.headers.exists(h, h == {})", lit(rng)),
        11 => {
            let op = *rng.pick(&["<", ">=", "==", "!="]);
            format!("{} {op} {}", num(rng, sc, d.saturating_sub(1)), int(rng))
        }
        12 if !sc.vars.is_empty() => {
            let (v, k) = rng.pick(&sc.vars).clone();
            match k {
                "auth" => format!("has({v}.{})", rng.pick(&["ok_response", "denied_response", "dynamic_metadata", "status"])),
                "dynamic" => format!("{v}.{}", rng.pick(&["ok", "num > 3", "list.size() > 0", "text == 'a'"])),
                _ => format!("{v}.overall_code == {}", rng.below(3)),
            }
        }
        _ => format!("{} == {}", string(rng, sc, d.saturating_sub(1)), lit(rng)),
    }
}

fn maybe_broken(rng: &mut Rng, sc: &Scope, e: String) -> String {
    if sc.broken && rng.pct(3) {
        match rng.below(5) {
            0 => String::new(),
            1 => format!("{e} &&"),
            2 => format!("(({e})"),
            3 => "nope.nope".into(),
            _ => format!("unknownFn({e})"),
        }
    } else {
        e
    }
}

fn message(rng: &mut Rng, sc: &Scope, kind: &str) -> String {
    match kind {
        "auth" => format!(
            "envoy.service.auth.v3.CheckRequest {{ attributes: envoy.service.auth.v3.AttributeContext {{ request: envoy.service.auth.v3.AttributeContext.Request {{ http: envoy.service.auth.v3.AttributeContext.HttpRequest {{ path: {}, method: {} }} }}, context_extensions: {{'k': {}}} }} }}",
            string(rng, sc, 1),
            string(rng, sc, 0),
            string(rng, sc, 1)
        ),
        "dynamic" => match rng.below(4) {
            0 => format!("pk.v1.Req {{ text: {} }}", string(rng, sc, 2)),
            1 => format!("pk.v1.Req {{ num: {}, ok: {} }}", num(rng, sc, 2), boolean(rng, sc, 1)),
            2 => format!("pk.v1.Req {{ list: [{}, {}] }}", string(rng, sc, 1), string(rng, sc, 1)),
            _ => format!("pk.v1.Req {{ text: {}, ratio: {} }}", value(rng, sc, 1), num(rng, sc, 1)),
        },
        _ => format!(
            "envoy.service.ratelimit.v3.RateLimitRequest {{ domain: {}, descriptors: [envoy.extensions.common.ratelimit.v3.RateLimitDescriptor {{ entries: [envoy.extensions.common.ratelimit.v3.RateLimitDescriptor.Entry {{ key: {}, value: {} }}] }}], hits_addend: {} }}",
            string(rng, sc, 1),
            lit(rng),
            string(rng, sc, 1),
            if rng.pct(70) { format!("{}u", rng.below(4)) } else { num(rng, sc, 1) }
        ),
    }
}

fn pairs(rng: &mut Rng, sc: &Scope) -> String {
    match rng.below(8) {
        0 => value(rng, sc, 1),
        1 => "[]".into(),
        2 => format!("[[{}, {}], ['x-k', {}]]", quote(rng.pick(&["x-one", "X-Two", "x-a"])), string(rng, sc, 1), string(rng, sc, 0)),
        _ => format!("[[{}, {}]]", quote(rng.pick(&["x-one", "X-Two", "x-a", "content-type"])), string(rng, sc, 1)),
    }
}

/// A typed action; nested ones are limited by `depth`.
pub fn action(rng: &mut Rng, sc: &mut Scope, depth: usize, n: &mut u32) -> J {
    let predicate = if rng.pct(55) { "true".to_string() } else { boolean(rng, sc, 2) };
    let predicate = maybe_broken(rng, sc, predicate);
    *n += 1;
    let top = depth > 1;
    let mut a = match rng.below(if depth == 0 { 5 } else { 10 }) {
        0 => {
            let reply = match rng.below(4) {
                0 => format!("envoy.service.auth.v3.DeniedHttpResponse {{ status: envoy.type.v3.HttpStatus {{ code: {} }}, body: {} }}", 400 + rng.below(120), string(rng, sc, 1)),
                1 => "envoy.service.auth.v3.DeniedHttpResponse { status: envoy.type.v3.HttpStatus { code: 302 }, headers: [envoy.config.core.v3.HeaderValueOption { header: envoy.config.core.v3.HeaderValue { key: 'location', value: request.path } }] }".into(),
                2 => value(rng, sc, 1),
                _ => "envoy.service.auth.v3.DeniedHttpResponse { status: envoy.type.v3.HttpStatus { code: 429 } }".into(),
            };
            deny(&maybe_broken(rng, sc, reply), &if rng.pct(60) { boolean(rng, sc, 2) } else { predicate.clone() })
        }
        1 | 2 => {
            let p = pairs(rng, sc);
            set_headers(rng.pct(50), &maybe_broken(rng, sc, p), &predicate)
        }
        3 | 4 => {
            let path = format!("{}p{n}", rng.pick(&["", "auth.", "st."]));
            let v = value(rng, sc, 2);
            let s = store(&path, &maybe_broken(rng, sc, v), &predicate, rng.pct(60));
            sc.stored.push(path);
            s
        }
        5 if rng.pct(40) => json!({"type": "fail", "logMessage": "failed by configuration", "predicate": predicate, "terminal": true}),
        _ => {
            let (name, kind, _) = *rng.pick(SERVICES);
            let var = format!("v{n}");
            let mut inner = sc.clone();
            inner.vars.push((var.clone(), kind));
            let m = message(rng, sc, kind);
            let on_reply: Vec<J> = (0..rng.below(4)).map(|_| action(rng, &mut inner, depth - 1, n)).collect();
            sc.vars.push((var.clone(), kind));
            json!({"type": "grpc", "service": name, "var": var, "predicate": predicate, "isGuard": rng.pct(70), "terminal": false, "messageBuilder": maybe_broken(rng, sc, m), "onReply": on_reply})
        }
    };
    if top && rng.pct(35) {
        a["execution"] = json!(if rng.pct(60) { "sequential" } else { "parallel" });
    }
    if rng.pct(15) {
        a["sources"] = json!(["ns/policy"]);
    }
    a
}

pub fn legacy(rng: &mut Rng, sc: &Scope) -> J {
    let (name, ..) = SERVICES[rng.below(6)];
    let mut blocks = vec![];
    for _ in 0..rng.below(3) {
        let mut data = vec![];
        for _ in 0..rng.range(1, 3) {
            data.push(if rng.pct(40) {
                json!({"static": {"key": rng.pick(&["k", "ratelimit.domain", "é"]), "value": rng.pick(WORDS)}})
            } else {
                let e = value(rng, sc, 2);
                json!({"expression": {"key": rng.pick(&["e", "ratelimit.hits_addend", "ratelimit.domain"]), "value": maybe_broken(rng, sc, e)}})
            });
        }
        let preds: Vec<String> = (0..rng.below(2)).map(|_| boolean(rng, sc, 1)).collect();
        blocks.push(json!({"predicates": preds, "data": data}));
    }
    let preds: Vec<String> = (0..rng.below(2)).map(|_| boolean(rng, sc, 1)).collect();
    json!({"service": name, "scope": rng.pick(&["s1", "s2", "a.b"]), "predicates": preds, "conditionalData": blocks})
}

pub struct Opts {
    pub broken: bool,
    pub tracing: bool,
}

pub fn config(rng: &mut Rng, o: &Opts) -> J {
    let mut services = serde_json::Map::new();
    for (n, k, e) in SERVICES {
        let mut s = svc(k, e, if rng.pct(50) { "allow" } else { "deny" });
        if *k == "dynamic" {
            s["grpcService"] = json!(DYN);
            s["grpcMethod"] = json!("Do");
        }
        services.insert(n.to_string(), s);
    }
    let mut sets = vec![];
    for h in 0..rng.range(1, 3) {
        for k in 0..rng.range(1, 2) {
            let mut sc = Scope { broken: o.broken, ..Default::default() };
            let mut n = 0;
            let actions: Vec<J> = (0..rng.range(1, 4)).map(|_| if rng.pct(25) { legacy(rng, &sc) } else { action(rng, &mut sc, 2, &mut n) }).collect();
            let mut s = aset(&format!("set{h}-{k}"), &format!("h{h}.test"), actions);
            if rng.pct(40) {
                s["routeRuleConditions"]["predicates"] = json!([boolean(rng, &sc, 1)]);
            }
            if rng.pct(20) {
                s["routeRuleConditions"]["hostnames"] = json!([format!("h{h}.test"), "*.test", "*"]);
            }
            sets.push(s);
        }
    }
    let mut obs = json!({});
    if rng.pct(40) {
        obs["httpHeaderIdentifier"] = json!("x-kuadrant-id");
    }
    if o.tracing && rng.pct(60) {
        services.insert("tr".into(), svc("tracing", "otel-cluster", "deny"));
        obs["tracing"] = json!({"service": "tr"});
        obs["defaultLevel"] = json!(rng.pick(&["TRACE", "DEBUG", "INFO", "WARN", "OFF"]));
    }
    let mut c = json!({"services": services, "actionSets": sets, "observability": obs});
    if rng.pct(50) {
        let sc = Scope { broken: o.broken, ..Default::default() };
        let mut rd = serde_json::Map::new();
        for k in ["metrics.labels.user", "plain", "a.b.c"].iter().take(rng.range(1, 3)) {
            rd.insert(k.to_string(), json!(value(rng, &sc, 1)));
        }
        c["requestData"] = J::Object(rd);
    }
    c
}

pub struct Request {
    pub headers: Headers,
    pub props: BTreeMap<Vec<String>, Vec<u8>>,
    pub req: Vec<Vec<u8>>,
    pub resp_headers: Headers,
    pub resp: Vec<Vec<u8>>,
}

/// A line of an event stream other than its data.
fn sse_line(rng: &mut Rng) -> String {
    let value = *rng.pick(&["", "0", "7", "-1", "1.5", "inf", "-inf", "nan", "1e400", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "+5", " 5", "0x10", "\0", "é\u{1F980}", "[DONE]", ":", "a:b:c", "\u{2028}"]);
    let field = *rng.pick(&["retry", "retry", "id", "event", "data", "", "unknown", "Retry", "\u{feff}data", "retr", "data "]);
    format!("{field}{}{value}", rng.pick(&[":", ": ", "", " ", "::", ":\t"]))
}

const HOSTS: &[&str] = &["", ":", "::", "[", "]", "[::1]:80", ":80", ".", "..", "a..b", ".test", "test", "*", "*.test", "h1.*", "h1.test.", "h1.test:", "h1.test:x:y", "\u{1F980}.test", "H1.TeSt", "h1.test\0", "ſ.test", "İ.test", "$", "$.test", " h1.test", "xn--.test"];
const VALUES: &[&str] = &[
    "", "\0", "-", "--", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "00-00000000000000000000000000000000-0000000000000000-00", "ff-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01-x", "00-\u{1F980}af7651916cd43dd8448eb211c8031-b7ad6b7169203331-01",
    "a=b", "a=b,c", "=,=", "a=%F0%9F,b=%", "a=b;c=d;=", "%", "%zz", "text/event-stream;", "TEXT/EVENT-STREAM", "text/event-stream, application/json", "application/grpc+proto", "application/grpc;x", "\u{1F980}", "1", "-1", "18446744073709551616", "NaN", "\"", "'", "\\", "[['a','b']]",
];

/// Makes a request one nobody sends in good faith, behind a proxy that tells odd things.
pub fn spoil(rng: &mut Rng, r: &mut Request) {
    for _ in 0..rng.range(1, 4) {
        match rng.below(6) {
            0 => {
                r.props.insert(path_key("request.host"), rng.pick(HOSTS).as_bytes().to_vec());
            }
            1 => {
                let n = *rng.pick(&["x-request-id", "traceparent", "tracestate", "baggage", "content-type", ":path", ":authority", "x-a", "x-open", "", ":", "\u{1F980}"]);
                let v = if rng.pct(5) { "v,".repeat(5000) } else { rng.pick(VALUES).to_string() };
                if rng.pct(50) {
                    r.headers.retain(|(k, _)| k != n);
                }
                r.headers.push((n.to_string(), v));
            }
            2 => {
                let n = *rng.pick(&["content-type", ":status", "x-a", "content-length"]);
                r.resp_headers.retain(|(k, _)| k != n || rng.pct(50));
                r.resp_headers.push((n.to_string(), rng.pick(VALUES).to_string()));
            }
            3 => {
                r.headers = if rng.pct(50) { vec![] } else { std::mem::take(&mut r.headers).into_iter().filter(|_| rng.pct(50)).collect() };
            }
            _ => {
                // any value for any attribute there is
                let keys: Vec<Vec<String>> = r.props.keys().cloned().collect();
                if keys.is_empty() {
                    continue;
                }
                let k = rng.pick(&keys).clone();
                let v = match rng.below(8) {
                    0 => vec![],
                    1 => vec![0xff],
                    2 => vec![0xff; 8],
                    3 => i64::MIN.to_le_bytes().to_vec(),
                    4 => i64::MAX.to_le_bytes().to_vec(),
                    5 => f64::NAN.to_le_bytes().to_vec(),
                    6 => (0..rng.below(20)).map(|_| rng.next() as u8).collect(),
                    _ => rng.pick(VALUES).as_bytes().to_vec(),
                };
                r.props.insert(k, v);
            }
        }
    }
}

fn path_key(p: &str) -> Vec<String> {
    p.split('.').map(|t| t.to_string()).collect()
}

pub fn body(rng: &mut Rng, sse: bool) -> Vec<u8> {
    let doc = |rng: &mut Rng| {
        let n = *rng.pick(&["5", "0", "-3", "1e400", "184467440737095516150", "1.5", "true", "null", "\"text\"", "{}", "[1,2]"]);
        match rng.below(6) {
            0 => format!("{{\"usage\":{{\"total_tokens\":{n}}},\"a\":{{\"b\":\"c\"}}}}"),
            1 => format!("{{\"a\":{n},\"list\":[1,{n}],\"é\":\"\\ud83e\\udd80\"}}"),
            2 => format!("{{\"usage\":{{\"total_tokens\":{n}"),
            3 => "[1,2".into(),
            4 => format!("{{ \"a\" : {n} , \"deep\":{{\"deep\":{{\"deep\":{n}}}}} }}"),
            _ => "not json \u{0}".into(),
        }
    };
    let mut b: Vec<u8> = if sse {
        (0..rng.below(4))
            .map(|_| {
                let eol = *rng.pick(&["\n", "\n", "\r\n", "\r"]);
                let mut e = String::new();
                for _ in 0..rng.below(4) {
                    if rng.pct(40) {
                        e += &format!("{}{eol}", sse_line(rng));
                    }
                }
                format!("{e}data: {}{}", doc(rng), rng.pick(&["\n\n", "\r\n\r\n", "\n", "", "\r\r"]))
            })
            .collect::<String>()
            .into_bytes()
    } else {
        doc(rng).into_bytes()
    };
    if sse && rng.pct(50) {
        b.extend_from_slice(b"data: [DONE]\n\n");
    }
    if rng.pct(10) && !b.is_empty() {
        let i = rng.below(b.len());
        b[i] = rng.next() as u8;
    }
    b
}

pub fn chunks(rng: &mut Rng, b: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let n = rng.range(1, b.len() - i);
        out.push(b[i..i + n].to_vec());
        i += n;
    }
    if rng.pct(30) {
        out.push(vec![]);
    }
    out
}

pub fn request(rng: &mut Rng, serial: usize, tracing: bool) -> Request {
    let host = match rng.below(12) {
        0 => "other.test".to_string(),
        1 => "H1.TEST:8080".into(),
        2 => "nowhere".into(),
        n => format!("h{}.test", n % 3),
    };
    let mut extra: Headers = vec![("x-request-id".into(), format!("rid-{serial}-{:08x}", rng.next() as u32))];
    if rng.pct(50) {
        extra.push(("x-a".into(), rng.pick(WORDS).replace('\n', " ")));
    }
    if rng.pct(20) {
        extra.push(("x-a".into(), "second".into()));
    }
    if rng.pct(50) {
        extra.push(("content-type".into(), rng.pick(&["application/json", "application/grpc", "text/event-stream", "text/plain"]).to_string()));
    }
    if tracing && rng.pct(50) {
        extra.push(("traceparent".into(), rng.pick(&["00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "junk", "00-x-y-01"]).to_string()));
    }
    let mut s = stream(&host, &extra);
    if rng.pct(80) {
        full(&mut s);
    }
    for a in ["request.query", "request.referer", "request.useragent", "source.principal", "destination.principal", "connection.requested_server_name", "connection.tls_version", "metadata.filter_metadata.ns.key", "metadata.other", "request.method", "request.path"] {
        if rng.pct(40) {
            prop(&mut s, a, rng.pick(WORDS).as_bytes());
        }
    }
    if rng.pct(30) {
        prop(&mut s, "source.address", rng.pick(&["[::1]:80", "10.1.2.3:9", "unix", ""]).as_bytes());
    }
    if rng.pct(40) {
        prop(&mut s, "request.size", &(rng.next() as i64).to_le_bytes());
    }
    let req = if rng.pct(50) {
        let b = body(rng, false);
        chunks(rng, &b)
    } else {
        vec![]
    };
    let sse = rng.pct(30);
    let mut resp_headers: Headers = vec![(":status".into(), "200".into())];
    resp_headers.push(("content-type".into(), if sse { "text/event-stream".into() } else { "application/json".into() }));
    let resp = if rng.pct(70) {
        let b = body(rng, sse);
        chunks(rng, &b)
    } else {
        vec![]
    };
    Request { headers: s.req_headers.unwrap(), props: s.props, req, resp_headers, resp }
}

fn hv(k: &str, v: &str) -> Vec<(u32, W)> {
    vec![pb::sub(1, &[pb::s(1, k), pb::s(2, v)])]
}

/// An answer to a call of a service known by its gRPC service name.
pub fn reply(rng: &mut Rng, service: &str) -> (u32, Option<Vec<u8>>) {
    match rng.below(14) {
        0 => return (*rng.pick(&[2, 4, 14, 16, 99]), None),
        1 => return (0, Some(vec![0x0a, 0xff, 0xff, 0xff])),
        2 => return (0, None),
        3 if rng.pct(50) => return (14, Some(pb::rl_response(1, &[]))),
        _ => {}
    }
    let w = rng.pick(WORDS).replace('\n', " ");
    let b = match service {
        "envoy.service.auth.v3.Authorization" => match rng.below(5) {
            0 => pb::enc(&[pb::sub(1, &[pb::int(1, 7)]), pb::sub(2, &[pb::sub(1, &[pb::int(1, 400 + rng.below(100) as i64)]), pb::sub(2, &hv("x-deny", &w)), pb::s(3, "denied")])]),
            1 => pb::enc(&[pb::sub(1, &[pb::int(1, 7), pb::s(2, "no")])]),
            2 => pb::enc(&[pb::sub(3, &[pb::sub(2, &hv("x-ok", &w))]), pb::sub(4, &[pb::sub(1, &[pb::s(1, "user"), pb::sub(2, &[pb::s(3, &w)])])])]),
            3 => pb::enc(&[pb::sub(3, &[pb::sub(6, &hv("x-resp", "1"))])]),
            _ => pb::enc(&[pb::sub(3, &[])]),
        },
        DYN => {
            let mut m = vec![];
            if rng.pct(70) {
                m.push(pb::s(1, &w));
            }
            if rng.pct(50) {
                m.push(pb::int(2, rng.next() as i64));
            }
            for _ in 0..rng.below(3) {
                m.push(pb::s(3, &w));
            }
            if rng.pct(50) {
                m.push(pb::int(4, 1));
            }
            m.push(pb::s(90, "unknown field"));
            pb::enc(&m)
        }
        _ => {
            let hs: Vec<(String, String)> = (0..rng.below(3)).map(|i| (format!("x-rl-{i}"), w.clone())).collect();
            pb::rl_response(rng.below(4) as i64, &hs)
        }
    };
    (0, Some(b))
}
