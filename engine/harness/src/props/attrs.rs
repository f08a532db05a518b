//! G14: expressions see request and connection attributes as the proxy reports them.
use super::kit::*;
use crate::cfg::quote;
use crate::pb;
use crate::prop::*;
use crate::rng::Rng;
use crate::world::World;
use proxy_wasm::sim::{self, Headers, Kind};
use proxy_wasm::types::Status;
use serde_json::{json, Value as J};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Str,
    Int,
    UInt,
    Bool,
    Time,
    Json,
    Peer,
}

const ATTRS: &[(&str, Ty)] = &[
    ("request.id", Ty::Str),
    ("request.protocol", Ty::Str),
    ("request.scheme", Ty::Str),
    ("request.method", Ty::Str),
    ("request.path", Ty::Str),
    ("request.url_path", Ty::Str),
    ("request.query", Ty::Str),
    ("request.referer", Ty::Str),
    ("request.useragent", Ty::Str),
    ("source.address", Ty::Str),
    ("source.service", Ty::Str),
    ("source.principal", Ty::Str),
    ("source.certificate", Ty::Str),
    ("destination.address", Ty::Str),
    ("destination.service", Ty::Str),
    ("destination.principal", Ty::Str),
    ("destination.certificate", Ty::Str),
    ("connection.requested_server_name", Ty::Str),
    ("connection.tls_version", Ty::Str),
    ("connection.subject_peer_certificate", Ty::Str),
    ("connection.dns_san_peer_certificate", Ty::Str),
    ("connection.uri_san_local_certificate", Ty::Str),
    ("connection.sha256_peer_certificate_digest", Ty::Str),
    ("request.size", Ty::Int),
    ("source.port", Ty::Int),
    ("destination.port", Ty::Int),
    ("connection.id", Ty::UInt),
    ("connection.mtls", Ty::Bool),
    ("request.time", Ty::Time),
    ("metadata.filter_metadata.ns.key", Ty::Json),
    ("metadata.other", Ty::Json),
    ("source.remote_address", Ty::Peer),
    ("source.remote_address", Ty::Peer),
];

const TEXTS: &[&str] = &["", "GET", "/a/b", "é\u{1F980}", "x y", "it's", "back\\slash", "123", "true", "null", "a=b&c=d", "HTTP/2", "spiffe://x/y", "{\"a\":1}"];
const PEERS: &[(&str, &str)] = &[
    ("10.0.0.1:4567", "10.0.0.1"),
    ("10.0.0.1", "10.0.0.1"),
    ("255.255.255.255:65535", "255.255.255.255"),
    ("0.0.0.0:0", "0.0.0.0"),
    ("[::1]:8080", "::1"),
    ("[2001:db8::8a2e:370:7334]:443", "2001:db8::8a2e:370:7334"),
    ("[fe80::1]:1", "fe80::1"),
    ("::1", "::1"),
    ("2001:db8::1", "2001:db8::1"),
    ("[::]:0", "::"),
    ("/run/peer.sock", "/run/peer.sock"),
];
const JSONS: &[(&str, &str)] = &[
    ("5", "5"),
    ("-5", "-5"),
    ("1.5", "1.5"),
    ("true", "true"),
    ("null", "null"),
    ("\"text\"", "'text'"),
    ("text", "'text'"),
    ("not {json", "'not {json'"),
    ("[1,\"b\",false]", "[1, 'b', false]"),
    ("{\"a\":{\"b\":\"c\"},\"n\":[1]}", "{'a': {'b': 'c'}, 'n': [1]}"),
    ("{}", "{}"),
    ("18446744073709551615", "18446744073709551615u"),
    ("-9223372036854775808", "-9223372036854775808"),
];

#[derive(Clone, Debug)]
enum Val {
    Str(String),
    Int(i64),
    UInt(u64),
    Bool(bool),
    /// nanoseconds, and the same as text
    Time(i64),
    /// an expression for the value
    Lit(String),
    Absent,
    /// not decodable, or an error of the host
    Broken,
}

fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}

pub fn rfc3339(nanos: i64) -> String {
    let secs = nanos.div_euclid(1_000_000_000);
    let ns = nanos.rem_euclid(1_000_000_000);
    let (y, m, d) = civil(secs.div_euclid(86400));
    let t = secs.rem_euclid(86400);
    format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}.{ns:09}Z", t / 3600, t / 60 % 60, t % 60)
}

fn draw(rng: &mut Rng, ty: Ty, cov: &mut Cov) -> (Option<Vec<u8>>, Val) {
    if rng.pct(7) && ty != Ty::Peer {
        cov.state("absent");
        return (None, Val::Absent);
    }
    let broken = rng.pct(8);
    let edge_int = |rng: &mut Rng| match rng.below(7) {
        0 => 0i64,
        1 => -1,
        2 => i64::MAX,
        3 => i64::MIN,
        4 => 1 << 32,
        5 => (1 << 53) + 1,
        _ => rng.below(70000) as i64,
    };
    let cut = |rng: &mut Rng, b: Vec<u8>| -> Vec<u8> {
        match rng.below(3) {
            0 => b[..rng.below(b.len())].to_vec(),
            1 => [b, vec![0]].concat(),
            _ => b"12345".to_vec(),
        }
    };
    match ty {
        Ty::Str if broken => (Some(vec![b'a', 0xff, 0xfe]), Val::Broken),
        Ty::Str => {
            let s = if rng.pct(5) { "y".repeat(rng.range(100, 9000)) } else { rng.pick(TEXTS).to_string() };
            (Some(s.clone().into_bytes()), Val::Str(s))
        }
        Ty::Int | Ty::UInt => {
            let i = edge_int(rng);
            let b = i.to_le_bytes().to_vec();
            if broken {
                (Some(cut(rng, b)), Val::Broken)
            } else {
                (Some(b), if ty == Ty::Int { Val::Int(i) } else { Val::UInt(i as u64) })
            }
        }
        Ty::Bool if broken => (Some(vec![1, 0]), Val::Broken),
        Ty::Bool => {
            let b = rng.pct(50);
            (Some(vec![b as u8]), Val::Bool(b))
        }
        Ty::Time => {
            let n = match rng.below(4) {
                0 => 0i64,
                1 => 1_700_000_000_123_456_789,
                2 => 4_102_444_800_000_000_000,
                _ => (rng.next() % 2_000_000_000_000_000_000) as i64,
            };
            let b = n.to_le_bytes().to_vec();
            if broken {
                (Some(cut(rng, b)), Val::Broken)
            } else {
                (Some(b), Val::Time(n))
            }
        }
        Ty::Json => {
            let (raw, lit) = rng.pick(JSONS);
            (Some(raw.as_bytes().to_vec()), Val::Lit(lit.to_string()))
        }
        Ty::Peer => unreachable!(),
    }
}

/// What an observing action should do.
#[derive(Clone, Debug)]
enum Want {
    Header(String),
    Nothing,
}

fn g14(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let n = rng.range(2, 7);
    let mut used: BTreeMap<&str, (Ty, Val)> = BTreeMap::new();
    let mut st = stream("a.com", &[]);
    let mut errors: Vec<String> = vec![];
    for _ in 0..n {
        let (name, ty) = *rng.pick(ATTRS);
        if used.contains_key(name) || name == "source.address" && used.contains_key("source.remote_address") || name == "source.remote_address" && used.contains_key("source.address") {
            continue;
        }
        let key = if ty == Ty::Peer { "source.address" } else { name };
        let (raw, val) = if ty == Ty::Peer {
            let (raw, ip) = *rng.pick(PEERS);
            cov.state(if ip.contains(':') { "peer_ipv6" } else { "peer_ipv4" });
            (Some(raw.as_bytes().to_vec()), Val::Str(ip.into()))
        } else {
            draw(rng, ty, cov)
        };
        let path: Vec<String> = key.split('.').map(|t| t.to_string()).collect();
        match &raw {
            Some(b) => {
                st.props.insert(path, b.clone());
            }
            None => {
                st.props.remove(&path);
            }
        }
        let val = if rng.pct(4) {
            errors.push(key.to_string());
            Val::Broken
        } else {
            val
        };
        used.insert(name, (ty, val));
    }
    // one attribute the proxy can't report before the response
    let names: Vec<&str> = used.keys().copied().filter(|n| !n.contains("address")).collect();
    let late: Option<&str> = if rng.pct(25) && !names.is_empty() { Some(*rng.pick(&names)) } else { None };
    let late = late.filter(|l| !errors.iter().any(|e| e == l));
    let mut actions: Vec<J> = vec![];
    let mut wants: Vec<(String, bool, Want, String)> = vec![];
    let mut msgs: Vec<(Option<String>, bool)> = vec![];
    let watch = |actions: &mut Vec<J>, wants: &mut Vec<(String, bool, Want, String)>, late: bool, expr: String, pred: String, want: Want| {
        let h = format!("x-{}", wants.len());
        actions.push(set_headers(late, &format!("[['{h}', {expr}]]"), &pred));
        wants.push((h, late, want, format!("{expr} if {pred}")));
    };
    for (name, (ty, val)) in &used {
        let is_late = Some(*name) == late;
        let wrong = |rng: &mut Rng| rng.pct(40);
        for _ in 0..rng.range(1, 2) {
            let (expr, pred, want) = match val {
                Val::Str(s) if s.is_ascii() && rng.pct(40) && !s.is_empty() => (name.to_string(), "true".to_string(), Want::Header(s.clone())),
                Val::Str(s) => {
                    let w = wrong(rng);
                    let lit = if w { quote(&format!("{s}x")) } else { quote(s) };
                    ("'v'".into(), format!("{name} == {lit}"), if w { Want::Nothing } else { Want::Header("v".into()) })
                }
                Val::Int(i) => {
                    if rng.pct(50) {
                        (format!("string({name})"), "true".into(), Want::Header(i.to_string()))
                    } else {
                        let w = wrong(rng);
                        let other = i.wrapping_add(if *i == i64::MAX { -1 } else { 1 });
                        if w {
                            ("'v'".into(), format!("string({name}) == '{other}'"), Want::Nothing)
                        } else {
                            ("'v'".into(), format!("{name} - {name} == 0 && string({name}) == '{i}'"), Want::Header("v".into()))
                        }
                    }
                }
                Val::UInt(u) => {
                    if rng.pct(50) {
                        (format!("string({name})"), "true".into(), Want::Header(u.to_string()))
                    } else {
                        let w = wrong(rng);
                        let lit = if w { format!("{}u", u.wrapping_add(1)) } else { format!("{u}u") };
                        ("'v'".into(), format!("{name} == {lit}"), if w { Want::Nothing } else { Want::Header("v".into()) })
                    }
                }
                Val::Bool(b) => match rng.below(3) {
                    0 => (format!("{name} ? 'T' : 'F'"), "true".into(), Want::Header(if *b { "T" } else { "F" }.into())),
                    1 => ("'v'".into(), name.to_string(), if *b { Want::Header("v".into()) } else { Want::Nothing }),
                    _ => ("'v'".into(), format!("!{name}"), if !*b { Want::Header("v".into()) } else { Want::Nothing }),
                },
                Val::Time(t) => {
                    let w = wrong(rng);
                    let lit = rfc3339(if w { t + 1 } else { *t });
                    ("'v'".into(), format!("{name} == timestamp('{lit}')"), if w { Want::Nothing } else { Want::Header("v".into()) })
                }
                Val::Lit(l) => {
                    let w = wrong(rng);
                    if w {
                        ("'v'".into(), format!("{name} == 'something else'"), Want::Nothing)
                    } else {
                        ("'v'".into(), format!("{name} == {l}"), Want::Header("v".into()))
                    }
                }
                Val::Absent => {
                    if rng.pct(60) {
                        ("'v'".into(), format!("{name} == null"), Want::Header("v".into()))
                    } else {
                        (name.to_string(), "true".into(), Want::Nothing)
                    }
                }
                Val::Broken => {
                    cov.state("broken");
                    match rng.below(3) {
                        0 => ("'v'".into(), format!("{name} == null"), Want::Nothing),
                        1 => (format!("string({name})"), "true".into(), Want::Nothing),
                        _ => ("'v'".into(), format!("{name} != 'z'"), Want::Nothing),
                    }
                }
            };
            cov.state(match val {
                Val::Str(_) => "string",
                Val::Int(_) => "int",
                Val::UInt(_) => "uint",
                Val::Bool(_) => "bool",
                Val::Time(_) => "time",
                Val::Lit(_) => "json",
                Val::Absent => "null",
                Val::Broken => "undecodable",
            });
            if is_late {
                cov.state("late");
            }
            let _ = ty;
            // the same, with the attribute read from inside another expression
            let (expr, pred) = if rng.pct(30) {
                cov.state("nested");
                let key = matches!(val, Val::Str(_) | Val::Int(_) | Val::UInt(_) | Val::Bool(_));
                let (pre, post) = if key && rng.pct(25) {
                    cov.state("nested_as_a_map_key");
                    *rng.pick(&[("{", ": 'v'}.map(e, e)[0]"), ("{", ": 1}.filter(e, true)[0]"), ("{'m': {", ": [1]}}.m.map(e, e)[0]")])
                } else {
                    *rng.pick(&[("[0].map(e, ", ")[0]"), ("[0, 1].map(e, e == 1, ", ")[0]"), ("[[", "]].map(e, e[0])[0]"), ("{'k': ", "}['k']"), ("(false ? 'n' : ", ")"),
                    ("{'k': ", "}.k"), ("[", "][0]"), ("(true ? ", " : 'n')"), ("{'k': {'j': ", "}}.k.j"), ("[", "].map(e, e)[0]"), ("{'k': [", "]}.k[0]"), ("[", "].filter(e, {'k': true}.k)[0]")])
                };
                let nest = |t: &str| t.replace(name, &format!("{pre}{name}{post}"));
                let lead = *rng.pick(&["", "", "{'a': 1}.a == 1 && ", "'abc'.size() == 3 && ", "[1].exists(e, e == 1) && "]);
                (nest(&expr), format!("{lead}({})", nest(&pred)))
            } else {
                (expr, pred)
            };
            watch(&mut actions, &mut wants, is_late, expr, pred, want);
        }
        // as part of a message
        if let Val::Str(s) = val {
            if rng.pct(30) {
                let d = format!("'<' + {name} + '>'");
                actions.push(json!({"type": "grpc", "service": "s", "var": format!("q{}", msgs.len()), "predicate": "true", "isGuard": false, "terminal": false, "onReply": [],
                    "messageBuilder": format!("envoy.service.ratelimit.v3.RateLimitRequest {{ domain: {d} }}")}));
                msgs.push((Some(format!("<{s}>")), is_late));
                cov.state("in_message");
            }
        }
    }
    // two attributes in one expression
    let strs: Vec<(&str, &String)> = used.iter().filter(|(n, _)| Some(**n) != late).filter_map(|(n, (_, v))| if let Val::Str(s) = v { Some((*n, s)) } else { None }).collect();
    if strs.len() > 1 {
        let a = strs[0];
        let b = strs[strs.len() - 1];
        watch(&mut actions, &mut wants, false, "'v'".into(), format!("{} + '|' + {} == {}", a.0, b.0, quote(&format!("{}|{}", a.1, b.1))), Want::Header("v".into()));
    }
    // headers: one entry per name, values of repeated ones joined
    let mut extra: Headers = vec![];
    for _ in 0..rng.below(6) {
        extra.push((rng.pick(&["x-req", "cookie", "accept", "x-two"]).to_string(), rng.pick(&["a", "b, c", "", "é", "long;q=1"]).to_string()));
    }
    let grpc_ct = rng.pick(&["", "application/grpc", "application/grpc+proto", "application/json", "text/grpc"]).to_string();
    if !grpc_ct.is_empty() {
        extra.push(("content-type".into(), grpc_ct.clone()));
    }
    let hs = st.req_headers.as_mut().unwrap();
    hs.extend(extra.iter().cloned());
    let hs = hs.clone();
    for name in ["x-req", "cookie", "x-two"] {
        let vals: Vec<&str> = hs.iter().filter(|(k, _)| k == name).map(|(_, v)| v.as_str()).collect();
        if rng.pct(40) {
            let there = !vals.is_empty();
            watch(&mut actions, &mut wants, false, "'v'".into(), format!("'{name}' in request.headers"), if there { Want::Header("v".into()) } else { Want::Nothing });
        }
        if rng.pct(50) {
            if vals.len() > 1 {
                cov.state("repeated_header");
            }
            let want = if vals.is_empty() { Want::Nothing } else { Want::Header("v".into()) };
            watch(&mut actions, &mut wants, false, "'v'".into(), format!("request.headers['{name}'] == {}", quote(&vals.join(","))), want);
        }
    }
    let distinct: std::collections::BTreeSet<&String> = hs.iter().map(|(k, _)| k).collect();
    // counted before any action adds to them
    let mut first = vec![];
    if rng.pct(30) {
        watch(&mut first, &mut wants, false, "string(request.headers.size())".into(), "true".into(), Want::Header(distinct.len().to_string()));
    }
    // the gRPC service and method of the request
    if rng.pct(40) && late != Some("request.url_path") && !errors.iter().any(|e| e == "request.url_path") {
        let url = match used.get("request.url_path") {
            Some((_, Val::Str(s))) => Some(s.clone()),
            Some(_) => None,
            None => {
                let p = rng.pick(&["/pkg.Svc/Do", "/pkg.Svc/", "/pkg.Svc/Do/More", "/p", "//x", "/a/b", "pkg.Svc/Do"]).to_string();
                prop(&mut st, "request.url_path", p.as_bytes());
                Some(p)
            }
        };
        let parts = url.as_deref().and_then(|u| {
            let v: Vec<&str> = u.split('/').collect();
            (v.len() == 3 && v[0].is_empty() && !v[1].is_empty() && !v[2].is_empty()).then(|| (v[1].to_string(), v[2].to_string()))
        });
        let want = match (grpc_ct.starts_with("application/grpc"), parts) {
            (true, Some((s, m))) => {
                cov.state("grpc_request");
                Want::Header(format!("{s}:{m}"))
            }
            _ => {
                cov.state("not_grpc");
                Want::Nothing
            }
        };
        watch(&mut actions, &mut wants, false, "request.grpc.service + ':' + request.grpc.method".into(), "true".into(), want);
    }
    if rng.pct(50) {
        // the order of the actions doesn't matter
        let mut order: Vec<usize> = (0..actions.len()).collect();
        rng.shuffle(&mut order);
        actions = order.into_iter().map(|i| actions[i].clone()).collect();
    }
    actions.splice(0..0, first);
    if actions.is_empty() {
        return Ok(());
    }
    let cfg = json!({"services": {"s": svc("ratelimit", "cl", "allow")}, "actionSets": [aset("x", "a.com", actions)]}).to_string();
    let mut w = World::new();
    if !w.configure(&cfg) {
        return Err(Violation::new("config-rejected", "a valid configuration was rejected").cfg(&cfg));
    }
    let shown = format!("{cfg}\n{:?}\nheaders {hs:?}", st.props.iter().map(|(k, v)| (k.join("."), String::from_utf8_lossy(v).chars().take(60).collect::<String>())).collect::<Vec<_>>());
    let ctx = w.new_stream(st);
    let early = Rc::new(Cell::new(true));
    let (e2, late2) = (early.clone(), late.map(|l| l.to_string()));
    sim::with(|h| {
        h.faults = Some(Box::new(move |_, k, what| {
            if k != Kind::GetProperty {
                return None;
            }
            if errors.iter().any(|e| e == what) {
                return Some(Status::InternalFailure);
            }
            (e2.get() && late2.as_deref() == Some(what)).then_some(Status::BadArgument)
        }))
    });
    let mark = World::mark();
    w.request_headers(ctx, true);
    let look = |now_late: bool| -> Result<(), Violation> {
        let s = seen(mark);
        if let Some(p) = s.panics.first() {
            return Err(fail("panic", p.clone(), &shown, mark));
        }
        if !s.replies.is_empty() {
            return Err(fail("reply", format!("a reply nothing calls for: {:?}", s.replies), &shown, mark));
        }
        let (req, resp) = (req_headers(ctx), resp_headers(ctx));
        for (h, l, want, expr) in &wants {
            let hs = if *l { &resp } else { &req };
            let got: Vec<&String> = hs.iter().filter(|(k, _)| k == h).map(|(_, v)| v).collect();
            let ok = match want {
                _ if *l && !now_late => got.is_empty(),
                Want::Header(v) => got.len() == 1 && got[0] == v,
                Want::Nothing => got.is_empty(),
            };
            if !ok {
                let at = if now_late { "response" } else { "request" };
                return Err(fail("attribute-value", format!("at the {at}: {expr} gave {got:?}, expected {want:?}"), &shown, mark));
            }
        }
        let mut sent: Vec<String> = s.calls.iter().map(|(_, c)| pb::get_str(&pb::dec(&c.message).unwrap_or_default(), 1)).collect();
        let mut due: Vec<String> = msgs.iter().filter(|m| now_late || !m.1).filter_map(|m| m.0.clone()).collect();
        sent.sort();
        due.sort();
        if sent != due {
            return Err(fail("attribute-message", format!("messages {sent:?}, expected {due:?}"), &shown, mark));
        }
        Ok(())
    };
    look(false)?;
    early.set(false);
    respond(ctx, vec![(":status".into(), "200".into())]);
    w.response_headers(ctx, false);
    look(true)?;
    for t in w.outstanding(ctx) {
        w.grpc_reply(t, 0, Some(pb::rl_response(1, &[])));
    }
    buffer(ctx, true, None);
    w.response_body(ctx, 0, true);
    look(true)?;
    w.log_done(ctx);
    w.destroy(ctx);
    cov.events += 5 + wants.len() as u64;
    let key: Vec<String> = used.iter().map(|(n, (_, v))| format!("{n}{:?}", std::mem::discriminant(v))).collect();
    cov.distinct(&format!("{key:?}|{late:?}|{}", wants.len()));
    cov.sample(wants.first().map(|w| w.3.clone()).unwrap_or_default().chars().take(200).collect::<String>());
    Ok(())
}

pub static G14: Prop = Prop {
    id: "G14",
    level: "exploration",
    rule: "a case counts as distinct by the attributes it reads, what each holds (text, number, absent, undecodable ...), which of them comes late, and the number of expressions",
    quick: 6000,
    thorough: 150000,
    case: g14,
    probes: &[],
    need: &["string", "int", "uint", "bool", "time", "json", "null", "undecodable", "late", "in_message", "repeated_header", "grpc_request", "not_grpc", "peer_ipv4", "peer_ipv6", "nested"],
    assumptions: super::pipeline::ASSUME,
};
