//! Which action set governs a request: a reference selection over random route tables.
use crate::pb;
use crate::prop::*;
use crate::rng::Rng;
use crate::world::World;
use proxy_wasm::sim::{self, Ev, Kind, Rec, Stream};
use proxy_wasm::types::{Action, Status};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

const LABELS: &[&str] = &["a", "b", "ab", "ba", "toys", "toy", "example", "examples", "com", "co", "org", "x-1", "n0"];

#[derive(Clone, Debug)]
enum P {
    Is(String, bool),
    Broken,
}

#[derive(Clone, Debug)]
struct Set {
    hosts: Vec<String>,
    preds: Vec<P>,
    /// refuses the request itself rather than calling a service
    deny: bool,
    empty: bool,
}

fn name(rng: &mut Rng, labels: usize) -> String {
    (0..labels).map(|_| *rng.pick(LABELS)).collect::<Vec<_>>().join(".")
}

fn case_mix(rng: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if rng.pct(40) { c.to_ascii_uppercase() } else { c }).collect()
}

/// a hostname of the table, or one close to it
fn related(rng: &mut Rng, pool: &[String]) -> String {
    if pool.is_empty() || rng.pct(15) {
        let n = rng.range(1, 4);
        return name(rng, n);
    }
    let base = rng.pick(pool).clone();
    let bare = base.strip_prefix("*.").unwrap_or(if base == "*" { "com" } else { &base }).to_string();
    match rng.below(10) {
        // an address has no labels
        0..=7 | 9 if bare.starts_with('[') => bare,
        0 | 1 => bare,
        // characters that mean something to some table of routes
        7 => format!("{}{bare}", rng.pick(&["$", "a.$", "*.", "*", "a$.", "$.", "%2e", "^", "a.*.", "/", "_"])),
        8 => rng.pick(&["[::1]", "[2001:db8::7]", "[2001:db8::8]", "10.1.2.3"]).to_string(),
        2 => format!("{}.{bare}", rng.pick(LABELS)),
        3 => format!("{}.{}.{bare}", rng.pick(LABELS), rng.pick(LABELS)),
        // shares a suffix of characters but not of labels
        4 => format!("{}{bare}", rng.pick(&["a", "x", "toy", "x-"])),
        5 => bare.split_once('.').map_or(bare.clone(), |(_, r)| r.to_string()),
        6 => format!("{bare}.{}", rng.pick(LABELS)),
        _ => bare.chars().skip(1).collect::<String>().trim_start_matches('.').to_string(),
    }
}

/// How specific a declared hostname is for `host`: None if it doesn't match.
fn rank(declared: &str, host: &str) -> Option<usize> {
    let d = declared.to_ascii_lowercase();
    if d == host {
        return Some(usize::MAX);
    }
    if d == "*" {
        return Some(0);
    }
    let suffix = d.strip_prefix('*')?;
    (host.len() > suffix.len() && host.ends_with(suffix)).then_some(suffix.len())
}

fn pred(rng: &mut Rng, headers: &BTreeMap<String, String>, path: &str, method: &str) -> P {
    let p: Vec<(String, bool)> = vec![
        ("request.method == 'GET'".into(), method == "GET"),
        ("request.method != 'GET'".into(), method != "GET"),
        ("request.url_path.startsWith('/toys')".into(), path.starts_with("/toys")),
        ("request.url_path == '/'".into(), path == "/"),
        ("'x-v' in request.headers".into(), headers.contains_key("x-v")),
        ("('x-v' in request.headers) && request.headers['x-v'] == '1'".into(), headers.get("x-v").is_some_and(|v| v == "1")),
        ("source.port > 2000".into(), true),
        ("request.url_path.matches('^/(toys|cars)(/.*)?$')".into(), ["/toys", "/cars"].iter().any(|r| path == *r || path.starts_with(&format!("{r}/")))),
    ];
    let (c, v) = rng.pick(&p).clone();
    P::Is(c, v)
}

fn cel(p: &P) -> String {
    match p {
        P::Is(c, _) => c.clone(),
        P::Broken => "request.headers['x-never-there'] == '1'".into(),
    }
}

#[derive(Debug, PartialEq)]
enum Want {
    Set(usize),
    Nothing,
    /// devMode only: the tracking header is still added
    Tracked,
    Broken,
}

fn g06(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let method = *rng.pick(&["GET", "POST"]);
    let path = rng.pick(&["/", "/toys", "/toys/1", "/cars/2/x", "/carsx", "/other"]).to_string();
    let mut headers: BTreeMap<String, String> = BTreeMap::new();
    if rng.pct(50) {
        headers.insert("x-v".into(), rng.pick(&["1", "2"]).to_string());
    }
    let mut pool: Vec<String> = vec![];
    let n = if rng.pct(10) { rng.range(8, 24) } else { rng.range(1, 6) };
    let mut sets = vec![];
    for _ in 0..n {
        let nh = rng.range(1, 3);
        let mut hosts = vec![];
        for _ in 0..nh {
            let h = if !pool.is_empty() && rng.pct(45) {
                rng.pick(&pool).clone()
            } else {
                let base = related(rng, &pool);
                match rng.below(10) {
                    0 => "*".to_string(),
                    1..=4 if base.contains(['[', '*']) => base,
                    1..=4 => format!("*.{base}"),
                    _ => base,
                }
            };
            if h.is_empty() || h == "*." || (h.starts_with('*') && h != "*" && !h.starts_with("*.")) || hosts.contains(&h) {
                continue;
            }
            pool.push(h.clone());
            hosts.push(h);
        }
        if hosts.is_empty() {
            hosts.push("example.com".into());
        }
        let np = if rng.pct(55) { rng.range(1, 2) } else { 0 };
        let mut preds: Vec<P> = (0..np).map(|_| pred(rng, &headers, &path, method)).collect();
        if rng.pct(6) {
            preds = vec![P::Broken];
        }
        sets.push(Set { hosts, preds, deny: rng.pct(25), empty: rng.pct(4) });
    }
    let tracker = rng.pct(25);
    let cfg_hosts: Vec<Vec<String>> =
        sets.iter().map(|s| s.hosts.iter().map(|h| if rng.pct(20) { case_mix(rng, h) } else { h.clone() }).collect()).collect();
    // the name of an action set identifies nothing: rules of one route may share it
    let names = if rng.pct(20) { rng.range(1, 2) } else { usize::MAX };
    let acts: Vec<J> = sets
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let a = if s.deny {
                json!({"type": "deny", "predicate": "true", "terminal": true, "denyWith": format!("DenyResponse {{ status: {}u }}", 400 + i)})
            } else {
                json!({"service": format!("s{i}"), "scope": format!("scope-{i}")})
            };
            json!({"name": format!("set-{}", i % names),
                "routeRuleConditions": {"hostnames": cfg_hosts[i], "predicates": s.preds.iter().map(cel).collect::<Vec<_>>()},
                "actions": if s.empty { vec![] } else { vec![a] }})
        })
        .collect();
    let services: serde_json::Map<String, J> = (0..sets.len())
        .map(|i| (format!("s{i}"), json!({"type": "ratelimit", "endpoint": format!("cl{i}"), "failureMode": "deny", "timeout": "1s"})))
        .collect();
    let mut cfg = json!({"services": services, "actionSets": acts});
    if tracker {
        cfg["observability"] = json!({"httpHeaderIdentifier": "x-kuadrant-id"});
    }
    let text = cfg.to_string();
    let mut w = World::new();
    if !w.configure(&text) {
        return Err(Violation::new("config-rejected", "a valid configuration was rejected").cfg(&text));
    }
    for _ in 0..rng.range(1, 4) {
        let host = related(rng, &pool);
        if host.is_empty() {
            continue;
        }
        // the oracle
        let best = sets.iter().flat_map(|s| &s.hosts).filter_map(|h| rank(h, &host)).max();
        let want = match best {
            None => Want::Nothing,
            Some(b) => {
                let mut r = if tracker { Want::Tracked } else { Want::Nothing };
                for (i, s) in sets.iter().enumerate().filter(|(_, s)| s.hosts.iter().any(|h| rank(h, &host) == Some(b))) {
                    if s.preds.iter().any(|p| matches!(p, P::Broken)) {
                        r = Want::Broken;
                        break;
                    }
                    if s.preds.iter().all(|p| matches!(p, P::Is(_, true))) {
                        r = if !s.empty {
                            Want::Set(i)
                        } else if tracker {
                            Want::Tracked
                        } else {
                            Want::Nothing
                        };
                        break;
                    }
                }
                r
            }
        };
        let mut sent = if rng.pct(30) { case_mix(rng, &host) } else { host.clone() };
        if rng.pct(30) {
            sent = format!("{sent}:{}", rng.pick(&["80", "8443"]));
        }
        let mut props: BTreeMap<Vec<String>, Vec<u8>> = BTreeMap::new();
        let mut put = |p: [&str; 2], v: &[u8]| {
            props.insert(p.iter().map(|s| s.to_string()).collect(), v.to_vec());
        };
        put(["request", "host"], sent.as_bytes());
        put(["request", "method"], method.as_bytes());
        put(["request", "path"], path.as_bytes());
        put(["request", "url_path"], path.as_bytes());
        put(["source", "port"], &4567i64.to_le_bytes());
        let lost = rng.pct(3);
        if lost {
            if rng.pct(50) {
                props.remove(&vec!["request".to_string(), "host".to_string()]);
            } else {
                sim::with(|h| h.faults = Some(Box::new(|_, k, what| (k == Kind::GetProperty && what == "request.host").then_some(Status::InternalFailure))));
            }
        }
        let want = if lost { Want::Broken } else { want };
        let mut hs: Vec<(String, String)> =
            vec![(":authority".into(), sent.clone()), (":method".into(), method.into()), (":path".into(), path.clone()), ("x-request-id".into(), "id-1".into())];
        hs.extend(headers.clone());
        let ctx = w.new_stream(Stream { props, req_headers: Some(hs), ..Default::default() });
        let mark = World::mark();
        let eos = rng.pct(50);
        let a = w.request_headers(ctx, eos);
        let fail = |sig: &str, d: String| {
            let mut v = Violation::new(sig, format!("host {sent:?} {method} {path} {headers:?}: {d}")).cfg(&text);
            v.trace = World::since(mark).iter().map(|r| crate::flight::show(&r.ev)).collect();
            v
        };
        let recs: Vec<Rec> = World::since(mark);
        sim::with(|h| h.faults = None);
        let mut got = vec![];
        for r in &recs {
            match &r.ev {
                Ev::Dispatch(_, c) => {
                    let m = pb::dec(&c.message).unwrap_or_default();
                    let i: usize = c.upstream.trim_start_matches("cl").parse().unwrap_or(999);
                    if pb::get_str(&m, 1) != format!("scope-{i}") {
                        return Err(fail("route-scope", format!("cl{i} asked about {:?}", pb::get_str(&m, 1))));
                    }
                    got.push(Want::Set(i));
                }
                Ev::Reply { status: 500, .. } => got.push(Want::Broken),
                Ev::Reply { status, .. } => got.push(Want::Set(*status as usize - 400)),
                Ev::SetMap(..) | Ev::SetProp(..) => got.push(Want::Tracked),
                Ev::Panic(p) => return Err(fail("route-panic", p.clone())),
                _ => {}
            }
        }
        let expect: Vec<Want> = match want {
            Want::Set(i) => vec![Want::Set(i)],
            Want::Broken => vec![Want::Broken],
            _ => vec![],
        };
        if got != expect {
            return Err(fail("route-selection", format!("got {got:?}, expected {want:?}")));
        }
        let paused = matches!(want, Want::Set(i) if !sets[i].deny);
        // after a local reply what the callback returns is moot
        if !matches!(want, Want::Broken) && !matches!(want, Want::Set(i) if sets[i].deny) && paused != (a == Action::Pause) {
            return Err(fail("route-hold", format!("returned {a:?}")));
        }
        // requests nothing governs go all the way through untouched
        if matches!(want, Want::Nothing | Want::Tracked) {
            let mut acts = vec![];
            if !eos {
                sim::with(|h| h.streams.get_mut(&ctx).unwrap().req_buf = Some(b"{}".to_vec()));
                acts.push(w.request_body(ctx, 2, true));
            }
            sim::with(|h| h.streams.get_mut(&ctx).unwrap().resp_headers = Some(vec![(":status".into(), "200".into())]));
            acts.push(w.response_headers(ctx, false));
            sim::with(|h| h.streams.get_mut(&ctx).unwrap().resp_buf = Some(b"{}".to_vec()));
            acts.push(w.response_body(ctx, 2, true));
            if acts.iter().any(|a| *a != Action::Continue) {
                return Err(fail("route-untouched", format!("an ungoverned request was held: {acts:?}")));
            }
            let mut sets = 0;
            for r in World::since(mark) {
                match &r.ev {
                    Ev::SetMap(_, m) if want == Want::Tracked && m.len() == 2 && m.contains(&("x-kuadrant-id".into(), "id-1".into())) => sets += 1,
                    Ev::SetMap(..) | Ev::Reply { .. } | Ev::Dispatch(..) | Ev::SetProp(..) => {
                        return Err(fail("route-untouched", format!("an ungoverned request was touched: {:?}", r.ev)))
                    }
                    _ => {}
                }
            }
            if want == Want::Tracked && sets != 1 {
                return Err(fail("route-tracked", "the tracking header was not added to the response".into()));
            }
        }
        for t in w.outstanding(ctx) {
            w.grpc_reply(t, 0, Some(pb::rl_response(1, &[])));
        }
        w.destroy(ctx);
        cov.events += 1;
        let same: Vec<usize> = match best {
            Some(b) => (0..sets.len()).filter(|i| sets[*i].hosts.iter().any(|h| rank(h, &host) == Some(b))).collect(),
            None => vec![],
        };
        let all = sets.iter().flat_map(|s| &s.hosts).filter(|h| rank(h, &host).is_some()).count();
        match want {
            Want::Set(_) => cov.state("selected"),
            Want::Nothing if best.is_some() => cov.state("no_predicate_matched"),
            Want::Nothing => cov.state("no_host_matched"),
            Want::Tracked => cov.state("tracked_only"),
            Want::Broken if lost => cov.state("host_unknown"),
            Want::Broken => cov.state("broken_predicate"),
        }
        match best {
            Some(usize::MAX) if host.starts_with('[') => cov.state("address"),
            Some(usize::MAX) => cov.state("exact"),
            Some(0) => cov.state("catch_all"),
            Some(_) => cov.state("wildcard"),
            None => {}
        }
        if all > 1 {
            cov.state("overlapping_hosts");
        }
        if same.len() > 1 {
            cov.state("several_sets_for_host");
        }
        cov.distinct(&format!("{want:?}|{best:?}|{}|{all}|{same:?}", host.split('.').count()));
        if all > 2 {
            cov.sample(format!("host {sent:?} over {cfg_hosts:?} -> {want:?}"));
        }
    }
    Ok(())
}

pub static G06: Prop = Prop {
    id: "G06",
    level: "exploration",
    rule: "a request counts as distinct by the outcome, the specificity of the hostname that won, the number of labels of its host, and how many declared hostnames and action sets competed for it",
    quick: 12000,
    thorough: 400000,
    case: g06,
    probes: &[],
    need: &["selected", "no_predicate_matched", "no_host_matched", "tracked_only", "host_unknown", "broken_predicate", "address", "exact", "catch_all", "wildcard", "overlapping_hosts", "several_sets_for_host"],
    assumptions: super::pipeline::ASSUME,
};
