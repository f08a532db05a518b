//! Counters around configuration and routing.
use crate::prop::*;
use crate::rng::Rng;
use crate::world::World;
use proxy_wasm::sim::{Ev, Stream};
use serde_json::json;
use std::collections::BTreeMap;

fn metrics(mark: usize) -> Vec<(String, i64)> {
    let mut m: BTreeMap<String, i64> = BTreeMap::new();
    for r in World::since(mark) {
        if let Ev::Metric(n, k) = r.ev {
            *m.entry(n).or_default() += k;
        }
    }
    m.into_iter().collect()
}

pub fn configs_and_build_errors(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let mut w = World::new();
    let good = json!({"services": {"s": {"type": "ratelimit", "endpoint": "cl", "failureMode": "deny"}},
        "actionSets": [
            {"name": "a", "routeRuleConditions": {"hostnames": ["a.com"]}, "actions": [{"service": "s", "scope": "x"}]},
            {"name": "b", "routeRuleConditions": {"hostnames": ["b.com"], "predicates": ["request.headers['nope'] == '1'"]}, "actions": [{"service": "s", "scope": "x"}]},
            {"name": "c", "routeRuleConditions": {"hostnames": ["c.com"], "predicates": ["false"]}, "actions": [{"service": "s", "scope": "x"}]},
            {"name": "d", "routeRuleConditions": {"hostnames": ["d.com"]}, "actions": []}]})
    .to_string();
    let bad = rng.pick(&["{", "[]", "{\"services\":{}}x", "{\"services\":{},\"actionSets\":[{\"name\":\"x\",\"routeRuleConditions\":{\"hostnames\":[\"a\"],\"predicates\":[\"!!\"]},\"actions\":[]}]}"]).to_string();
    let mut loaded = false;
    for _ in 0..rng.range(2, 7) {
        let mark = World::mark();
        let (what, want): (String, Vec<(String, i64)>) = if !loaded || rng.pct(25) {
            let text = if rng.pct(60) { &good } else { &bad };
            let ok = w.configure(text);
            if ok != (*text == good) {
                return Err(Violation::new("config-verdict", format!("configuration accepted: {ok}")).cfg(text));
            }
            loaded |= ok;
            cov.state(if ok { "config_loaded" } else { "config_rejected" });
            (format!("configure, accepted {ok}"), vec![("kuadrant.configs".into(), 1)])
        } else {
            let host = *rng.pick(&["a.com", "b.com", "c.com", "d.com", "zzz.com", ""]);
            let mut s = Stream { req_headers: Some(vec![(":authority".into(), host.into())]), ..Default::default() };
            if !host.is_empty() {
                s.props.insert(vec!["request".into(), "host".into()], host.as_bytes().to_vec());
            }
            let ctx = w.new_stream(s);
            w.request_headers(ctx, true);
            let mut want = match host {
                "a.com" => vec![("kuadrant.hits".to_string(), 1)],
                "b.com" | "" => vec![("kuadrant.errors".to_string(), 1)],
                _ => vec![("kuadrant.misses".to_string(), 1)],
            };
            cov.state(match host {
                "a.com" => "hit",
                "b.com" | "" => "build_error",
                _ => "miss",
            });
            if host == "a.com" {
                match w.outstanding(ctx).first() {
                    Some(t) if rng.pct(70) => {
                        let (code, m) = *rng.pick(&[(1i64, None), (2, Some("kuadrant.denied"))]);
                        w.grpc_reply(*t, 0, Some(crate::pb::rl_response(code, &[])));
                        want.extend(m.map(|m| (m.to_string(), 1)));
                    }
                    _ => {}
                }
            }
            w.destroy(ctx);
            want.sort();
            (format!("request for {host:?}"), want)
        };
        let got = metrics(mark);
        cov.events += 1;
        if got != want {
            return Err(Violation::new("counters", format!("{what}: counted {got:?}, expected {want:?}")).cfg(&good));
        }
    }
    cov.distinct(&format!("counters|{}|{}", bad.len(), World::mark()));
    Ok(())
}
