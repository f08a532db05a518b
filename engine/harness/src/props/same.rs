//! Configurations that say the same thing in other words (used by G29).
use super::kit::*;
use crate::rng::Rng;
use serde_json::{json, Value as J};

fn actions_of(c: &mut J, f: &mut dyn FnMut(&mut Vec<J>, bool)) {
    fn go(list: &mut Vec<J>, top: bool, f: &mut dyn FnMut(&mut Vec<J>, bool)) {
        for a in list.iter_mut() {
            if let Some(l) = a["onReply"].as_array_mut() {
                go(l, false, f);
            } else if a.get("onReply").is_some_and(|x| x.is_null()) {
                a.as_object_mut().unwrap().remove("onReply");
            }
        }
        f(list, top);
    }
    for s in c["actionSets"].as_array_mut().unwrap() {
        go(s["actions"].as_array_mut().unwrap(), true, f);
    }
}

fn idle(rng: &mut Rng, services: &[String]) -> J {
    let never = *rng.pick(&["false", "request.method == 'NOBODY'", "1 > 2", "!(true)"]);
    let mut a = match rng.below(6) {
        0 => deny("DenyResponse { status: 499u }", never),
        1 => set_headers(false, "[['x-never', '1']]", never),
        2 => set_headers(true, "[['x-never', '1']]", never),
        3 => store(rng.pick(&["never.saved", "zz", "request_id.x"]), "'never'", never, rng.pct(50)),
        4 => json!({"type": "fail", "logMessage": "never", "predicate": never, "terminal": rng.pct(50)}),
        _ => {
            let s = rng.pick(services).clone();
            let mut a = call(&s, "never", "'never'", vec![]);
            a["predicate"] = json!(never);
            a["isGuard"] = json!(rng.pct(50));
            a
        }
    };
    if a["type"] != "grpc" {
        a["terminal"] = json!(rng.pct(50));
    }
    a
}

fn rename_services(c: &mut J) {
    let old = c["services"].as_object().unwrap().clone();
    let name = |n: &str| format!("the {n} é.x");
    c["services"] = J::Object(old.iter().map(|(k, v)| (name(k), v.clone())).collect());
    actions_of(c, &mut |l, _| {
        for a in l.iter_mut() {
            if let Some(s) = a["service"].as_str() {
                a["service"] = json!(name(s));
            } else if a.get("service").is_some_and(|x| x.is_null()) {
                a.as_object_mut().unwrap().remove("service");
            }
        }
    });
    if let Some(s) = c["observability"]["tracing"]["service"].as_str() {
        c["observability"]["tracing"]["service"] = json!(name(s));
    } else if let Some(o) = c["observability"].as_object_mut() {
        o.remove("tracing");
    }
}

/// Gives the variables v0, v1, ... of replies other names, wherever they are used.
fn rename_variables(c: &mut J, how: usize) {
    match c {
        J::Object(m) => m.values_mut().for_each(|v| rename_variables(v, how)),
        J::Array(l) => l.iter_mut().for_each(|v| rename_variables(v, how)),
        J::String(s) => {
            let (mut out, mut before, mut rest) = (String::new(), ' ', s.as_str());
            while let Some(ch) = rest.chars().next() {
                let digits = rest[ch.len_utf8()..].chars().take_while(char::is_ascii_digit).count();
                let whole = |c: Option<char>| !c.is_some_and(|c| c.is_alphanumeric() || c == '_');
                if ch == 'v' && digits > 0 && before != '.' && whole(Some(before)) && whole(rest[1 + digits..].chars().next()) {
                    let n = &rest[1..1 + digits];
                    out.push_str(&match how {
                        0 => format!("reply_{n}"),
                        1 => format!("v{n}1"),
                        _ => format!("{}V", "x".repeat(n.parse::<usize>().unwrap_or(0) + 1)),
                    });
                    before = 'v';
                    rest = &rest[1 + digits..];
                } else {
                    out.push(ch);
                    before = ch;
                    rest = &rest[ch.len_utf8()..];
                }
            }
            *s = out;
        }
        _ => {}
    }
}

fn typed(a: &J) -> bool {
    a.get("type").is_some_and(|t| t.is_string())
}

/// Writes JSON with keys in any order, blanks anywhere and characters escaped at will.
fn write(rng: &mut Rng, v: &J, out: &mut String) {
    let blank = |rng: &mut Rng, out: &mut String| {
        if rng.pct(15) {
            out.push_str(rng.pick(&[" ", "\n", "\t", "\r\n  "]));
        }
    };
    match v {
        J::Object(m) => {
            let mut keys: Vec<&String> = m.keys().collect();
            rng.shuffle(&mut keys);
            out.push('{');
            for (i, k) in keys.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                blank(rng, out);
                write(rng, &json!(k), out);
                blank(rng, out);
                out.push(':');
                write(rng, &m[*k], out);
            }
            blank(rng, out);
            out.push('}');
        }
        J::Array(l) => {
            out.push('[');
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                blank(rng, out);
                write(rng, x, out);
                blank(rng, out);
            }
            out.push(']');
        }
        J::String(s) => {
            out.push('"');
            for ch in s.chars() {
                if (ch as u32) < 0x20 || ch == '"' || ch == '\\' || rng.pct(1) {
                    let mut b = [0; 2];
                    for u in ch.encode_utf16(&mut b) {
                        out.push_str(&format!("\\u{u:04x}"));
                    }
                } else {
                    out.push(ch);
                }
            }
            out.push('"');
        }
        v => out.push_str(&v.to_string()),
    }
}

/// Durations that are the same.
pub const TIMEOUTS: &[&[&str]] = &[
    &["20ms", "0.02s", "20000us", "20000000ns"],
    &["100ms", "0.1s", "100000us", "0s100ms"],
    &["1500ms", "1.5s", "1s500ms", "0.5s1s"],
    &["90s", "1m30s", "1.5m", "90000ms"],
    &["2h", "120m", "7200s", "1h60m", "1.5h30m"],
    &["7ms", "7000us", "0.007s"],
];

pub const KINDS: &[&str] = &["unused_services", "other_hosts", "renamed_services", "renamed_sets", "renamed_variables", "idle_actions", "defaults", "parentheses", "more_hostnames", "hostname_case", "split_sets", "moved_sets", "spelling"];

/// Another configuration by which every request is served the same, and what was done to it.
pub fn other_words(rng: &mut Rng, config: &J) -> (String, Vec<&'static str>) {
    let mut c = config.clone();
    let mut done = vec![];
    for kind in KINDS {
        if !rng.pct(30) {
            continue;
        }
        done.push(*kind);
        match *kind {
            "unused_services" => {
                for i in 0..rng.range(1, 3) {
                    let mut s = svc(rng.pick(&["auth", "ratelimit", "ratelimit-check", "ratelimit-report", "tracing", "dynamic"]), rng.pick(&["unused", "rl-cluster", "dyn-cluster", "otel"]), rng.pick(&["allow", "deny"]));
                    if s["type"] == "dynamic" {
                        s["grpcService"] = json!(format!("un.used.S{i}"));
                        s["grpcMethod"] = json!("Do");
                    }
                    c["services"][format!("{}{i}", rng.pick(&["a", "unused", "z"]))] = s;
                }
            }
            "other_hosts" => {
                for i in 0..rng.range(1, 4) {
                    let host = *rng.pick(&["other.example", "*.other.example", "h1.test.example", "1.test", "hh1.test", "a.h1.test", "*.h1.test"]);
                    let s = aset("elsewhere", host, vec![deny("DenyResponse { status: 498u }", "true"), json!({"service": "rl", "scope": "elsewhere"})]);
                    let mut s = s;
                    s["actions"].as_array_mut().unwrap().truncate(1);
                    if i > 1 {
                        s["routeRuleConditions"]["predicates"] = json!(["request.method == 'GET'"]);
                    }
                    let l = c["actionSets"].as_array_mut().unwrap();
                    let at = rng.below(l.len() + 1);
                    l.insert(at, s);
                }
            }
            "renamed_services" => rename_services(&mut c),
            "renamed_sets" => {
                for s in c["actionSets"].as_array_mut().unwrap() {
                    s["name"] = json!(*rng.pick(&["", "same", "é/x", "a.b.c"]));
                }
            }
            "renamed_variables" => {
                let how = rng.below(3);
                rename_variables(&mut c["actionSets"], how);
            }
            "idle_actions" => {
                let services: Vec<String> = c["services"].as_object().unwrap().iter().filter(|(_, v)| v["type"] == "ratelimit").map(|(k, _)| k.clone()).collect();
                actions_of(&mut c, &mut |l, top| {
                    if l.is_empty() && !top {
                        return; // a reply nothing is done about isn't read either
                    }
                    // a short-form action waits for the one before it, typed ones that are idle for none
                    let short = l.iter().any(|a| !typed(a));
                    for _ in 0..rng.below(3) {
                        let at = rng.below(l.len() + 1);
                        let a = if short { json!({"service": rng.pick(&services), "scope": "never", "predicates": [*rng.pick(&["false", "request.method == 'NOBODY'"])]}) } else { idle(rng, &services) };
                        l.insert(at, a);
                    }
                });
            }
            "defaults" => {
                actions_of(&mut c, &mut |l, top| {
                    for a in l.iter_mut() {
                        let is_typed = typed(a);
                        let store = a["type"] == "store";
                        let o = a.as_object_mut().unwrap();
                        if is_typed {
                            if o["type"] == "grpc" && rng.pct(50) {
                                o.entry("label").or_insert(json!(""));
                                o.entry("onReply").or_insert(json!([]));
                            }
                            let mut d = vec![("isGuard", json!(true)), ("sources", json!([]))];
                            if top {
                                d.push(("execution", json!("parallel")));
                            }
                            if store {
                                d.push(("exportToHost", json!(false)));
                            }
                            for (k, v) in d {
                                if rng.pct(50) {
                                    o.entry(k).or_insert(v);
                                }
                            }
                        } else {
                            for (k, v) in [("predicates", json!([])), ("conditionalData", json!([])), ("sources", json!([]))] {
                                if rng.pct(50) {
                                    o.entry(k).or_insert(v);
                                }
                            }
                        }
                    }
                });
                for (_, s) in c["services"].as_object_mut().unwrap() {
                    let o = s.as_object_mut().unwrap();
                    o.entry("failureMode").or_insert(json!("deny"));
                    if o["type"] != "dynamic" && rng.pct(20) {
                        o.entry("grpcService").or_insert(J::Null);
                        o.entry("grpcMethod").or_insert(J::Null);
                    }
                    let now = o.get("timeout").and_then(|t| t.as_str()).unwrap_or("20ms").to_string();
                    if let Some(same) = TIMEOUTS.iter().find(|t| t.contains(&now.as_str())) {
                        o.insert("timeout".into(), json!(*rng.pick(same)));
                        if same[0] == "20ms" && rng.pct(40) {
                            o.remove("timeout");
                        }
                    }
                }
                for s in c["actionSets"].as_array_mut().unwrap() {
                    let o = s["routeRuleConditions"].as_object_mut().unwrap();
                    if rng.pct(50) {
                        o.entry("predicates").or_insert(json!([]));
                    }
                }
                let o = c.as_object_mut().unwrap();
                for (k, v) in [("requestData", json!({})), ("observability", json!({})), ("descriptorService", json!("kuadrant-operator-grpc"))] {
                    if rng.pct(40) {
                        o.entry(k).or_insert(v);
                    }
                }
                if let Some(o) = o.get_mut("observability").and_then(|o| o.as_object_mut()) {
                    for k in ["httpHeaderIdentifier", "defaultLevel", "tracing"] {
                        if rng.pct(40) {
                            o.entry(k).or_insert(J::Null);
                        }
                    }
                }
            }
            "parentheses" => {
                actions_of(&mut c, &mut |l, _| {
                    for a in l.iter_mut().filter(|a| typed(a)) {
                        let o = a.as_object_mut().unwrap();
                        for k in ["predicate", "value", "headers", "denyWith", "messageBuilder"] {
                            if let Some(J::String(e)) = o.get_mut(k) {
                                if rng.pct(50) {
                                    *e = match rng.below(3) {
                                        0 => format!("({e})"),
                                        1 => format!(" \n( {e} )\t"),
                                        _ => format!("((({e})))"),
                                    };
                                }
                            }
                        }
                    }
                });
            }
            "more_hostnames" => {
                for s in c["actionSets"].as_array_mut().unwrap() {
                    let h = s["routeRuleConditions"]["hostnames"].as_array_mut().unwrap();
                    let at = rng.below(h.len() + 1);
                    h.insert(at, json!(*rng.pick(&["more.example", "*.more.example", "h9.test.more", "x.h0.test.more"])));
                    if rng.pct(30) {
                        rng.shuffle(h);
                    }
                }
            }
            "hostname_case" => {
                for s in c["actionSets"].as_array_mut().unwrap() {
                    for h in s["routeRuleConditions"]["hostnames"].as_array_mut().unwrap() {
                        *h = json!(h.as_str().unwrap().chars().map(|x| if rng.pct(50) { x.to_ascii_uppercase() } else { x }).collect::<String>());
                    }
                }
            }
            "split_sets" => {
                let l = c["actionSets"].as_array_mut().unwrap();
                let i = rng.below(l.len());
                let hosts: Vec<J> = l[i]["routeRuleConditions"]["hostnames"].as_array().unwrap().clone();
                if hosts.len() > 1 {
                    let mut two = l[i].clone();
                    l[i]["routeRuleConditions"]["hostnames"] = json!(hosts[..1]);
                    two["routeRuleConditions"]["hostnames"] = json!(hosts[1..]);
                    l.insert(i + usize::from(rng.pct(50)), two);
                }
            }
            "moved_sets" => {
                let l = c["actionSets"].as_array_mut().unwrap();
                let hosts = |s: &J| -> Vec<String> { s["routeRuleConditions"]["hostnames"].as_array().unwrap().iter().map(|h| h.as_str().unwrap().to_ascii_lowercase()).collect() };
                for _ in 0..4 {
                    if l.len() > 1 {
                        let i = rng.below(l.len() - 1);
                        let (a, b) = (hosts(&l[i]), hosts(&l[i + 1]));
                        if !a.iter().any(|h| b.contains(h)) {
                            l.swap(i, i + 1);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let mut text = String::new();
    if done.contains(&"spelling") || rng.pct(30) {
        write(rng, &c, &mut text);
    } else {
        text = c.to_string();
    }
    (text, done)
}
