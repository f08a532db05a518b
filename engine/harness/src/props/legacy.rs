//! Auth and rate-limit actions in their documented short form: what reaches the policy
//! services and what their answers do to the request, checked on the wire.
use crate::cfg::quote;
use crate::flight::show;
use crate::pb::{self, Msg, W};
use crate::prop::*;
use crate::rng::Rng;
use crate::world::World;
use proxy_wasm::sim::{self, Call, Ev, Kind, Rec, Stream};
use proxy_wasm::types::{Action, MapType, Status};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};

type Headers = Vec<(String, String)>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Auth,
    Limit,
    Check,
    Report,
}

impl K {
    fn kind(self) -> &'static str {
        ["auth", "ratelimit", "ratelimit-check", "ratelimit-report"][self as usize]
    }
    fn method(self) -> (&'static str, &'static str) {
        match self {
            K::Auth => ("envoy.service.auth.v3.Authorization", "Check"),
            K::Limit => ("envoy.service.ratelimit.v3.RateLimitService", "ShouldRateLimit"),
            K::Check => ("kuadrant.service.ratelimit.v1.RateLimitService", "CheckRateLimit"),
            K::Report => ("kuadrant.service.ratelimit.v1.RateLimitService", "Report"),
        }
    }
}

#[derive(Clone, Debug)]
enum Ans {
    Denied { code: Option<u32>, headers: Headers, body: String },
    /// headers, metadata, an unsupported field set
    Allowed { headers: Headers, meta: Option<String>, unsupported: u8 },
    /// a CheckResponse with neither ok nor denied
    Neither,
    Code { code: i64, headers: Headers },
    Status(u32),
    Garbage,
    Empty,
    /// the host refuses the call
    Refused,
}

#[derive(Clone, Debug)]
struct Pred {
    cel: String,
    val: bool,
}

#[derive(Clone, Debug)]
struct Item {
    key: String,
    fixed: bool,
    cel: String,
    val: String,
}

#[derive(Clone, Debug)]
struct Block {
    preds: Vec<Pred>,
    data: Vec<Item>,
}

#[derive(Clone, Debug)]
struct Rd {
    domain: String,
    field: String,
    cel: String,
    /// what it evaluates to; empty for response fields
    val: String,
    resp: bool,
    mentions_auth: bool,
}

#[derive(Clone, Debug)]
struct Act {
    kind: K,
    svc: usize,
    scope: String,
    preds: Vec<Pred>,
    broken: bool,
    blocks: Vec<Block>,
    ans: Ans,
}

#[derive(Clone, Debug)]
struct SvcCfg {
    kind: K,
    deny: bool,
    omit_mode: bool,
    timeout: Option<u64>,
}

struct Env {
    headers: Headers,
    props: BTreeMap<Vec<String>, Vec<u8>>,
    method: String,
    path: String,
    addr: String,
    sport: i64,
    dport: i64,
    nanos: i64,
    meta: Option<String>,
}

fn joined(h: &Headers) -> Headers {
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    for (k, v) in h {
        m.entry(k.clone()).and_modify(|e| *e = format!("{e},{v}")).or_insert(v.clone());
    }
    m.into_iter().collect()
}

fn hvo(k: &str, v: &str) -> Vec<(u32, W)> {
    vec![pb::sub(1, &[pb::s(1, k), pb::s(2, v)])]
}

fn struct_of(user: &str) -> Vec<(u32, W)> {
    let user = pb::sub(1, &[pb::s(1, "user"), pb::sub(2, &[pb::s(3, user)])]);
    let flag = pb::sub(1, &[pb::s(1, "anonymous"), pb::sub(2, &[(4, W::Varint(0))])]);
    let identity = pb::sub(2, &[pb::sub(5, &[user, flag])]);
    vec![pb::sub(1, &[pb::s(1, "identity"), identity])]
}

impl Ans {
    fn bytes(&self) -> (u32, Option<Vec<u8>>) {
        let b = match self {
            Ans::Denied { code, headers, body } => {
                let mut d: Vec<(u32, W)> = vec![];
                if let Some(c) = code {
                    d.push(if *c == 0 { pb::sub(1, &[]) } else { pb::sub(1, &[pb::int(1, *c as i64)]) });
                }
                d.extend(headers.iter().map(|(k, v)| pb::sub(2, &hvo(k, v))));
                if !body.is_empty() {
                    d.push(pb::s(3, body));
                }
                pb::enc(&[pb::sub(1, &[pb::int(1, 7)]), pb::sub(2, &d)])
            }
            Ans::Allowed { headers, meta, unsupported } => {
                let mut o: Vec<(u32, W)> = headers.iter().map(|(k, v)| pb::sub(2, &hvo(k, v))).collect();
                match unsupported {
                    1 => o.push(pb::sub(6, &hvo("x-resp", "1"))),
                    2 => o.push(pb::s(5, "x-gone")),
                    3 => o.push(pb::sub(7, &[pb::s(1, "q"), pb::s(2, "v")])),
                    4 => o.push(pb::s(8, "q")),
                    _ => {}
                }
                let mut m = vec![pb::sub(3, &o)];
                if let Some(u) = meta {
                    m.push(pb::sub(4, &struct_of(u)));
                }
                pb::enc(&m)
            }
            Ans::Neither => pb::enc(&[pb::sub(1, &[pb::int(1, 7), pb::s(2, "no")])]),
            Ans::Code { code, headers } => pb::rl_response(*code, headers),
            Ans::Status(s) => return (*s, None),
            Ans::Garbage => vec![0x0a, 0xff, 0xff, 0xff],
            Ans::Empty | Ans::Refused => vec![],
        };
        (0, if b.is_empty() { None } else { Some(b) })
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Auth,
    Limit,
    FailClosed,
    FailOpen,
}

struct Case {
    svcs: Vec<SvcCfg>,
    rd: Vec<Rd>,
    acts: Vec<Act>,
    env: Env,
    resp_body: Option<String>,
    req_body: Vec<Vec<u8>>,
    tracker: bool,
    id: String,
}

fn env(rng: &mut Rng) -> (Env, String) {
    let method = rng.pick(&["GET", "POST", "DELETE"]).to_string();
    let path = rng.pick(&["/a/b?q=1", "/toys/42", "/"]).to_string();
    let addr = rng.pick(&["10.0.0.7", "192.168.1.9"]).to_string();
    let (sport, dport) = (rng.range(1024, 65535) as i64, *rng.pick(&[80i64, 443, 8080]));
    let nanos = 1_700_000_000_000_000_000 + (rng.next() % 1_000_000_000_000) as i64;
    let id = format!("req-{}", rng.next() % 1_000_000);
    let mut headers: Headers = vec![
        (":authority".into(), "h0.example.com".into()),
        (":method".into(), method.clone()),
        (":path".into(), path.clone()),
        ("x-request-id".into(), id.clone()),
        ("x-user".into(), rng.pick(&["mallory", "anna", ""]).to_string()),
    ];
    for n in ["x-a", "x-b", "x-c"] {
        if rng.pct(60) {
            headers.push((n.into(), format!("v{}", rng.below(4))));
            if rng.pct(15) {
                headers.push((n.into(), "again".into()));
            }
        }
    }
    if rng.pct(20) {
        headers.push(("x-odd".into(), "q\"uo\\te é".into()));
    }
    let mut props = BTreeMap::new();
    let mut put = |p: &[&str], v: &[u8]| {
        props.insert(p.iter().map(|s| s.to_string()).collect::<Vec<_>>(), v.to_vec());
    };
    put(&["request", "time"], &nanos.to_le_bytes());
    put(&["request", "host"], b"h0.example.com");
    put(&["request", "method"], method.as_bytes());
    put(&["request", "scheme"], b"https");
    put(&["request", "path"], path.as_bytes());
    put(&["request", "url_path"], path.split('?').next().unwrap().as_bytes());
    put(&["request", "protocol"], b"HTTP/1.1");
    put(&["source", "address"], format!("{addr}:{sport}").as_bytes());
    put(&["source", "port"], &sport.to_le_bytes());
    put(&["destination", "address"], format!("10.1.1.1:{dport}").as_bytes());
    put(&["destination", "port"], &dport.to_le_bytes());
    (Env { headers, props, method, path, addr, sport, dport, nanos, meta: None }, id)
}

fn text(rng: &mut Rng, e: &Env) -> (String, String) {
    let mut v: Vec<(String, String)> = vec![
        ("request.method".into(), e.method.clone()),
        ("request.path".into(), e.path.clone()),
        ("source.port".into(), e.sport.to_string()),
        ("source.remote_address".into(), e.addr.clone()),
        ("'lit-' + request.method".into(), format!("lit-{}", e.method)),
        ("request.host.split('.')[0]".into(), "h0".into()),
        ("request.method == 'GET' ? 'yes' : 'no'".into(), if e.method == "GET" { "yes" } else { "no" }.into()),
    ];
    for (k, val) in joined(&e.headers) {
        if k.starts_with("x-") && k != "x-request-id" {
            v.push((format!("request.headers[{}]", quote(&k)), val));
        }
    }
    if let Some(u) = &e.meta {
        for _ in 0..4 {
            v.push(("auth.identity.user".into(), u.clone()));
        }
        v.push(("'u:' + auth.identity.user".into(), format!("u:{u}")));
    }
    rng.pick(&v).clone()
}

fn pred(rng: &mut Rng, e: &Env) -> Pred {
    let base = |rng: &mut Rng| {
        let (cel, val) = text(rng, e);
        if cel == "source.port" || cel.contains(" ? ") {
            return Pred { cel: "request.method == 'GET'".into(), val: e.method == "GET" };
        }
        if e.meta.is_some() && rng.pct(15) {
            return Pred { cel: "auth.identity.anonymous == false".into(), val: true };
        }
        let against = if rng.pct(70) { val.clone() } else { "something-else".into() };
        Pred { cel: format!("{cel} == {}", quote(&against)), val: val == against }
    };
    let a = base(rng);
    match rng.below(6) {
        0 => {
            let b = base(rng);
            Pred { cel: format!("{} || {}", a.cel, b.cel), val: a.val || b.val }
        }
        1 => {
            let b = base(rng);
            Pred { cel: format!("{} && {}", a.cel, b.cel), val: a.val && b.val }
        }
        2 => Pred { cel: format!("!({})", a.cel), val: !a.val },
        3 => {
            let (b, c) = (base(rng), base(rng));
            Pred { cel: format!("{} ? {} : {}", a.cel, b.cel, c.cel), val: if a.val { b.val } else { c.val } }
        }
        _ => a,
    }
}

const ODD: &[&str] = &["plain", "sp ace", "q\"uote", "back\\slash", "tab\there", "é😀", "new\nline", "c\rr", "crlf\r\n\\", "a.b/c", "'single'"];

fn item(rng: &mut Rng, e: &Env) -> Item {
    let key = if rng.pct(70) { format!("k{}", rng.below(5)) } else { rng.pick(ODD).to_string() };
    if rng.pct(40) {
        let v = rng.pick(ODD).to_string();
        Item { key, fixed: true, cel: v.clone(), val: v }
    } else {
        let (cel, val) = text(rng, e);
        Item { key, fixed: false, cel: format!("{cel}"), val }
    }
}

fn gen(rng: &mut Rng, focus: Focus) -> Case {
    let (mut e, id) = env(rng);
    let start = Env { headers: e.headers.clone(), props: e.props.clone(), method: e.method.clone(), path: e.path.clone(), addr: e.addr.clone(), meta: None, ..e };
    let fail = matches!(focus, Focus::FailClosed | Focus::FailOpen);
    let mut rd = vec![];
    let resp_ok = rng.pct(85);
    let mut seen = BTreeSet::new();
    for _ in 0..rng.below(4) {
        let field = ["user", "group", "model", "a\"b"][rng.below(4)].to_string();
        let domain = ["", "metrics.labels", "dom", "x.y", "metrics.labels.a", "metrics.labelsx", "metrics", "labels"][rng.below(8)].to_string();
        if !seen.insert((domain.clone(), field.clone())) {
            continue;
        }
        if rng.pct(25) {
            rd.push(Rd { domain, field, cel: "responseBodyJSON('/usage/total_tokens')".into(), val: "17".into(), resp: true, mentions_auth: false });
            continue;
        }
        // one that mentions auth is evaluated by the auth service, not here
        let (mut cel, mut val) = text(rng, &start);
        if cel.contains("'x-user'") || cel.contains("'x-a'") {
            // the auth service may replace these on the way
            (cel, val) = ("request.method".into(), start.method.clone());
        }
        rd.push(Rd { domain, field, cel, val, resp: false, mentions_auth: false });
    }
    let mut svcs: Vec<SvcCfg> = vec![];
    let mut acts: Vec<Act> = vec![];
    let n = rng.range(1, 4);
    let mut alive = true;
    let report = rng.pct(if focus == Focus::Limit { 45 } else { 15 });
    let mut had_auth = false;
    for i in 0..n + report as usize {
        let kind = if i == n {
            K::Report
        } else {
            match focus {
                Focus::Auth => *rng.pick(&[K::Auth, K::Auth, K::Limit]),
                Focus::Limit => *rng.pick(&[K::Limit, K::Check, K::Limit, K::Auth]),
                _ => *rng.pick(&[K::Auth, K::Limit, K::Check]),
            }
        };
        let kind = if had_auth && kind == K::Auth { K::Limit } else { kind };
        had_auth |= kind == K::Auth;
        let deny = match focus {
            Focus::FailClosed => true,
            Focus::FailOpen => false,
            _ => rng.pct(50),
        };
        let failing = rng.pct(if fail { 50 } else { 6 });
        let ans = if failing {
            match rng.below(5) {
                0 => Ans::Garbage,
                1 => Ans::Empty,
                2 => Ans::Refused,
                3 => Ans::Status(14),
                _ => Ans::Status(if rng.pct(90) { rng.range(1, 16) as u32 } else { *rng.pick(&[17, 100, 503, u32::MAX]) }),
            }
        } else if kind == K::Auth {
            let hs = |rng: &mut Rng, names: &[&str]| -> Headers {
                let mut v: Headers = vec![];
                for n in names {
                    if rng.pct(50) {
                        v.push((n.to_string(), format!("h{}", rng.below(5))));
                    }
                }
                v
            };
            match rng.below(10) {
                0..=2 => Ans::Denied {
                    code: *rng.pick(&[Some(401), Some(403), Some(404), Some(302), Some(503), Some(0), None]),
                    headers: hs(rng, &["www-authenticate", "location", "x-ext-auth-reason"]),
                    body: if rng.pct(50) { "go away é\n".into() } else { String::new() },
                },
                3 => Ans::Allowed { headers: hs(rng, &["x-user"]), meta: None, unsupported: rng.range(1, 4) as u8 },
                4 => Ans::Neither,
                _ => Ans::Allowed {
                    headers: hs(rng, &["x-user", "x-new", "x-a"]),
                    meta: if rng.pct(75) { Some(rng.pick(&["alice", "bob", "é"]).to_string()) } else { None },
                    unsupported: 0,
                },
            }
        } else {
            let mut headers: Headers = vec![];
            for h in ["x-limit", "x-remaining", "retry-after"] {
                if rng.pct(40) {
                    headers.push((h.into(), rng.below(50).to_string()));
                }
            }
            let code = match rng.below(10) {
                0..=2 => 2,
                3 if rng.pct(60) => *rng.pick(&[3, 7]),
                _ => 1,
            };
            if kind == K::Report {
                Ans::Code { code: 1, headers: vec![] }
            } else {
                Ans::Code { code, headers }
            }
        };
        svcs.push(SvcCfg { kind, deny, omit_mode: deny && rng.pct(50), timeout: if rng.pct(30) { None } else { Some(5 + rng.below(3000) as u64) } });
        let ne = if rng.pct(50) { rng.below(3) } else { 0 };
        let mut preds: Vec<Pred> = (0..ne).map(|_| pred(rng, &e)).collect();
        let broken = rng.pct(if fail { 12 } else { 3 });
        if broken {
            preds = vec![Pred { cel: "request.headers['x-never-there'] == 'x'".into(), val: false }];
        }
        let mut blocks = vec![];
        if kind != K::Auth && !broken {
            for _ in 0..rng.below(4) {
                let np = if rng.pct(50) { rng.below(3) } else { 0 };
                let preds: Vec<Pred> = (0..np).map(|_| pred(rng, &e)).collect();
                let nd = rng.range(1, 3);
                let data: Vec<Item> = (0..nd).map(|_| item(rng, &e)).collect();
                blocks.push(Block { preds, data });
            }
            if rng.pct(20) {
                let (cel, val) = ("request.method + '-ns'".to_string(), format!("{}-ns", e.method));
                let it = if rng.pct(50) {
                    Item { key: "ratelimit.domain".into(), fixed: true, cel: "other \"ns\"".into(), val: "other \"ns\"".into() }
                } else {
                    Item { key: "ratelimit.domain".into(), fixed: false, cel, val }
                };
                blocks.push(Block { preds: vec![], data: vec![it] });
            }
            if rng.pct(25) {
                let it = match rng.below(3) {
                    0 => Item { key: "ratelimit.hits_addend".into(), fixed: true, cel: "7".into(), val: "7".into() },
                    1 if kind == K::Report => Item { key: "ratelimit.hits_addend".into(), fixed: false, cel: "responseBodyJSON('/usage/total_tokens')".into(), val: "17".into() },
                    _ => Item { key: "ratelimit.hits_addend".into(), fixed: false, cel: "1 + 2".into(), val: "3".into() },
                };
                blocks.push(Block { preds: vec![], data: vec![it] });
            }
        }
        let scope = if rng.pct(70) { format!("scope-{i}") } else { rng.pick(ODD).to_string() };
        let a = Act { kind, svc: i, scope, preds, broken, blocks, ans };
        // what later expressions may rely on
        if alive && !broken && a.preds.iter().all(|p| p.val) {
            if let Ans::Allowed { headers, meta, unsupported: 0 } = &a.ans {
                if let Some(m) = meta {
                    e.meta = Some(m.clone());
                }
                for (k, v) in headers {
                    e.headers.retain(|(n, _)| n != k);
                    e.headers.push((k.clone(), v.clone()));
                }
            } else if kind == K::Auth {
                alive = false;
            }
        }
        acts.push(a);
    }
    // a field that mentions auth only makes sense when every rate limit can resolve it
    if had_auth && acts.iter().all(|a| a.kind == K::Auth) && rng.pct(50) && seen.insert(("".into(), "who".into())) {
        rd.push(Rd { domain: "".into(), field: "who".into(), cel: rng.pick(&["auth.identity.user", "'u:' + auth.identity.user", "request.method == 'GET' ? auth.identity.user : ''", "[auth.identity.user][0]"]).to_string(), val: String::new(), resp: false, mentions_auth: true });
    }
    // values of the extra request data as seen after the auth headers took effect
    let resp_body = if resp_ok { Some("{\"usage\":{\"total_tokens\":17}}".to_string()) } else if rng.pct(50) { Some("{\"other\":1}".into()) } else { None };
    let req_body = match rng.below(3) {
        0 => vec![],
        1 => vec![b"{\"a\":1}".to_vec()],
        _ => vec![b"{\"a\"".to_vec(), b":1}".to_vec()],
    };
    Case { svcs, rd, acts, env: start, resp_body, req_body, tracker: rng.pct(30), id }
}

impl Case {
    fn json(&self) -> String {
        let mut services = serde_json::Map::new();
        for (i, s) in self.svcs.iter().enumerate() {
            let mut j = json!({"type": s.kind.kind(), "endpoint": format!("cl{i}")});
            if !s.omit_mode {
                j["failureMode"] = json!(if s.deny { "deny" } else { "allow" });
            }
            if let Some(t) = s.timeout {
                j["timeout"] = json!(format!("{t}ms"));
            }
            services.insert(format!("svc{i}"), j);
        }
        let preds = |p: &[Pred]| -> Vec<J> { p.iter().map(|p| json!(p.cel)).collect() };
        let acts: Vec<J> = self
            .acts
            .iter()
            .map(|a| {
                let mut j = json!({"service": format!("svc{}", a.svc), "scope": a.scope});
                if !a.preds.is_empty() {
                    j["predicates"] = J::Array(preds(&a.preds));
                }
                if !a.blocks.is_empty() {
                    j["conditionalData"] = J::Array(
                        a.blocks
                            .iter()
                            .map(|b| {
                                let data: Vec<J> = b
                                    .data
                                    .iter()
                                    .map(|i| {
                                        let kv = json!({"key": i.key, "value": i.cel});
                                        if i.fixed { json!({"static": kv}) } else { json!({"expression": kv}) }
                                    })
                                    .collect();
                                let mut j = json!({"data": data});
                                if !b.preds.is_empty() {
                                    j["predicates"] = J::Array(preds(&b.preds));
                                }
                                j
                            })
                            .collect(),
                    );
                }
                j
            })
            .collect();
        let rd: serde_json::Map<String, J> = self
            .rd
            .iter()
            .map(|r| (if r.domain.is_empty() { r.field.clone() } else { format!("{}.{}", r.domain, r.field) }, json!(r.cel)))
            .collect();
        let mut j = json!({"services": services, "requestData": rd, "actionSets": [{"name": "set",
            "routeRuleConditions": {"hostnames": ["h0.example.com"]}, "actions": acts}]});
        if self.tracker {
            j["observability"] = json!({"httpHeaderIdentifier": "x-kuadrant-id"});
        }
        j.to_string()
    }
}

/// the part of the interpreter's state the expressions can see
struct Run<'a> {
    c: &'a Case,
    next: usize,
    headers: Headers,
    /// the next action waits for the response body
    requeued: bool,
    out: Option<usize>,
    resp_headers: Option<Headers>,
    to_response: Headers,
    body_started: bool,
    body_done: bool,
    finished: bool,
    notes: BTreeSet<&'static str>,
}

#[derive(Debug, PartialEq, Clone)]
enum Fx {
    Call(usize, Headers, bool),
    Refused(usize, Headers, bool),
    Reply(u32, Headers, Vec<u8>),
    Request(Headers),
    Response(Headers),
    Auth(String),
}

impl Run<'_> {
    fn field_known(&self) -> bool {
        self.c.resp_body.as_deref().is_some_and(|b| b.contains("total_tokens"))
    }
    fn waits(&self, a: &Act) -> bool {
        a.kind == K::Report
            && (self.c.rd.iter().any(|r| r.resp) || a.blocks.iter().flat_map(|b| &b.data).any(|i| i.cel.starts_with("responseBodyJSON")))
    }
    fn runs(a: &Act) -> bool {
        let gate = a.blocks.is_empty() || a.blocks.iter().any(|b| b.preds.iter().all(|p| p.val));
        a.preds.iter().all(|p| p.val) && gate
    }
    fn fail(&mut self, svc: usize, fx: &mut Vec<Fx>) {
        if self.requeued && self.body_started {
            self.notes.insert("legacy_late_failure");
            return;
        }
        if self.c.svcs[svc].deny {
            self.notes.insert("legacy_fail_closed");
            self.reply(500, vec![], b"Internal Server Error.\n".to_vec(), fx);
        } else {
            self.notes.insert("legacy_fail_open");
        }
    }
    fn reply(&mut self, status: u32, mut headers: Headers, body: Vec<u8>, fx: &mut Vec<Fx>) {
        if self.c.tracker {
            headers.push(("x-kuadrant-id".into(), self.c.id.clone()));
        }
        fx.push(Fx::Reply(status, headers, body));
        self.finished = true;
    }
    fn go(&mut self, fx: &mut Vec<Fx>) {
        while !self.finished && self.out.is_none() && self.next < self.c.acts.len() {
            let a = &self.c.acts[self.next];
            if a.broken {
                self.next += 1;
                self.fail(a.svc, fx);
                continue;
            }
            if !Self::runs(a) {
                self.notes.insert("skipped");
                self.next += 1;
                continue;
            }
            if self.waits(a) {
                if !self.body_done {
                    self.requeued = true;
                    self.notes.insert("report_waits");
                    return;
                }
                if !self.field_known() {
                    self.next += 1;
                    self.fail(a.svc, fx);
                    continue;
                }
            }
            if matches!(a.ans, Ans::Refused) {
                fx.push(Fx::Refused(self.next, self.headers.clone(), true));
                self.next += 1;
                self.fail(a.svc, fx);
                continue;
            }
            fx.push(Fx::Call(self.next, self.headers.clone(), true));
            self.out = Some(self.next);
            self.next += 1;
            self.notes.insert(match a.kind {
                K::Auth => "call_auth",
                K::Limit => "call_ratelimit",
                K::Check => "call_check",
                K::Report => "call_report",
            });
        }
    }
    fn flush(&mut self, fx: &mut Vec<Fx>) {
        if let Some(m) = self.resp_headers.as_mut() {
            if !self.to_response.is_empty() {
                for (k, v) in self.to_response.drain(..) {
                    m.retain(|(n, _)| *n != k);
                    m.push((k, v));
                }
                fx.push(Fx::Response(m.clone()));
                self.notes.insert("response_headers");
            }
        }
    }
    fn answer(&mut self) -> Vec<Fx> {
        let mut fx = vec![];
        let Some(i) = self.out.take() else { return fx };
        let a = &self.c.acts[i];
        match a.ans.clone() {
            Ans::Status(_) | Ans::Garbage | Ans::Empty => self.fail(a.svc, &mut fx),
            Ans::Refused => {}
            Ans::Denied { code, headers, body } => {
                if code.is_none() {
                    self.notes.insert("denied_without_status");
                }
                let code = match code {
                    None => 0,
                    Some(0) => 403,
                    Some(c) => c,
                };
                self.notes.insert("auth_denied");
                self.reply(code, headers, body.into_bytes(), &mut fx);
            }
            Ans::Allowed { unsupported, .. } if unsupported > 0 => {
                self.notes.insert("auth_unsupported");
                self.reply(500, vec![], b"Internal Server Error.\n".to_vec(), &mut fx);
            }
            Ans::Neither => {
                self.notes.insert("auth_neither");
                self.reply(500, vec![], b"Internal Server Error.\n".to_vec(), &mut fx);
            }
            Ans::Allowed { headers, meta, .. } => {
                self.notes.insert("auth_ok");
                if let Some(m) = meta {
                    self.notes.insert("auth_metadata");
                    fx.push(Fx::Auth(m));
                }
                if !headers.is_empty() {
                    self.notes.insert("auth_headers");
                    for (k, v) in headers {
                        self.headers.retain(|(n, _)| *n != k);
                        self.headers.push((k, v));
                    }
                    fx.push(Fx::Request(self.headers.clone()));
                }
            }
            Ans::Code { code, headers } if a.kind != K::Report => match code {
                2 => {
                    self.notes.insert("over_limit");
                    self.reply(429, headers, b"Too Many Requests\n".to_vec(), &mut fx);
                }
                1 => {
                    self.notes.insert("under_limit");
                    // headers kept for the response: those of the latest reply are set first
                    let older = std::mem::replace(&mut self.to_response, headers);
                    self.to_response.extend(older);
                    self.flush(&mut fx);
                }
                _ => {
                    self.notes.insert("unknown_code");
                    self.reply(500, vec![], b"Internal Server Error.\n".to_vec(), &mut fx);
                }
            },
            Ans::Code { .. } => {
                self.notes.insert("reported");
            }
        }
        self.go(&mut fx);
        fx
    }
    fn held(&self) -> bool {
        self.out.is_some_and(|i| self.c.acts[i].kind != K::Report) && !self.finished
    }
}

// ---------------------------------------------------------------- messages on the wire

fn want_descriptors(c: &Case, a: &Act) -> Vec<Headers> {
    let mut v = vec![];
    let mut any = false;
    let mut entries = vec![];
    for b in &a.blocks {
        let data: Vec<&Item> = b.data.iter().filter(|i| !i.key.starts_with("ratelimit.")).collect();
        any |= !data.is_empty();
        if b.preds.iter().all(|p| p.val) {
            entries.extend(data.iter().map(|i| (i.key.clone(), i.val.clone())));
        }
    }
    if any {
        v.push(entries);
    }
    let mut rd: Vec<&Rd> = c.rd.iter().filter(|r| a.kind == K::Report || !r.resp).collect();
    rd.sort_by(|x, y| (&x.domain, &x.field).cmp(&(&y.domain, &y.field)));
    if !rd.is_empty() {
        v.push(
            rd.iter()
                .map(|r| {
                    let k = if r.domain.is_empty() || r.domain == "metrics.labels" { r.field.clone() } else { format!("{}.{}", r.domain, r.field) };
                    (k, r.val.clone())
                })
                .collect(),
        );
    }
    v
}

fn special<'a>(a: &'a Act, key: &str) -> Option<&'a Item> {
    a.blocks.iter().flat_map(|b| &b.data).find(|i| i.key == key)
}

fn check_ratelimit(c: &Case, a: &Act, m: &Msg) -> Result<(), String> {
    let domain = special(a, "ratelimit.domain").map_or(a.scope.clone(), |i| i.val.clone());
    if pb::get_str(m, 1) != domain {
        return Err(format!("domain {:?}, expected {domain:?}", pb::get_str(m, 1)));
    }
    let hits: i64 = special(a, "ratelimit.hits_addend").map_or(1, |i| i.val.parse().unwrap_or(-1));
    if pb::get_int(m, 3) != hits {
        return Err(format!("hits_addend {}, expected {hits}", pb::get_int(m, 3)));
    }
    let got: Vec<Headers> =
        pb::all_msgs(m, 2).iter().map(|d| pb::all_msgs(d, 1).iter().map(|e| (pb::get_str(e, 1), pb::get_str(e, 2))).collect()).collect();
    let want = want_descriptors(c, a);
    // request data has no documented order between its own entries
    let norm = |mut v: Vec<Headers>| {
        if c.rd.iter().any(|r| a.kind == K::Report || !r.resp) {
            if let Some(l) = v.last_mut() {
                l.sort();
            }
        }
        v
    };
    let (got, want) = (norm(got), norm(want));
    if got != want {
        return Err(format!("descriptors {got:?}, expected {want:?}"));
    }
    if let Some((f, _)) = m.iter().find(|(f, _)| ![1, 2, 3].contains(f)) {
        return Err(format!("unexpected field {f}"));
    }
    Ok(())
}

fn check_auth(c: &Case, a: &Act, headers: &Headers, m: &Msg) -> Result<(), String> {
    let e = &c.env;
    let at = pb::get_msg(m, 1).ok_or("no attributes")?;
    let eq = |what: &str, got: String, want: String| if got == want { Ok(()) } else { Err(format!("{what}: {got:?}, expected {want:?}")) };
    let peer = |f: u32, what: &str, addr: String, port: i64| -> Result<(), String> {
        let sa = pb::get_msg(&at, f).and_then(|p| pb::get_msg(&p, 1)).and_then(|p| pb::get_msg(&p, 1)).ok_or(format!("no {what} address"))?;
        eq(&format!("{what} address"), pb::get_str(&sa, 2), addr)?;
        eq(&format!("{what} port"), pb::get_int(&sa, 3).to_string(), port.to_string())
    };
    peer(1, "source", format!("{}:{}", e.addr, e.sport), e.sport)?;
    peer(2, "destination", format!("10.1.1.1:{}", e.dport), e.dport)?;
    let rq = pb::get_msg(&at, 4).ok_or("no request")?;
    let t = pb::get_msg(&rq, 1).ok_or("no time")?;
    eq("time", format!("{}.{:09}", pb::get_int(&t, 1), pb::get_int(&t, 2)), format!("{}.{:09}", e.nanos / 1_000_000_000, e.nanos % 1_000_000_000))?;
    let h = pb::get_msg(&rq, 2).ok_or("no http")?;
    eq("method", pb::get_str(&h, 2), e.method.clone())?;
    eq("path", pb::get_str(&h, 4), e.path.clone())?;
    eq("host", pb::get_str(&h, 5), "h0.example.com".into())?;
    eq("scheme", pb::get_str(&h, 6), "https".into())?;
    eq("protocol", pb::get_str(&h, 10), "HTTP/1.1".into())?;
    eq("headers", format!("{:?}", pb::str_map(&h, 3)), format!("{:?}", joined(headers)))?;
    eq("context_extensions", format!("{:?}", pb::str_map(&at, 10)), format!("{:?}", [("host".to_string(), a.scope.clone())]))?;
    let mut want: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    for r in c.rd.iter().filter(|r| !r.resp) {
        let d = if r.domain.is_empty() { "io.kuadrant".to_string() } else { format!("io.kuadrant.{}", r.domain) };
        let v = if r.mentions_auth { format!("cel:{}", r.cel) } else { r.val.clone() };
        want.entry(d).or_default().insert(r.field.clone(), v);
    }
    let mut got: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    for e in pb::get_msg(&at, 11).map(|m| pb::all_msgs(&m, 1)).unwrap_or_default() {
        let st = pb::get_msg(&e, 2).unwrap_or_default();
        for f in pb::all_msgs(&st, 1) {
            let v = pb::get_msg(&f, 2).unwrap_or_default();
            let v = match pb::get_msg(&v, 5) {
                Some(s) => {
                    let f = pb::all_msgs(&s, 1);
                    format!("cel:{}", f.iter().filter(|f| pb::get_str(f, 1) == "cel_expr").filter_map(|f| pb::get_msg(f, 2)).map(|v| pb::get_str(&v, 3)).collect::<String>())
                }
                None => pb::get_str(&v, 3),
            };
            got.entry(pb::get_str(&e, 1)).or_default().insert(pb::get_str(&f, 1), v);
        }
    }
    if got != want {
        return Err(format!("metadata_context {got:?}, expected {want:?}"));
    }
    Ok(())
}

fn check_call(c: &Case, i: usize, headers: &Headers, call: &Call) -> Result<(), String> {
    let a = &c.acts[i];
    if call.upstream != format!("cl{i}") {
        return Err(format!("call to {}, expected cl{i}", call.upstream));
    }
    if (call.service.as_str(), call.method.as_str()) != a.kind.method() {
        return Err(format!("call to {}/{}, expected {:?}", call.service, call.method, a.kind.method()));
    }
    let t = c.svcs[a.svc].timeout.unwrap_or(20);
    if call.timeout.as_millis() as u64 != t {
        return Err(format!("timeout {:?}, expected {t}ms", call.timeout));
    }
    let m = pb::dec(&call.message).ok_or("message is not protobuf")?;
    match a.kind {
        K::Auth => check_auth(c, a, headers, &m),
        _ => check_ratelimit(c, a, &m),
    }
    .map_err(|e| format!("{} request: {e}", a.kind.kind()))
}

fn compare(c: &Case, what: &str, want: &[Fx], recs: &[Rec]) -> Result<(), (String, String)> {
    let err = |s: &str, d: String| Err((s.to_string(), format!("{what}: {d}")));
    let calls: Vec<(&Call, bool)> = recs
        .iter()
        .filter_map(|r| match &r.ev {
            Ev::Dispatch(_, c) => Some((c, true)),
            Ev::DispatchRefused(c, _) => Some((c, false)),
            _ => None,
        })
        .collect();
    let wcalls: Vec<(usize, &Headers, bool)> = want
        .iter()
        .filter_map(|f| match f {
            Fx::Call(i, h, _) => Some((*i, h, true)),
            Fx::Refused(i, h, _) => Some((*i, h, false)),
            _ => None,
        })
        .collect();
    let show_calls = |v: &[(&Call, bool)]| v.iter().map(|(c, ok)| format!("{}{}", c.upstream, if *ok { "" } else { "(refused)" })).collect::<Vec<_>>();
    if calls.len() != wcalls.len() {
        return err("calls", format!("calls {:?}, expected {:?}", show_calls(&calls), wcalls.iter().map(|w| format!("cl{}", w.0)).collect::<Vec<_>>()));
    }
    for ((call, _), (i, h, _)) in calls.iter().zip(&wcalls) {
        if let Err(e) = check_call(c, *i, h, call) {
            return err("message", e);
        }
    }
    let replies: Vec<Fx> = recs
        .iter()
        .filter_map(|r| match &r.ev {
            Ev::Reply { status, headers, body } => Some(Fx::Reply(*status, headers.clone(), body.clone().unwrap_or_default())),
            _ => None,
        })
        .collect();
    let wr: Vec<Fx> = want.iter().filter(|f| matches!(f, Fx::Reply(..))).cloned().collect();
    // a denial without a status: 403 is meant, any refusal will do
    let bare = |f: &Fx| matches!(f, Fx::Reply(0, ..));
    let refusal = |f: &Fx| matches!(f, Fx::Reply(s, ..) if *s >= 400);
    if replies.len() == 1 && wr.len() == 1 && bare(&wr[0]) && refusal(&replies[0]) {
        return Ok(());
    }
    if replies != wr {
        return err("verdict", format!("local replies {replies:?}, expected {wr:?}"));
    }
    for resp in [false, true] {
        let t = if resp { MapType::HttpResponseHeaders } else { MapType::HttpRequestHeaders };
        let got = recs.iter().rev().find_map(|r| match &r.ev {
            Ev::SetMap(mt, m) if *mt == t => Some(m.clone()),
            _ => None,
        });
        let w = want.iter().rev().find_map(|f| match f {
            Fx::Request(m) if !resp => Some(m.clone()),
            Fx::Response(m) if resp => Some(m.clone()),
            _ => None,
        });
        if got != w {
            return err("headers", format!("{} headers {got:?}, expected {w:?}", if resp { "response" } else { "request" }));
        }
    }
    let props: Vec<(Vec<String>, Option<Msg>)> = recs
        .iter()
        .filter_map(|r| match &r.ev {
            Ev::SetProp(p, b) => Some((p.clone(), pb::dec(b))),
            _ => None,
        })
        .collect();
    let wp: Vec<&String> = want
        .iter()
        .filter_map(|f| match f {
            Fx::Auth(u) => Some(u),
            _ => None,
        })
        .collect();
    let user = |m: &Msg| {
        pb::all_msgs(m, 1)
            .iter()
            .filter(|e| pb::get_str(e, 1) == "identity")
            .filter_map(|e| pb::get_msg(e, 2))
            .filter_map(|v| pb::get_msg(&v, 5))
            .flat_map(|s| pb::all_msgs(&s, 1))
            .filter(|e| pb::get_str(e, 1) == "user")
            .filter_map(|e| pb::get_msg(&e, 2))
            .map(|v| pb::get_str(&v, 3))
            .collect::<String>()
    };
    let ok = props.len() == wp.len()
        && props.iter().zip(&wp).all(|((p, m), u)| p == &vec!["kuadrant.auth".to_string()] && m.as_ref().is_some_and(|m| user(m) == **u));
    if !ok {
        return err("metadata", format!("exported attributes {props:?}, expected auth metadata for {wp:?}"));
    }
    for r in recs {
        if let Ev::Panic(p) = &r.ev {
            return err("panic", p.clone());
        }
    }
    Ok(())
}

fn run(rng: &mut Rng, cov: &mut Cov, focus: Focus) -> Result<(), Violation> {
    let c = gen(rng, focus);
    let text = c.json();
    let mut w = World::new();
    if !w.configure(&text) {
        return Err(Violation::new("config-rejected", "a valid configuration was rejected").cfg(&text));
    }
    let refused: BTreeSet<String> =
        c.acts.iter().enumerate().filter(|(_, a)| matches!(a.ans, Ans::Refused)).map(|(i, _)| format!("cl{i}")).collect();
    sim::with(|h| h.faults = Some(Box::new(move |_, k, what| (k == Kind::Dispatch && refused.contains(what)).then_some(Status::BadArgument))));
    let ctx = w.new_stream(Stream { props: c.env.props.clone(), req_headers: Some(c.env.headers.clone()), ..Default::default() });
    let mut m = Run {
        c: &c,
        next: 0,
        headers: c.env.headers.clone(),
        requeued: false,
        out: None,
        resp_headers: None,
        to_response: vec![],
        body_started: false,
        body_done: false,
        finished: false,
        notes: BTreeSet::new(),
    };
    let mut trace: Vec<String> = vec![];
    let mut steps = 0u64;
    let fail = |sig: &str, d: String, trace: &[String]| {
        let mut v = Violation::new(format!("legacy-{sig}"), d).cfg(&text);
        v.trace = trace.to_vec();
        v
    };
    // phases: 0 request headers, 1.. request body chunks, then response headers, response body
    let nreq = c.req_body.len();
    let rchunks: Vec<Vec<u8>> = match &c.resp_body {
        None => vec![],
        Some(b) if rng.pct(50) => vec![b.clone().into_bytes()],
        Some(b) => crate::gen::split(rng, b.as_bytes()),
    };
    let mut phase = 0usize;
    let mut held = false;
    let mut req_buf: Vec<u8> = vec![];
    let mut resp_buf: Vec<u8> = vec![];
    // trailers end the response instead of its last chunk
    let trailers = !rchunks.is_empty() && rng.pct(15);
    let nresp = rchunks.len() + trailers as usize;
    let total = 2 + nreq + nresp;
    loop {
        let tokens = w.outstanding(ctx);
        let body_phase = |p: usize| (1..=nreq).contains(&p) || p >= nreq + 2;
        // a held body keeps buffering, everything else waits
        let can_stream = phase < total && (!held || (phase > 0 && body_phase(phase) && body_phase(phase - 1)));
        if !can_stream && tokens.is_empty() {
            if phase < total || held {
                return Err(fail("stuck", format!("stream stuck in phase {phase} with nothing outstanding"), &trace));
            }
            break;
        }
        let mark = World::mark();
        steps += 1;
        if can_stream && (tokens.is_empty() || rng.pct(50)) {
            let (name, action, want, eos_resp) = if phase == 0 {
                let a = w.request_headers(ctx, nreq == 0);
                let mut fx = vec![];
                m.go(&mut fx);
                ("request_headers".to_string(), a, fx, false)
            } else if phase <= nreq {
                if !held {
                    req_buf.clear();
                }
                req_buf.extend(&c.req_body[phase - 1]);
                let b = req_buf.clone();
                let n = b.len();
                sim::with(|h| h.streams.get_mut(&ctx).unwrap().req_buf = Some(b));
                let a = w.request_body(ctx, n, phase == nreq);
                let mut fx = vec![];
                m.go(&mut fx);
                ("request_body".to_string(), a, fx, false)
            } else if phase == nreq + 1 {
                let h: Headers = vec![(":status".into(), "200".into()), ("x-limit".into(), "upstream".into())];
                m.resp_headers = Some(h.clone());
                sim::with(|s| s.streams.get_mut(&ctx).unwrap().resp_headers = Some(h));
                let a = w.response_headers(ctx, rchunks.is_empty());
                let mut fx = vec![];
                if c.tracker {
                    m.to_response.push(("x-kuadrant-id".into(), c.id.clone()));
                }
                m.flush(&mut fx);
                m.go(&mut fx);
                ("response_headers".to_string(), a, fx, false)
            } else {
                let i = phase - nreq - 2;
                if !held {
                    resp_buf.clear();
                }
                resp_buf.extend(rchunks.get(i).map_or(&[][..], |c| c));
                let b = resp_buf.clone();
                let n = b.len();
                sim::with(|h| h.streams.get_mut(&ctx).unwrap().resp_buf = Some(b));
                m.body_started = true;
                m.body_done = i + 1 == nresp;
                let (name, a) = if i == rchunks.len() {
                    m.notes.insert("trailers");
                    ("response_trailers", w.response_trailers(ctx))
                } else {
                    ("response_body", w.response_body(ctx, n, m.body_done))
                };
                let mut fx = vec![];
                m.go(&mut fx);
                (name.to_string(), a, fx, m.body_done)
            };
            phase += 1;
            let recs: Vec<Rec> = World::since(mark).into_iter().filter(|r| r.ctx == ctx).collect();
            note(&mut trace, &name, &recs);
            compare(&c, &name, &want, &recs).map_err(|(s, d)| fail(&s, d, &trace))?;
            if m.finished {
                break;
            }
            let keep = m.held() || (eos_resp && m.out.is_some());
            if keep != (action == Action::Pause) {
                return Err(fail("hold", format!("{name}: returned {action:?}, call outstanding: {:?}", m.out), &trace));
            }
            held = keep;
            if keep {
                m.notes.insert("held");
            }
        } else {
            let t = *rng.pick(&tokens);
            let Some(i) = m.out else {
                return Err(fail("calls", "a call nobody expected is outstanding".into(), &trace));
            };
            let (s, b) = c.acts[i].ans.bytes();
            w.grpc_reply(t, s, b);
            let want = m.answer();
            let recs: Vec<Rec> = World::since(mark).into_iter().filter(|r| r.ctx == ctx).collect();
            let name = format!("reply from cl{i} {:?}", c.acts[i].ans);
            note(&mut trace, &name, &recs);
            compare(&c, &name, &want, &recs).map_err(|(s, d)| fail(&s, d, &trace))?;
            if m.finished {
                break;
            }
            let resumed = recs.iter().any(|r| matches!(r.ev, Ev::ResumeRequest | Ev::ResumeResponse));
            let at_end = phase == total && !rchunks.is_empty();
            let keep = m.held() || (at_end && m.out.is_some());
            if held && resumed == keep {
                return Err(fail("hold", format!("{name}: resumed: {resumed}, still to wait for: {:?}", m.out), &trace));
            }
            held = held && keep;
        }
        if steps > 100 {
            return Err(fail("stuck", "no end".into(), &trace));
        }
    }
    // once decided, whatever is still on the wire changes nothing
    for t in w.outstanding(ctx) {
        let mark = World::mark();
        w.grpc_reply(t, 0, None);
        let recs: Vec<Rec> = World::since(mark).into_iter().filter(|r| r.ctx == ctx).collect();
        compare(&c, "late reply", &[], &recs).map_err(|(s, d)| fail(&s, d, &trace))?;
    }
    w.log_done(ctx);
    w.destroy(ctx);
    cov.events += steps;
    for n in &m.notes {
        cov.state(n);
    }
    let key: Vec<String> = c.acts.iter().map(|a| format!("{:?}{}{}", a.kind, a.preds.len(), a.blocks.len())).collect();
    let notes: Vec<&str> = m.notes.iter().copied().collect();
    cov.distinct(&format!("{}|{}|{}|{}", key.join(","), notes.join(","), c.rd.len(), steps));
    if steps > 5 {
        cov.sample(trace.join("\n"));
    }
    Ok(())
}

fn note(trace: &mut Vec<String>, what: &str, recs: &[Rec]) {
    trace.push(format!("> {what}"));
    for r in recs {
        if !matches!(r.ev, Ev::Enter(_) | Ev::ReadProp(..) | Ev::ReadMap(_) | Ev::ReadMapValue(..) | Ev::ReadBuffer(..) | Ev::Metric(..)) {
            trace.push(format!("    {}", show(&r.ev)));
        }
    }
}

pub fn failures(rng: &mut Rng, cov: &mut Cov, deny: bool) -> Result<(), Violation> {
    run(rng, cov, if deny { Focus::FailClosed } else { Focus::FailOpen })
}

pub static G09: Prop = Prop {
    id: "G09",
    level: "exploration",
    rule: "a case counts as distinct by the kinds and shapes of its actions, the outcomes they had and the number of steps",
    quick: 6000,
    thorough: 80000,
    case: |rng, cov| run(rng, cov, Focus::Auth),
    probes: &[("denial-without-status", super::findings::denial_without_status)],
    need: &["call_auth", "auth_denied", "auth_unsupported", "auth_neither", "auth_ok", "auth_metadata", "auth_headers", "skipped", "held"],
    assumptions: super::pipeline::ASSUME,
};

pub static G10: Prop = Prop {
    id: "G10",
    level: "exploration",
    rule: "a case counts as distinct by the kinds and shapes of its actions, the outcomes they had and the number of steps",
    quick: 6000,
    thorough: 80000,
    case: |rng, cov| run(rng, cov, Focus::Limit),
    probes: &[],
    need: &["call_ratelimit", "call_check", "call_report", "over_limit", "under_limit", "unknown_code", "response_headers", "report_waits", "reported", "skipped", "held"],
    assumptions: super::pipeline::ASSUME,
};
