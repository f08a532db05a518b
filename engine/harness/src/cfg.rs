//! Typed-action configurations the generators build, with their JSON rendering.
//! Every expression template has a known meaning (see `Env::eval` in model.rs).
use serde_json::{json, Value as J};

#[derive(Clone, Debug, PartialEq)]
pub enum X {
    B(bool),
    S(String),
    /// request.headers['n'] - an error when absent
    Hdr(String),
    /// ('n' in request.headers)
    HasHdr(String),
    /// a host attribute written as a dotted path
    Attr(String),
    Eq(Box<X>, Box<X>),
    And(Box<X>, Box<X>),
    Or(Box<X>, Box<X>),
    Not(Box<X>),
    Cat(Box<X>, Box<X>),
    /// requestBodyJSON('/p')
    ReqJson(String),
    /// responseBodyJSON('/p')
    RespJson(String),
    /// a value saved by a store action under a dotted path
    Stored(String),
    /// <var>.overall_code == n
    CodeIs(String, i64),
    /// an expression that always fails to evaluate
    Broken,
}

impl X {
    pub fn eq(a: X, b: X) -> X {
        X::Eq(Box::new(a), Box::new(b))
    }
    pub fn cel(&self) -> String {
        match self {
            X::B(b) => b.to_string(),
            X::S(s) => quote(s),
            X::Hdr(n) => format!("request.headers[{}]", quote(n)),
            X::HasHdr(n) => format!("({} in request.headers)", quote(n)),
            X::Attr(p) => p.clone(),
            X::Eq(a, b) => format!("({} == {})", a.cel(), b.cel()),
            X::And(a, b) => format!("({} && {})", a.cel(), b.cel()),
            X::Or(a, b) => format!("({} || {})", a.cel(), b.cel()),
            X::Not(a) => format!("!({})", a.cel()),
            X::Cat(a, b) => format!("({} + {})", a.cel(), b.cel()),
            X::ReqJson(p) => format!("requestBodyJSON({})", quote(p)),
            X::RespJson(p) => format!("responseBodyJSON({})", quote(p)),
            X::Stored(p) => p.clone(),
            X::CodeIs(v, n) => format!("({v}.overall_code == {n})"),
            X::Broken => "(request.headers['x-not-there-ever'] == 'x')".to_string(),
        }
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("'");
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\'' => o.push_str("\\'"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('\'');
    o
}

#[derive(Clone, Debug, PartialEq)]
pub enum Hx {
    /// literal list of pairs
    Pairs(Vec<(String, X)>),
    /// <var>.response_headers_to_add
    Reply(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Grpc { svc: String, var: String, domain: X, on_reply: Vec<Act> },
    Deny { status: u32, headers: Hx, body: Option<X> },
    Headers { response: bool, pairs: Hx },
    Store { path: String, value: X, export: bool },
    Fail,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Act {
    pub id: String,
    pub pred: X,
    pub terminal: bool,
    pub guard: bool,
    pub seq: bool,
    /// a rate-limiting call (`op`) written in the short form
    pub short: bool,
    pub op: Op,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Svc {
    pub name: String,
    pub cluster: String,
    pub deny: bool,
    pub timeout_ms: u64,
    pub kind: &'static str,
}

#[derive(Clone, Debug)]
pub struct Set {
    pub name: String,
    pub hosts: Vec<String>,
    pub preds: Vec<X>,
    pub acts: Vec<Act>,
}

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    pub svcs: Vec<Svc>,
    pub sets: Vec<Set>,
    pub header_id: Option<String>,
    pub tracing: Option<String>,
    pub request_data: Vec<(String, String)>,
    /// leave `failureMode` out where it is the default
    pub omit_mode: bool,
}

impl Hx {
    pub fn cel(&self) -> String {
        match self {
            Hx::Pairs(p) => {
                let v: Vec<String> = p.iter().map(|(k, x)| format!("[{}, {}]", quote(k), x.cel())).collect();
                format!("[{}]", v.join(", "))
            }
            Hx::Reply(v) => format!("{v}.response_headers_to_add"),
        }
    }
}

impl Act {
    /// The short form of a rate-limiting call: what it stands for is fixed.
    pub fn short(svc: &str, scope: &str, pred: X, report: bool) -> Act {
        let plain = |pred: X, terminal: bool, op: Op| Act { id: String::new(), pred, terminal, guard: true, seq: false, short: false, op };
        let var = "ratelimit_response".to_string();
        let is = |n: i64| X::CodeIs("ratelimit_response".into(), n);
        let not = |x: X| X::Not(Box::new(x));
        let on_reply = if report {
            vec![plain(X::B(false), false, Op::Fail)]
        } else {
            vec![
                plain(is(2), true, Op::Deny { status: 429, headers: Hx::Reply(var.clone()), body: Some(X::S("Too Many Requests\n".into())) }),
                plain(is(1), false, Op::Headers { response: true, pairs: Hx::Reply(var.clone()) }),
                plain(X::And(Box::new(not(is(1))), Box::new(not(is(2)))), true, Op::Fail),
            ]
        };
        let op = Op::Grpc { svc: svc.into(), var, domain: X::S(scope.into()), on_reply };
        Act { id: String::new(), pred, terminal: false, guard: !report, seq: false, short: true, op }
    }
    pub fn json(&self) -> J {
        if let (true, Op::Grpc { svc, domain: X::S(scope), .. }) = (self.short, &self.op) {
            let preds: Vec<String> = match &self.pred {
                X::B(true) => vec![],
                X::And(a, b) => vec![a.cel(), b.cel()],
                p => vec![p.cel()],
            };
            return json!({"service": svc, "scope": scope, "predicates": preds});
        }
        let mut j = json!({"predicate": self.pred.cel(), "terminal": self.terminal, "isGuard": self.guard});
        if self.seq {
            j["execution"] = json!("sequential");
        }
        match &self.op {
            Op::Grpc { svc, var, domain, on_reply } => {
                j["type"] = json!("grpc");
                j["var"] = json!(var);
                j["service"] = json!(svc);
                j["messageBuilder"] = json!(format!(
                    "envoy.service.ratelimit.v3.RateLimitRequest {{ domain: {} }}",
                    domain.cel()
                ));
                j["onReply"] = J::Array(on_reply.iter().map(|a| a.json()).collect());
            }
            Op::Deny { status, headers, body } => {
                j["type"] = json!("deny");
                let mut parts = vec![format!("status: {status}u")];
                if *headers != Hx::Pairs(vec![]) {
                    parts.push(format!("headers: {}", headers.cel()));
                }
                if let Some(b) = body {
                    parts.push(format!("body: {}", b.cel()));
                }
                j["denyWith"] = json!(format!("DenyResponse {{ {} }}", parts.join(", ")));
            }
            Op::Headers { response, pairs } => {
                j["type"] = json!("headers");
                j["target"] = json!(if *response { "response" } else { "request" });
                j["headers"] = json!(pairs.cel());
            }
            Op::Store { path, value, export } => {
                j["type"] = json!("store");
                j["path"] = json!(path);
                j["value"] = json!(value.cel());
                j["exportToHost"] = json!(export);
            }
            Op::Fail => {
                j["type"] = json!("fail");
                j["logMessage"] = json!("configured failure");
            }
        }
        j
    }
}

impl Cfg {
    pub fn json(&self) -> J {
        let mut services = serde_json::Map::new();
        for s in &self.svcs {
            let mut j = json!({"type": s.kind, "endpoint": s.cluster, "timeout": format!("{}ms", s.timeout_ms)});
            if !s.deny || !self.omit_mode {
                j["failureMode"] = json!(if s.deny { "deny" } else { "allow" });
            }
            services.insert(s.name.clone(), j);
        }
        let mut obs = serde_json::Map::new();
        if let Some(h) = &self.header_id {
            obs.insert("httpHeaderIdentifier".into(), json!(h));
        }
        if let Some(t) = &self.tracing {
            services.insert(
                t.clone(),
                json!({"type": "tracing", "endpoint": "tracing-cluster", "failureMode": "allow", "timeout": "5s"}),
            );
            obs.insert("tracing".into(), json!({"service": t}));
        }
        let sets: Vec<J> = self
            .sets
            .iter()
            .map(|s| {
                json!({"name": s.name,
                    "routeRuleConditions": {"hostnames": s.hosts, "predicates": s.preds.iter().map(|p| p.cel()).collect::<Vec<_>>()},
                    "actions": s.acts.iter().map(|a| a.json()).collect::<Vec<_>>()})
            })
            .collect();
        let rd: serde_json::Map<String, J> = self.request_data.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
        json!({"services": services, "actionSets": sets, "observability": obs, "requestData": rd})
    }
    pub fn svc(&self, name: &str) -> &Svc {
        self.svcs.iter().find(|s| s.name == name).expect("service")
    }
}

/// Give every action its pipeline id ("0", "1", "1.0", ...).
pub fn number(acts: &mut [Act], prefix: &str) {
    for (i, a) in acts.iter_mut().enumerate() {
        a.id = if prefix.is_empty() { i.to_string() } else { format!("{prefix}.{i}") };
        let id = a.id.clone();
        if let Op::Grpc { on_reply, .. } = &mut a.op {
            number(on_reply, &id);
        }
    }
}
