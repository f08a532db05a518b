//! Generators for configurations, requests and environments, steered by a profile.
use crate::cfg::*;
use crate::flight::Plan;
use crate::model::{walk, Answer, Headers, RlReply};
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Prof {
    pub max_actions: usize,
    pub w_grpc: usize,
    pub w_headers: usize,
    pub w_store: usize,
    pub w_deny: usize,
    pub w_fail: usize,
    /// rate-limiting calls in the short form
    pub w_short: usize,
    /// % of services with failureMode deny
    pub deny_mode: usize,
    pub guard: usize,
    pub seq: usize,
    pub pred_true: usize,
    pub broken: usize,
    pub nest: usize,
    pub stored: usize,
    pub body: usize,
    pub resp_json: usize,
    pub many: usize,
    pub ans_fail: usize,
    pub ans_over: usize,
    pub refuse: usize,
    pub header_id: usize,
    pub local_cb: usize,
    pub export: usize,
    /// % of onReply predicates that name the reply of another action
    pub cross: usize,
    /// % of other predicates that do (no reply is in their scope)
    pub cross_top: usize,
}

impl Default for Prof {
    fn default() -> Self {
        Prof {
            max_actions: 5,
            w_grpc: 50,
            w_headers: 15,
            w_store: 15,
            w_deny: 12,
            w_fail: 5,
            w_short: 6,
            deny_mode: 50,
            guard: 75,
            seq: 20,
            pred_true: 50,
            broken: 6,
            nest: 20,
            stored: 25,
            body: 15,
            resp_json: 15,
            many: 6,
            ans_fail: 20,
            ans_over: 20,
            refuse: 10,
            header_id: 25,
            local_cb: 60,
            export: 40,
            cross: 4,
            cross_top: 1,
        }
    }
}

pub const ATTRS: &[(&str, &str)] =
    &[("request.method", "GET"), ("request.path", "/a/b"), ("request.scheme", "https"), ("request.host", "h0.example.com")];

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub p: Prof,
    svcs: Vec<Svc>,
    stores: Vec<String>,
    /// what is saved there, when it is a plain text
    texts: BTreeMap<String, String>,
    /// values that only exist once the request body has been read
    late: Vec<String>,
    depth: usize,
    next_store: usize,
    vars: Vec<String>,
    pub uses_body: bool,
    pub uses_resp: bool,
}

const HN: &[&str] = &["x-a", "x-b", "x-c", "x-d"];
const HV: &[&str] = &["1", "2", "bob"];

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng, p: Prof) -> Self {
        Gen { rng, p, svcs: vec![], stores: vec![], texts: BTreeMap::new(), late: vec![], depth: 0, next_store: 0, vars: vec![], uses_body: false, uses_resp: false }
    }

    /// An expression that never fails to evaluate.
    fn safe(&mut self, depth: usize) -> X {
        match self.rng.below(if depth == 0 { 4 } else { 7 }) {
            0 => X::B(self.rng.pct(60)),
            1 => X::HasHdr(self.rng.pick(HN).to_string()),
            2 => {
                let (p, v) = *self.rng.pick(ATTRS);
                X::eq(X::Attr(p.into()), X::S(if self.rng.pct(60) { v.into() } else { "nope".into() }))
            }
            3 => X::eq(X::S("a".into()), X::S(if self.rng.pct(50) { "a".into() } else { "b".into() })),
            4 => X::And(Box::new(self.safe(depth - 1)), Box::new(self.safe(depth - 1))),
            5 => X::Or(Box::new(self.safe(depth - 1)), Box::new(self.safe(depth - 1))),
            _ => X::Not(Box::new(self.safe(depth - 1))),
        }
    }

    /// A value some earlier action stores. Calls nested in replies run ahead of the stores
    /// that wait for the body (known finding), so they don't refer to those.
    fn known_store(&mut self) -> Option<String> {
        if !self.rng.pct(self.p.stored) {
            return None;
        }
        let ok: Vec<String> = self.stores.iter().filter(|s| self.depth == 0 || !self.late.contains(s)).cloned().collect();
        (!ok.is_empty()).then(|| self.rng.pick(&ok).clone())
    }

    /// A predicate on a value some action saves.
    fn on_saved(&mut self) -> Option<X> {
        if self.stores.is_empty() || !self.rng.pct(self.p.stored * 2 / 3) {
            return None;
        }
        let s = self.rng.pick(&self.stores).clone();
        let v = match self.texts.get(&s) {
            Some(t) if self.rng.pct(75) => t.clone(),
            _ => self.rng.pick(HV).to_string(),
        };
        Some(X::eq(X::Stored(s), X::S(v)))
    }

    /// `guarding` actions get no expression that depends on the response.
    fn pred(&mut self, grpc_guard: Option<bool>, op_store: bool) -> X {
        if self.rng.pct(self.p.pred_true) {
            return X::B(true);
        }
        if self.rng.pct(self.p.broken) {
            return X::Broken;
        }
        if self.rng.pct(self.p.cross_top) {
            return X::CodeIs(["r", "rl", "resp"][self.rng.below(3)].into(), 1 + self.rng.below(2) as i64);
        }
        if let Some(s) = self.known_store() {
            return X::eq(X::Stored(s), X::S(self.rng.pick(HV).to_string()));
        }
        if op_store && self.rng.pct(self.p.body) {
            self.uses_body = true;
            return X::eq(X::ReqJson("/model".into()), X::S(if self.rng.pct(70) { "gpt".into() } else { "x".into() }));
        }
        if grpc_guard == Some(false) && self.rng.pct(self.p.resp_json) {
            self.uses_resp = true;
            return X::eq(X::RespJson("/model".into()), X::S(if self.rng.pct(70) { "gpt".into() } else { "x".into() }));
        }
        if self.rng.pct(15) {
            return X::eq(X::Hdr(self.rng.pick(HN).to_string()), X::S(self.rng.pick(HV).to_string()));
        }
        self.safe(2)
    }

    fn text(&mut self) -> X {
        match self.rng.below(4) {
            0 => X::Cat(Box::new(X::S("p-".into())), Box::new(X::Attr(self.rng.pick(ATTRS).0.into()))),
            _ => X::S(format!("v{}", self.rng.below(4))),
        }
    }

    fn pairs(&mut self) -> Hx {
        let n = self.rng.range(1, 3);
        let mut v = vec![];
        for _ in 0..n {
            let name = ["x-a", "x-b", "x-set", "x-other", "server"][self.rng.below(5)].to_string();
            if v.iter().any(|(k, _)| *k == name) {
                continue;
            }
            let x = if self.rng.pct(self.p.broken / 2) { X::Broken } else { self.text() };
            v.push((name, x));
        }
        Hx::Pairs(v)
    }

    fn domain(&mut self, guard: bool) -> X {
        if self.rng.pct(self.p.broken) {
            return X::Broken;
        }
        if let Some(s) = self.known_store() {
            return X::Stored(s);
        }
        if !guard && self.rng.pct(self.p.resp_json) {
            self.uses_resp = true;
            return X::RespJson(if self.rng.pct(80) { "/model".into() } else { "/absent".into() });
        }
        if self.rng.pct(12) {
            return X::Hdr(self.rng.pick(HN).to_string());
        }
        X::S(format!("d{}", self.rng.below(1000)))
    }

    fn svc(&mut self, guard: bool) -> String {
        // now and then one that another action calls as well
        let again: Vec<&Svc> = self.svcs.iter().filter(|s| s.kind == "ratelimit" && (guard || !s.deny)).collect();
        if !again.is_empty() && self.rng.pct(10) {
            return self.rng.pick(&again).name.clone();
        }
        self.own_svc(guard)
    }

    fn own_svc(&mut self, guard: bool) -> String {
        let i = self.svcs.len();
        let deny = self.rng.pct(self.p.deny_mode) && (guard || self.rng.pct(30));
        self.svcs.push(Svc {
            name: format!("s{i}"),
            cluster: format!("c{i}"),
            deny,
            timeout_ms: 100 * (1 + self.rng.below(50)) as u64,
            kind: "ratelimit",
        });
        format!("s{i}")
    }

    fn grpc(&mut self, depth: usize) -> Act {
        let guard = self.rng.pct(self.p.guard);
        // nested calls run ahead of the response body extraction (known finding)
        let early = guard || depth > 0;
        let pred = self.pred(Some(early), false);
        let domain = self.domain(early);
        let svc = self.svc(guard);
        let var = ["r", "rl", "resp"][self.rng.below(3)].to_string();
        let outer = self.vars.clone();
        self.vars.push(var.clone());
        self.depth += 1;
        let on_reply = self.replies(&var, depth);
        self.depth -= 1;
        self.vars = outer;
        Act { id: String::new(), pred, terminal: false, guard, seq: false, short: false, op: Op::Grpc { svc, var, domain, on_reply } }
    }

    fn reply_pred(&mut self, var: &str, n: i64) -> X {
        if self.rng.pct(self.p.cross) {
            return X::CodeIs(["r", "rl", "resp"][self.rng.below(3)].into(), n);
        }
        // sometimes look at an enclosing reply
        if !self.vars.is_empty() && self.rng.pct(15) {
            let v = self.rng.pick(&self.vars).clone();
            return X::CodeIs(v, n);
        }
        X::CodeIs(var.into(), n)
    }

    fn replies(&mut self, var: &str, depth: usize) -> Vec<Act> {
        let mut v = vec![];
        let plain = |pred: X, op: Op, terminal: bool| Act { id: String::new(), pred, terminal, guard: true, seq: false, short: false, op };
        let n = if self.rng.pct(5) { 12 } else { self.rng.below(4) };
        for _ in 0..n {
            match self.rng.below(10) {
                0..=2 => {
                    let headers = match self.rng.below(3) {
                        0 => Hx::Pairs(vec![]),
                        1 => Hx::Reply(var.into()),
                        _ => self.pairs(),
                    };
                    let body = if self.rng.pct(60) { Some(X::S(self.rng.pick(&["Too Many\n", "Too Many\n", "", "{\"a\":\"\\\\\"}", "zu viele é😀"]).to_string())) } else { None };
                    let status = *self.rng.pick(&[429u32, 403, 401, 302, 503, 200, 404, 451, 500, 599]);
                    let pred = self.reply_pred(var, 2);
                    let terminal = self.rng.pct(85);
                    v.push(plain(pred, Op::Deny { status, headers, body }, terminal));
                }
                3..=5 => {
                    let pairs = if self.rng.pct(60) { Hx::Reply(var.into()) } else { self.pairs() };
                    let pred = if self.rng.pct(70) { self.reply_pred(var, 1) } else { X::B(true) };
                    v.push(plain(pred, Op::Headers { response: self.rng.pct(70), pairs }, false));
                }
                6..=7 => {
                    let a = self.store(true);
                    v.push(a);
                }
                8 => {
                    let pred = self.reply_pred(var, 3);
                    let terminal = self.rng.pct(70);
                    v.push(plain(pred, Op::Fail, terminal));
                }
                _ => {
                    if depth < 2 && self.rng.pct(self.p.nest * 2) {
                        v.push(self.grpc(depth + 1));
                    }
                }
            }
        }
        if depth < 2 && self.rng.pct(self.p.nest) {
            v.push(self.grpc(depth + 1));
        }
        v
    }

    fn store(&mut self, in_reply: bool) -> Act {
        // now and then a path that an earlier action saves to as well
        let again = !in_reply && !self.stores.is_empty() && self.rng.pct(8);
        let path = if again { self.rng.pick(&self.stores).clone() } else { format!("p{}{}", self.next_store, ["", "", ".v", ".v", ".v", ".v.w"][self.rng.below(6)]) };
        self.next_store += 1;
        let pred = if in_reply { if self.rng.pct(70) { X::B(true) } else { self.safe(1) } } else { self.pred(None, true) };
        let value = if !in_reply && self.rng.pct(self.p.body) {
            self.uses_body = true;
            X::ReqJson(["/model", "/u/id", "/absent"][if self.rng.pct(90) { self.rng.below(2) } else { 2 }].into())
        } else if self.rng.pct(20) {
            self.text()
        } else {
            X::S(self.rng.pick(HV).to_string())
        };
        let export = self.rng.pct(self.p.export);
        let late = &self.late;
        let a = Act { id: String::new(), pred: pred.clone(), terminal: false, guard: true, seq: false, short: false, op: Op::Store { path: path.clone(), value: value.clone(), export: false } };
        if any_expr(&[a], &mut |x| matches!(x, X::ReqJson(_)) || matches!(x, X::Stored(p) if late.contains(p))) {
            self.late.push(path.clone());
        }
        self.stores.push(path.clone());
        if let X::S(t) = &value {
            self.texts.insert(path.clone(), t.clone());
        }
        Act { id: String::new(), pred, terminal: false, guard: true, seq: false, short: false, op: Op::Store { path, value, export } }
    }

    fn short(&mut self) -> Act {
        let report = self.rng.pct(25);
        let pred = self.pred(Some(true), false);
        let svc = self.own_svc(!report);
        let last = self.svcs.last_mut().expect("service");
        last.kind = if report { "ratelimit-report" } else { *self.rng.pick(&["ratelimit", "ratelimit-check"]) };
        let scope = format!("d{}", self.rng.below(1000));
        Act::short(&svc, &scope, pred, report)
    }

    pub fn action(&mut self) -> Act {
        let w = [self.p.w_grpc, self.p.w_headers, self.p.w_store, self.p.w_deny, self.p.w_fail, self.p.w_short];
        let mut k = self.rng.below(w.iter().sum());
        let mut i = 0;
        while k >= w[i] {
            k -= w[i];
            i += 1;
        }
        let plain = |pred: X, op: Op, terminal: bool| Act { id: String::new(), pred, terminal, guard: true, seq: false, short: false, op };
        let mut a = match i {
            0 => self.grpc(0),
            1 => {
                let pred = self.pred(None, false);
                let pairs = self.pairs();
                plain(pred, Op::Headers { response: self.rng.pct(60), pairs }, false)
            }
            2 => self.store(false),
            3 => {
                let pred = if let Some(p) = self.on_saved() { p } else if self.rng.pct(40) { X::B(false) } else { self.pred(None, false) };
                let headers = if self.rng.pct(50) { self.pairs() } else { Hx::Pairs(vec![]) };
                let body = if self.rng.pct(60) { Some(self.text()) } else { None };
                let status = *self.rng.pick(&[403u32, 401, 302, 418, 200, 204, 307, 500, 599]);
                let terminal = self.rng.pct(85);
                plain(pred, Op::Deny { status, headers, body }, terminal)
            }
            5 => return self.short(),
            _ => {
                let pred = if let Some(p) = self.on_saved() { p } else if self.rng.pct(60) { X::B(false) } else { self.pred(None, false) };
                let t = self.rng.pct(60);
                plain(pred, Op::Fail, t)
            }
        };
        a.seq = self.rng.pct(self.p.seq);
        if !matches!(a.op, Op::Grpc { .. }) && self.rng.pct(15) {
            // only calls guard anything
            a.guard = false;
        }
        a
    }

    pub fn actions(&mut self) -> Vec<Act> {
        let n = if self.rng.pct(self.p.many) { self.rng.range(11, 14) } else { self.rng.range(1, self.p.max_actions) };
        let mut v: Vec<Act> = (0..n).map(|_| self.action()).collect();
        // the body is only there to be read while it passes: no fence in front of its readers
        let last = v.iter().rposition(|a| any_expr(std::slice::from_ref(a), &mut |x| matches!(x, X::ReqJson(_))));
        for a in v.iter_mut().take(last.map_or(0, |l| l + 1)) {
            a.seq = false;
        }
        number(&mut v, "");
        v
    }

    pub fn cfg(&mut self) -> Cfg {
        let acts = self.actions();
        self.wrap(vec![Set { name: "set-0".into(), hosts: vec!["h0.example.com".into()], preds: vec![], acts }])
    }

    pub fn wrap(&mut self, sets: Vec<Set>) -> Cfg {
        let header_id = if self.rng.pct(self.p.header_id) { Some("x-kuadrant-id".to_string()) } else { None };
        let omit_mode = self.rng.pct(40);
        Cfg { svcs: self.svcs.clone(), sets, header_id, tracing: None, request_data: vec![], omit_mode }
    }

    pub fn request_headers(&mut self) -> (Headers, String) {
        let mut h: Headers = vec![
            (":authority".into(), "h0.example.com".into()),
            (":method".into(), "GET".into()),
            (":path".into(), "/a/b".into()),
        ];
        for n in HN {
            if self.rng.pct(50) {
                h.push((n.to_string(), self.rng.pick(HV).to_string()));
            }
        }
        let id = format!("req-{}", self.rng.next() % 1_000_000);
        h.push(("x-request-id".into(), id.clone()));
        (h, id)
    }

    pub fn answer(&mut self) -> Answer {
        if self.rng.pct(self.p.ans_fail) {
            return match self.rng.below(4) {
                0 => Answer::Garbage,
                1 => Answer::Empty,
                2 => Answer::Status(14),
                _ => Answer::Status(if self.rng.pct(90) { self.rng.range(1, 16) as u32 } else { *self.rng.pick(&[17, 100, 503, u32::MAX]) }),
            };
        }
        let code = if self.rng.pct(self.p.ans_over) { 2 } else { 1 };
        let code = if self.rng.pct(4) { 3 } else { code };
        let mut headers = vec![];
        for i in 0..self.rng.below(3) {
            headers.push((["x-limit", "x-rem", "x-a"][i].to_string(), format!("{}", self.rng.below(100))));
        }
        Answer::Ok(RlReply { code, headers })
    }

    pub fn plan(&mut self, cfg: &Cfg) -> (Plan, String) {
        let (headers, id) = self.request_headers();
        let mut props = BTreeMap::new();
        for (k, v) in ATTRS {
            props.insert(k.split('.').map(|s| s.to_string()).collect::<Vec<_>>(), v.as_bytes().to_vec());
        }
        let body: Vec<u8> = match self.rng.below(10) {
            0 => b"not json".to_vec(),
            1 => b"{\"model\":5}".to_vec(),
            _ => b"{\"model\":\"gpt\",\"n\":5,\"u\":{\"id\":\"bob\"}}".to_vec(),
        };
        let body_bad = body.starts_with(b"not");
        let req_chunks = if self.uses_body {
            if self.rng.pct(12) {
                vec![]
            } else if self.rng.pct(50) {
                vec![body]
            } else {
                // several chunks, all the fields in the last one
                let body = b"{\"pad\":\"0123456789abcdef0123456789\",\"model\":\"gpt\",\"n\":5,\"u\":{\"id\":\"bob\"}}";
                let mut v = split(self.rng, &body[..34]);
                let last = v.pop().unwrap_or_default();
                v.push([&last[..], &body[34..]].concat());
                v
            }
        } else {
            match self.rng.below(3) {
                0 => vec![],
                1 => vec![body],
                _ => split(self.rng, &body),
            }
        };
        let rbody = match self.rng.below(8) {
            0 => b"no json here".to_vec(),
            1 => b"{\"other\":true}".to_vec(),
            _ => b"{\"model\":\"gpt\",\"usage\":{\"total_tokens\":17}}".to_vec(),
        };
        let resp_chunks = match self.rng.below(5) {
            0 => vec![],
            1 | 2 => vec![rbody],
            _ => split(self.rng, &rbody),
        };
        // what is no JSON is found out before the trailers come
        let req_trailers = self.rng.pct(15) && !(self.uses_body && body_bad);
        let resp_trailers = self.rng.pct(15);
        let mut answers = BTreeMap::new();
        for s in &cfg.svcs {
            let a = self.answer();
            answers.insert(s.cluster.clone(), a);
            if self.rng.pct(70) {
                let a = self.answer();
                answers.insert(crate::flight::nth(&s.cluster, 1), a);
            }
        }
        (
            Plan {
                headers,
                props,
                req_chunks,
                req_trailers,
                resp_trailers,
                resp_headers: vec![
                    (":status".into(), "200".into()),
                    ("content-type".into(), "application/json".into()),
                    ("server".into(), "up".into()),
                ],
                resp_chunks,
                answers,
                local_reply_callbacks: self.rng.pct(self.p.local_cb),
                answer_bias: *self.rng.pick(&[10, 40, 70, 95]),
            },
            id,
        )
    }
}

pub fn split(rng: &mut Rng, b: &[u8]) -> Vec<Vec<u8>> {
    let n = rng.range(2, 4);
    let mut cuts: Vec<usize> = (0..n - 1).map(|_| rng.below(b.len() + 1)).collect();
    cuts.sort();
    let mut out = vec![];
    let mut at = 0;
    for c in cuts {
        if c > at {
            out.push(b[at..c].to_vec());
            at = c;
        }
    }
    out.push(b[at..].to_vec());
    out
}

/// Services whose calls the host refuses for this stream.
pub fn refusals(rng: &mut Rng, cfg: &Cfg, pct: usize) -> Vec<String> {
    cfg.svcs.iter().filter(|_| rng.pct(pct)).map(|s| s.cluster.clone()).collect()
}

pub fn any_expr(acts: &[Act], f: &mut dyn FnMut(&X) -> bool) -> bool {
    let mut hit = false;
    for a in acts {
        walk(&a.pred, &mut |x| hit |= f(x));
        match &a.op {
            Op::Grpc { domain, on_reply, .. } => {
                walk(domain, &mut |x| hit |= f(x));
                hit |= any_expr(on_reply, f);
            }
            Op::Store { value, .. } => walk(value, &mut |x| hit |= f(x)),
            _ => {}
        }
    }
    hit
}
