//! Reference interpreter: what one request through one action set must make the filter do.
//! Written from the documented meaning of actions; the driver runs it in lockstep with the
//! real module and compares what each callback was observed to do.
use crate::cfg::*;
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet};

pub type Headers = Vec<(String, String)>;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    B(bool),
    S(String),
    I(i64),
    Null,
}

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Pending,
    Val(V),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fx {
    Dispatch { upstream: String, domain: String },
    Refused { upstream: String },
    Reply { status: u32, headers: Headers, body: Option<Vec<u8>> },
    SetMap { response: bool, map: Headers },
    SetProp { path: Vec<String>, bytes: Vec<u8> },
    Metric(String),
}

#[derive(Clone, Debug)]
pub struct RlReply {
    pub code: i64,
    pub headers: Headers,
}

#[derive(Clone, Debug)]
pub struct Task {
    pub act: Act,
    pub deps: Vec<String>,
    pub requeued: bool,
}

/// What the environment answers for a gRPC call.
#[derive(Clone, Debug)]
pub enum Answer {
    Ok(RlReply),
    Status(u32),
    Garbage,
    Empty,
}

pub struct Model {
    pub cfg: Cfg,
    queue: Vec<Task>,
    pub deferred: BTreeMap<String, Task>,
    pub orphans: BTreeMap<String, bool>,
    /// how many calls were made to each upstream
    made: BTreeMap<String, usize>,
    done: BTreeSet<String>,
    stored: BTreeMap<String, V>,
    bindings: Vec<(String, String, RlReply)>,
    pub attrs: BTreeMap<String, V>,
    pub req_headers: Headers,
    pub resp_headers: Option<Headers>,
    pub req_body: Option<(Vec<u8>, bool)>,
    pub resp_eos: bool,
    /// bytes of the response body have been seen
    pub resp_started: bool,
    /// why the last local reply was produced
    pub cause: &'static str,
    pub resp_values: BTreeMap<String, V>,
    req_values: BTreeMap<String, V>,
    pub terminated: bool,
    pub in_response: bool,
    pub matched: bool,
    pub tracker: Option<(String, String)>,
    pub refuse: BTreeSet<String>,
    /// states seen, for coverage
    pub notes: BTreeSet<&'static str>,
}

pub fn walk<'a>(x: &'a X, f: &mut impl FnMut(&'a X)) {
    f(x);
    match x {
        X::Eq(a, b) | X::And(a, b) | X::Or(a, b) | X::Cat(a, b) => {
            walk(a, f);
            walk(b, f);
        }
        X::Not(a) => walk(a, f),
        _ => {}
    }
}

pub fn uses_resp_body(x: &X) -> bool {
    let mut r = false;
    walk(x, &mut |x| r |= matches!(x, X::RespJson(_)));
    r
}

pub fn uses_req_body(x: &X) -> bool {
    let mut r = false;
    walk(x, &mut |x| r |= matches!(x, X::ReqJson(_)));
    r
}

/// A value a not-yet-settled store action (possibly nested in onReply) will provide.
fn reserves(a: &Act, p: &str) -> bool {
    match &a.op {
        Op::Store { path, .. } => path == p,
        Op::Grpc { on_reply, .. } => on_reply.iter().any(|c| reserves(c, p)),
        _ => false,
    }
}

/// `a` is the binding owner's id: visible to the owner and its descendants only.
fn in_scope(owner: &str, id: &str) -> bool {
    id == owner || (id.len() > owner.len() && id.starts_with(owner) && id.as_bytes()[owner.len()] == b'.')
}

/// google.protobuf.Value, which is how exported values reach the host.
pub fn pb_value(v: &V) -> Vec<u8> {
    match v {
        V::S(s) => {
            let mut o = vec![0x1a];
            let mut n = s.len();
            while n >= 0x80 {
                o.push((n & 0x7f) as u8 | 0x80);
                n >>= 7;
            }
            o.push(n as u8);
            o.extend(s.as_bytes());
            o
        }
        V::B(b) => vec![0x20, *b as u8],
        V::I(i) => {
            let mut o = vec![0x11];
            o.extend((*i as f64).to_le_bytes());
            o
        }
        V::Null => vec![0x08, 0],
    }
}

enum Out {
    Done,
    Failed,
    Requeue,
    Deferred(String),
    Terminate,
}

impl Model {
    pub fn new(cfg: &Cfg, set: usize, req_headers: Headers, attrs: BTreeMap<String, V>, request_id: &str) -> Model {
        let acts = &cfg.sets[set].acts;
        let mut queue = vec![];
        let mut fence: Option<String> = None;
        let mut since: Vec<String> = vec![];
        for (i, a) in acts.iter().enumerate() {
            let mut deps: Vec<String> = fence.iter().cloned().collect();
            if a.short {
                // the short form waits for the action before it, whatever that is
                deps = if i > 0 { vec![acts[i - 1].id.clone()] } else { vec![] };
                since.push(a.id.clone());
            } else if a.seq {
                deps.append(&mut since);
                fence = Some(a.id.clone());
            } else {
                since.push(a.id.clone());
            }
            queue.push(Task { act: a.clone(), deps, requeued: false });
        }
        let mut tracker = None;
        if let Some(h) = &cfg.header_id {
            tracker = Some((h.clone(), request_id.to_string()));
            queue.push(Task {
                act: Act {
                    id: "kuadrant.devMode".into(),
                    pred: X::B(true),
                    terminal: false,
                    guard: true,
                    seq: false,
                    short: false,
                    op: Op::Headers {
                        response: true,
                        pairs: Hx::Pairs(vec![(h.clone(), X::S(request_id.to_string()))]),
                    },
                },
                deps: vec![],
                requeued: false,
            });
        }
        let matched = !queue.is_empty();
        Model {
            cfg: cfg.clone(),
            queue,
            deferred: BTreeMap::new(),
            orphans: BTreeMap::new(),
            made: BTreeMap::new(),
            done: BTreeSet::new(),
            stored: BTreeMap::new(),
            bindings: vec![],
            attrs,
            req_headers,
            resp_headers: None,
            req_body: None,
            resp_eos: false,
            resp_started: false,
            cause: "",
            resp_values: BTreeMap::new(),
            req_values: BTreeMap::new(),
            terminated: false,
            in_response: false,
            matched,
            tracker,
            refuse: BTreeSet::new(),
            notes: BTreeSet::new(),
        }
    }

    pub fn finished(&self) -> bool {
        self.queue.is_empty() && self.deferred.is_empty() && self.orphans.is_empty()
    }
    pub fn outstanding(&self) -> usize {
        self.deferred.len() + self.orphans.len()
    }
    pub fn barrier(&self) -> usize {
        self.deferred.values().filter(|t| t.act.guard).count() + self.orphans.values().filter(|g| **g).count()
    }
    pub fn queued(&self) -> Vec<String> {
        self.queue.iter().map(|t| t.act.id.clone()).collect()
    }

    fn eval(&self, x: &X, id: &str) -> Result<St, ()> {
        let mut pending = false;
        walk(x, &mut |x| match x {
            X::Stored(p) => {
                pending |= !self.stored.contains_key(p)
                    && self.queue.iter().chain(self.deferred.values()).any(|t| reserves(&t.act, p))
            }
            X::ReqJson(p) => pending |= !self.req_values.contains_key(p),
            X::RespJson(p) => pending |= !self.resp_values.contains_key(p),
            _ => {}
        });
        if pending {
            return Ok(St::Pending);
        }
        self.val(x, id).map(St::Val)
    }

    fn val(&self, x: &X, id: &str) -> Result<V, ()> {
        let b = |v: V| match v {
            V::B(b) => Ok(b),
            _ => Err(()),
        };
        Ok(match x {
            X::B(b) => V::B(*b),
            X::S(s) => V::S(s.clone()),
            X::Hdr(n) => {
                let vals: Vec<&str> = self.req_headers.iter().filter(|(k, _)| k == n).map(|(_, v)| v.as_str()).collect();
                if vals.is_empty() {
                    return Err(());
                }
                V::S(vals.join(","))
            }
            X::HasHdr(n) => V::B(self.req_headers.iter().any(|(k, _)| k == n)),
            X::Attr(p) => self.attrs.get(p).cloned().unwrap_or(V::Null),
            X::Eq(a, c) => V::B(self.val(a, id)? == self.val(c, id)?),
            X::And(a, c) => V::B(b(self.val(a, id)?)? && b(self.val(c, id)?)?),
            X::Or(a, c) => V::B(b(self.val(a, id)?)? || b(self.val(c, id)?)?),
            X::Not(a) => V::B(!b(self.val(a, id)?)?),
            X::Cat(a, c) => match (self.val(a, id)?, self.val(c, id)?) {
                (V::S(a), V::S(c)) => V::S(a + &c),
                _ => return Err(()),
            },
            X::ReqJson(p) => self.req_values.get(p).cloned().ok_or(())?,
            X::RespJson(p) => self.resp_values.get(p).cloned().ok_or(())?,
            X::Stored(p) => self.stored.get(p).cloned().ok_or(())?,
            X::CodeIs(v, n) => V::B(self.reply(v, id)?.code == *n),
            X::Broken => return Err(()),
        })
    }

    fn reply(&self, var: &str, id: &str) -> Result<&RlReply, ()> {
        self.bindings.iter().rev().find(|(o, v, _)| v == var && in_scope(o, id)).map(|(_, _, r)| r).ok_or(())
    }

    fn pairs(&self, h: &Hx, id: &str) -> Result<Option<Headers>, ()> {
        match h {
            Hx::Pairs(ps) => {
                let mut out = vec![];
                let mut pending = false;
                for (k, x) in ps {
                    match self.eval(x, id) {
                        Ok(St::Pending) => pending = true,
                        Ok(St::Val(V::S(s))) => out.push((k.clone(), s)),
                        Ok(St::Val(_)) => {}
                        Err(()) => return Err(()),
                    }
                }
                Ok(if pending { None } else { Some(out) })
            }
            Hx::Reply(v) => Ok(Some(self.reply(v, id)?.headers.clone())),
        }
    }

    fn send(&mut self, status: u32, mut headers: Headers, body: Option<Vec<u8>>, fx: &mut Vec<Fx>) {
        if let Some(t) = &self.tracker {
            headers.push(t.clone());
        }
        fx.push(Fx::Metric("kuadrant.denied".into()));
        fx.push(Fx::Reply { status, headers, body: body.filter(|b| !b.is_empty()) });
    }

    fn fail_default(&mut self, fx: &mut Vec<Fx>) -> Out {
        self.send(500, vec![], Some(b"Internal Server Error.\n".to_vec()), fx);
        Out::Terminate
    }

    fn grpc_failed(&mut self, t: &Task, fx: &mut Vec<Fx>) -> Out {
        let Op::Grpc { svc, .. } = &t.act.op else { unreachable!() };
        let deny = self.cfg.svc(svc).deny;
        if t.requeued && self.resp_started {
            // the response is already on its way: nothing left to refuse, only logged
            self.notes.insert("late_failure");
            return Out::Failed;
        }
        fx.push(Fx::Metric("kuadrant.errors".into()));
        if deny {
            self.notes.insert(if t.requeued { "fail_closed_requeued" } else { "fail_closed" });
            if t.act.id.contains('.') {
                self.notes.insert("fail_closed_nested");
            }
            self.cause = "failure";
            self.fail_default(fx)
        } else {
            self.notes.insert(if t.requeued { "fail_open_requeued" } else { "fail_open" });
            Out::Done
        }
    }

    fn eos_for(&self, x: &X) -> bool {
        uses_resp_body(x) && self.resp_eos || uses_req_body(x) && self.req_body.as_ref().is_some_and(|b| b.1)
    }

    fn apply(&mut self, t: &Task, fx: &mut Vec<Fx>) -> Out {
        let id = t.act.id.clone();
        // a store action first pulls the body fields it names
        if let Op::Store { value, .. } = &t.act.op {
            let mut ptrs = vec![];
            for x in [&t.act.pred, value] {
                walk(x, &mut |x| {
                    if let X::ReqJson(p) = x {
                        ptrs.push(p.clone());
                    }
                });
            }
            if !ptrs.is_empty() {
                match &self.req_body {
                    Some((b, end)) => {
                        let mut found = vec![];
                        match serde_json::from_slice::<J>(b) {
                            Ok(j) => {
                                for p in &ptrs {
                                    match j.pointer(p) {
                                        Some(J::String(s)) => found.push((p.clone(), V::S(s.clone()))),
                                        Some(J::Bool(b)) => found.push((p.clone(), V::B(*b))),
                                        Some(J::Number(n)) if n.is_i64() || n.is_u64() => {
                                            found.push((p.clone(), V::I(n.as_i64().unwrap_or(0))))
                                        }
                                        _ => {}
                                    }
                                }
                            }
                            Err(_) if *end => {
                                self.notes.insert("store_bad_json");
                                return Out::Failed;
                            }
                            Err(_) => {}
                        }
                        if found.len() == ptrs.len() {
                            if !*end {
                                self.notes.insert("store_before_end");
                            }
                            self.req_values.extend(found);
                        } else if *end {
                            return Out::Failed;
                        } else {
                            // part of the body: only a predicate that needs none of it settles the matter
                            self.notes.insert("store_waits_for_body");
                        }
                    }
                    None => return Out::Requeue,
                }
            }
        }
        match self.eval(&t.act.pred, &id) {
            Ok(St::Pending) => {
                self.notes.insert("predicate_pending");
                if matches!(t.act.op, Op::Grpc { .. } | Op::Fail) && self.eos_for(&t.act.pred) {
                    return if matches!(t.act.op, Op::Grpc { .. }) { self.grpc_failed(t, fx) } else { Out::Failed };
                }
                return Out::Requeue;
            }
            Ok(St::Val(V::B(true))) => {}
            Ok(St::Val(V::B(false))) => {
                self.notes.insert("predicate_false");
                return Out::Done;
            }
            Ok(St::Val(_)) | Err(()) => {
                self.notes.insert("predicate_error");
                return if matches!(t.act.op, Op::Grpc { .. }) { self.grpc_failed(t, fx) } else { Out::Failed };
            }
        }
        match t.act.op.clone() {
            Op::Grpc { svc, domain, .. } => {
                let d = match self.eval(&domain, &id) {
                    Ok(St::Pending) => {
                        self.notes.insert("message_pending");
                        return if self.eos_for(&domain) { self.grpc_failed(t, fx) } else { Out::Requeue };
                    }
                    Ok(St::Val(V::S(s))) => s,
                    _ => {
                        self.notes.insert("message_error");
                        return self.grpc_failed(t, fx);
                    }
                };
                let upstream = self.cfg.svc(&svc).cluster.clone();
                if self.refuse.contains(&upstream) {
                    fx.push(Fx::Refused { upstream });
                    self.notes.insert("dispatch_refused");
                    return self.grpc_failed(t, fx);
                }
                if t.act.short {
                    self.notes.insert(if t.deps.is_empty() { "short_form" } else { "short_form_after_another" });
                }
                fx.push(Fx::Dispatch { upstream: upstream.clone(), domain: d });
                let n = self.made.entry(upstream.clone()).or_insert(0);
                *n += 1;
                if *n == 2 {
                    self.notes.insert("service_called_twice");
                }
                Out::Deferred(crate::flight::nth(&upstream, *n - 1))
            }
            Op::Deny { status, headers, body } => {
                let h = self.pairs(&headers, &id).ok().flatten();
                let b = match &body {
                    None => Some(None),
                    Some(x) => match self.eval(x, &id) {
                        Ok(St::Val(V::S(s))) => Some(Some(s.into_bytes())),
                        _ => None,
                    },
                };
                let (Some(h), Some(b)) = (h, b) else {
                    // denied all the same, with the default reply
                    self.notes.insert("denied_without_reply");
                    fx.push(Fx::Metric("kuadrant.errors".into()));
                    self.cause = "deny";
                    return self.fail_default(fx);
                };
                self.send(status, h, b, fx);
                self.cause = "deny";
                self.notes.insert(if t.act.terminal { "denied" } else { "denied_by_a_non_terminal_action" });
                Out::Terminate
            }
            Op::Headers { response, pairs } => {
                let ps = match self.pairs(&pairs, &id) {
                    Ok(Some(p)) => p,
                    Ok(None) => return Out::Requeue,
                    Err(()) => return Out::Failed,
                };
                if ps.is_empty() {
                    return Out::Done;
                }
                let target = if response { self.resp_headers.as_mut() } else { Some(&mut self.req_headers) };
                let Some(map) = target else {
                    self.notes.insert("response_header_deferred");
                    return Out::Requeue;
                };
                for (k, v) in ps {
                    map.retain(|(n, _)| *n != k);
                    map.push((k, v));
                }
                fx.push(Fx::SetMap { response, map: map.clone() });
                self.notes.insert("headers_set");
                Out::Done
            }
            Op::Store { path, value, export } => {
                let v = match self.eval(&value, &id) {
                    Ok(St::Pending) => return Out::Requeue,
                    Ok(St::Val(v)) => v,
                    Err(()) => return Out::Failed,
                };
                if export {
                    let bytes = pb_value(&v);
                    fx.push(Fx::SetProp { path: vec![format!("kuadrant.{path}")], bytes });
                }
                self.notes.insert("stored");
                self.stored.insert(path, v);
                Out::Done
            }
            Op::Fail => {
                if t.requeued {
                    self.notes.insert(if self.req_body.as_ref().is_some_and(|b| b.1) { "fail_action_late" } else { "fail_action_waited" });
                }
                if t.act.terminal {
                    fx.push(Fx::Metric("kuadrant.errors".into()));
                    self.notes.insert("fail_action");
                    self.cause = "fail action";
                    self.fail_default(fx)
                } else {
                    Out::Done
                }
            }
        }
    }

    fn terminate(&mut self) {
        self.queue.clear();
        self.terminated = true;
        for (up, t) in std::mem::take(&mut self.deferred) {
            self.notes.insert("terminated_with_outstanding");
            self.orphans.insert(up, t.act.guard);
        }
    }

    /// Apply the outcome of one task; true means the pipeline terminated.
    fn settle(&mut self, mut t: Task, out: Out, kept: &mut Vec<Task>) -> bool {
        match out {
            Out::Done => {
                self.done.insert(t.act.id);
            }
            Out::Failed => {
                self.notes.insert("task_failed");
                self.done.insert(t.act.id);
            }
            Out::Requeue => {
                t.requeued = true;
                kept.push(t);
            }
            Out::Deferred(up) => {
                self.deferred.insert(up, t);
            }
            Out::Terminate => {
                self.terminate();
                return true;
            }
        }
        false
    }

    /// One evaluation pass: run everything that can run now.
    pub fn run(&mut self) -> Vec<Fx> {
        let mut fx = vec![];
        if self.terminated {
            return fx;
        }
        // a single pass, each task looked at once, in declaration order
        let mut i = 0;
        while i < self.queue.len() {
            // an action is over once the calls made from its reply are
            let nested = |d: &String| self.deferred.values().any(|t| t.act.id.starts_with(&format!("{d}.")));
            if self.queue[i].deps.iter().any(|d| self.done.contains(d) && nested(d)) {
                self.notes.insert("fenced_by_a_nested_call");
            }
            if self.queue[i].deps.iter().any(|d| !self.done.contains(d) || nested(d)) {
                self.notes.insert("fenced");
                i += 1;
                continue;
            }
            let t = self.queue[i].clone();
            let out = self.apply(&t, &mut fx);
            if matches!(out, Out::Requeue) {
                self.queue[i].requeued = true;
                i += 1;
                continue;
            }
            self.queue.remove(i);
            if self.settle(t, out, &mut vec![]) {
                return fx;
            }
        }
        fx
    }

    /// A gRPC answer for the call made to `upstream`.
    pub fn answer(&mut self, upstream: &str, a: &Answer) -> Vec<Fx> {
        let mut fx = vec![];
        if self.orphans.remove(upstream).is_some() {
            return fx;
        }
        let Some(t) = self.deferred.remove(upstream) else {
            return fx;
        };
        let Op::Grpc { var, on_reply, .. } = &t.act.op else { unreachable!() };
        let out = match a {
            Answer::Status(s) if *s != 0 => {
                self.notes.insert("grpc_status_error");
                self.grpc_failed(&t, &mut fx)
            }
            _ if on_reply.is_empty() => Out::Done,
            Answer::Ok(r) => {
                self.bindings.push((t.act.id.clone(), var.clone(), r.clone()));
                let mut children: Vec<Task> =
                    on_reply.iter().map(|c| Task { act: c.clone(), deps: vec![], requeued: false }).collect();
                children.append(&mut self.queue);
                self.queue = children;
                self.notes.insert("reply_ok");
                Out::Done
            }
            Answer::Garbage => {
                self.notes.insert("reply_garbage");
                self.grpc_failed(&t, &mut fx)
            }
            Answer::Empty | Answer::Status(_) => {
                self.notes.insert("reply_empty");
                self.grpc_failed(&t, &mut fx)
            }
        };
        if self.settle(t, out, &mut vec![]) {
            return fx;
        }
        fx.extend(self.run());
        fx
    }
}

impl Model {
    /// The whole response body has been seen: usage fields become known (JSON bodies).
    pub fn feed_response(&mut self, body: &[u8]) {
        let mut ptrs = vec![];
        fn grpc_ptrs(a: &Act, out: &mut Vec<String>) {
            if let Op::Grpc { domain, on_reply, .. } = &a.op {
                for x in [&a.pred, domain] {
                    walk(x, &mut |x| {
                        if let X::RespJson(p) = x {
                            out.push(p.clone());
                        }
                    });
                }
                for c in on_reply {
                    grpc_ptrs(c, out);
                }
            }
        }
        for t in self.queue.iter().chain(self.deferred.values()) {
            grpc_ptrs(&t.act, &mut ptrs);
        }
        let Ok(j) = serde_json::from_slice::<J>(body) else { return };
        for p in ptrs {
            match j.pointer(&p) {
                Some(J::String(s)) => {
                    self.resp_values.insert(p, V::S(s.clone()));
                }
                Some(J::Bool(b)) => {
                    self.resp_values.insert(p, V::B(*b));
                }
                Some(J::Number(n)) if n.is_u64() || n.is_i64() => {
                    self.resp_values.insert(p, V::I(n.as_i64().unwrap_or(0)));
                }
                _ => {}
            }
        }
    }
}
