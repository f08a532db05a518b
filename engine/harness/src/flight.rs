//! Drives one stream through the module the way Envoy would, in lockstep with the model.
use crate::model::*;
use crate::rng::Rng;
use crate::world::World;
use proxy_wasm::sim::{self, Ev, Rec, Stream};
use proxy_wasm::types::{Action, MapType};
use std::collections::BTreeMap;

pub const EFFECTS: u32 = 1;
/// the client gets no verdict although one is due
pub const REPLY_MISSING: u32 = 2;
pub const HEADERS: u32 = 4;
pub const METRICS: u32 = 8;
pub const HOLD: u32 = 16;
pub const RELEASE: u32 = 32;
pub const PANIC: u32 = 64;
pub const SINGLE: u32 = 128;
pub const PROPS: u32 = 256;
/// a verdict nobody asked for
pub const REPLY_EXTRA: u32 = 512;
/// a verdict with the wrong status, headers or body
pub const REPLY_CONTENT: u32 = 1024;
pub const REPLIES: u32 = REPLY_MISSING | REPLY_EXTRA | REPLY_CONTENT;
pub const ALL: u32 = 2047;
/// mismatches after which the model no longer describes the stream
const FATAL: u32 = EFFECTS | REPLIES | PANIC | SINGLE;

#[derive(Clone, Debug)]
pub struct Bad {
    pub kind: u32,
    pub what: String,
}

pub fn bad(kind: u32, what: impl Into<String>) -> Bad {
    Bad { kind, what: what.into() }
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub headers: Headers,
    pub props: BTreeMap<Vec<String>, Vec<u8>>,
    pub req_chunks: Vec<Vec<u8>>,
    /// trailers follow: no chunk is flagged as the last one
    pub req_trailers: bool,
    pub resp_trailers: bool,
    pub resp_headers: Headers,
    pub resp_chunks: Vec<Vec<u8>>,
    pub answers: BTreeMap<String, Answer>,
    pub local_reply_callbacks: bool,
    /// percentage of steps spent answering calls when both kinds are possible
    pub answer_bias: usize,
}

impl Plan {
    /// Chunks of the request body, and trailers.
    pub fn req_parts(&self) -> usize {
        self.req_chunks.len() + self.req_trailers as usize
    }

    pub fn stream(&self) -> Stream {
        Stream { props: self.props.clone(), req_headers: Some(self.headers.clone()), ..Default::default() }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stage {
    ReqHeaders,
    ReqBody(usize),
    RespHeaders,
    RespBody(usize),
    Finished,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hold {
    No,
    ReqHeaders,
    ReqBody,
    RespHeaders,
    RespBody,
}

pub struct Flight {
    pub ctx: u32,
    pub plan: Plan,
    pub stage: Stage,
    pub hold: Hold,
    pub model: Option<Model>,
    pub replies: usize,
    pub local: bool,
    pub trace: Vec<String>,
    seen_req: u32,
    seen_resp: u32,
    eos_held: bool,
    resp_body: Vec<u8>,
    pub steps: u32,
    pub callbacks: u32,
    /// which kinds of mismatch count for the property under check
    pub mask: u32,
    pub bads: Vec<Bad>,
    /// mismatches of other kinds
    pub other: u32,
    /// the next answer, whatever the plan says
    pub raw: Option<(u32, Option<Vec<u8>>)>,
    /// the calls made: the upstream of each, and which of the calls to that upstream it is
    made: Vec<(u32, String)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Stream,
    Answer(u32),
}

/// Names the nth call (from 0) to an upstream.
pub fn nth(upstream: &str, n: usize) -> String {
    if n == 0 { upstream.into() } else { format!("{upstream}#{n}") }
}

pub fn answer_bytes(a: &Answer) -> (u32, Option<Vec<u8>>) {
    match a {
        Answer::Ok(r) => {
            let b = crate::pb::rl_response(r.code, &r.headers);
            (0, if b.is_empty() { None } else { Some(b) })
        }
        Answer::Status(s) => (*s, None),
        Answer::Garbage => (0, Some(vec![0x0a, 0xff, 0xff, 0xff])),
        Answer::Empty => (0, None),
    }
}

pub fn show(e: &Ev) -> String {
    match e {
        Ev::Dispatch(t, c) => format!("dispatch token={t} to {}/{}/{} ({} bytes)", c.upstream, c.service, c.method, c.message.len()),
        Ev::Reply { status, headers, body } => {
            format!("local reply {status} {headers:?} {:?}", body.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()))
        }
        e => format!("{e:?}"),
    }
}

impl Flight {
    pub fn new(w: &mut World, plan: Plan, model: Option<Model>) -> Flight {
        let ctx = w.new_stream(plan.stream());
        Flight {
            ctx,
            plan,
            stage: Stage::ReqHeaders,
            hold: Hold::No,
            model,
            replies: 0,
            local: false,
            trace: vec![],
            seen_req: 0,
            seen_resp: 0,
            eos_held: false,
            resp_body: vec![],
            steps: 0,
            callbacks: 0,
            mask: ALL,
            bads: vec![],
            other: 0,
            raw: None,
            made: vec![],
        }
    }

    fn report(&mut self, kind: u32, what: String) {
        if kind & self.mask != 0 {
            self.bads.push(bad(kind, what));
        } else {
            self.other |= kind;
        }
    }

    /// Ends the callback: the first mismatch that counts, or a stop when the model lost track.
    fn verdict(&mut self) -> Result<(), Bad> {
        if let Some(b) = self.bads.first() {
            return Err(b.clone());
        }
        if self.other & FATAL != 0 {
            return Err(bad(0, "outside this property"));
        }
        Ok(())
    }

    fn resp_parts(&self) -> usize {
        if self.local { 1 } else { self.plan.resp_chunks.len() + self.plan.resp_trailers as usize }
    }

    pub fn enabled(&self, w: &World) -> Vec<Step> {
        let mut v = vec![];
        if self.stage == Stage::Finished {
            return v;
        }
        let progress = match (self.stage, self.hold) {
            (_, Hold::No) => true,
            // a paused body keeps buffering until its last chunk
            (Stage::ReqBody(i), Hold::ReqBody) => i < self.plan.req_parts(),
            (Stage::RespBody(i), Hold::RespBody) => i < self.resp_parts(),
            _ => false,
        };
        if progress {
            v.push(Step::Stream);
        }
        for t in w.outstanding(self.ctx) {
            v.push(Step::Answer(t));
        }
        v
    }

    /// Pick among the enabled steps.
    pub fn choose(&self, w: &World, rng: &mut Rng) -> Option<Step> {
        let steps = self.enabled(w);
        if steps.is_empty() {
            return None;
        }
        let answers: Vec<Step> = steps.iter().copied().filter(|s| *s != Step::Stream).collect();
        if steps[0] == Step::Stream && (answers.is_empty() || !rng.pct(self.plan.answer_bias)) {
            return Some(Step::Stream);
        }
        Some(*rng.pick(&answers))
    }

    pub fn step(&mut self, w: &mut World, s: Step) -> Result<(), Bad> {
        self.steps += 1;
        match s {
            Step::Stream => self.advance(w),
            Step::Answer(t) => self.answer(w, t),
        }
    }

    fn observe(&mut self, what: &str, mark: usize) -> Vec<Rec> {
        let recs: Vec<Rec> = World::since(mark).into_iter().filter(|r| r.ctx == self.ctx).collect();
        self.callbacks += 1;
        self.trace.push(format!("> {what}"));
        for r in &recs {
            if !matches!(r.ev, Ev::Enter(_) | Ev::ReadProp(..) | Ev::ReadMap(_) | Ev::ReadMapValue(..) | Ev::ReadBuffer(..)) {
                self.trace.push(format!("    {}", show(&r.ev)));
            }
        }
        recs
    }

    fn compare(&mut self, what: &str, mut want: Vec<Fx>, recs: &[Rec]) {
        let mut got: Vec<Fx> = vec![];
        for r in recs {
            match &r.ev {
                Ev::Panic(p) => {
                    let text = format!("panic in {what}: {p}");
                    self.report(PANIC, text);
                    return;
                }
                Ev::Dispatch(_, c) if c.upstream == "tracing-cluster" => {}
                Ev::DispatchRefused(c, _) if c.upstream == "tracing-cluster" => {}
                Ev::Dispatch(t, c) => {
                    let n = self.made.iter().filter(|(_, k)| k.split('#').next() == Some(&c.upstream)).count();
                    self.made.push((*t, nth(&c.upstream, n)));
                    let domain = crate::pb::dec(&c.message).map(|m| crate::pb::get_str(&m, 1)).unwrap_or_else(|| "<undecodable>".into());
                    got.push(Fx::Dispatch { upstream: c.upstream.clone(), domain })
                }
                Ev::DispatchRefused(c, _) => got.push(Fx::Refused { upstream: c.upstream.clone() }),
                Ev::Reply { status, headers, body } => {
                    self.replies += 1;
                    got.push(Fx::Reply { status: *status, headers: headers.clone(), body: body.clone().filter(|b| !b.is_empty()) })
                }
                Ev::SetMap(t, m) => got.push(Fx::SetMap { response: *t == MapType::HttpResponseHeaders, map: m.clone() }),
                Ev::SetProp(p, b) => got.push(Fx::SetProp { path: p.clone(), bytes: b.clone() }),
                Ev::Metric(n, v) => {
                    for _ in 0..*v {
                        got.push(Fx::Metric(n.clone()));
                    }
                }
                _ => {}
            }
        }
        if self.replies > 1 {
            let text = format!("{} local replies for one stream (last in {what})", self.replies);
            self.report(SINGLE, text);
        }
        let Some(m) = &self.model else { return };
        let (terminated, cause) = (m.terminated, m.cause);
        if self.replies == 1 {
            // nothing may reach a policy service once the client has its answer,
            // except what was already on the wire
            let pos = recs.iter().position(|r| matches!(r.ev, Ev::Reply { .. }));
            let after = match pos {
                Some(p) => &recs[p + 1..],
                None => recs,
            };
            for r in after {
                if let Ev::Dispatch(_, c) = &r.ev {
                    if c.upstream != "tracing-cluster" && terminated {
                        let text = format!("call to {} dispatched after the final local reply ({what})", c.upstream);
                        self.report(SINGLE, text);
                    }
                }
            }
        }
        let split = |v: &mut Vec<Fx>, f: fn(&Fx) -> bool| -> Vec<Fx> {
            let (a, b): (Vec<Fx>, Vec<Fx>) = v.drain(..).partition(f);
            *v = b;
            a
        };
        let mut out: Vec<(u32, String)> = vec![];
        let mut cmp = |kind: u32, name: &str, mut g: Vec<Fx>, mut w: Vec<Fx>, ordered: bool| {
            if !ordered {
                g.sort();
                w.sort();
            }
            if g != w {
                out.push((kind, format!("{what}: {name}: expected {w:?}, observed {g:?}")));
            }
        };
        let is_reply = |f: &Fx| matches!(f, Fx::Reply { .. });
        let (g, w) = (split(&mut got, is_reply), split(&mut want, is_reply));
        let kind = match (g.len(), w.len()) {
            (0, 1) => REPLY_MISSING,
            (1, 0) => REPLY_EXTRA,
            _ => REPLY_CONTENT,
        };
        cmp(kind, &format!("local reply ({cause})"), g, w, true);
        let is_call = |f: &Fx| matches!(f, Fx::Dispatch { .. } | Fx::Refused { .. });
        cmp(EFFECTS, "calls", split(&mut got, is_call), split(&mut want, is_call), false);
        let is_prop = |f: &Fx| matches!(f, Fx::SetProp { .. });
        cmp(PROPS, "exported attributes", split(&mut got, is_prop), split(&mut want, is_prop), false);
        let is_metric = |f: &Fx| matches!(f, Fx::Metric(_));
        cmp(METRICS, "metrics", split(&mut got, is_metric), split(&mut want, is_metric), false);
        // header maps: what counts is the map the proxy ends up with
        for resp in [false, true] {
            let last = |v: &[Fx]| v.iter().rev().find_map(|f| match f {
                Fx::SetMap { response, map } if *response == resp => Some(map.clone()),
                _ => None,
            });
            let (g, w) = (last(&got), last(&want));
            if g != w {
                out.push((HEADERS, format!("{what}: {} headers written: expected {w:?}, observed {g:?}", if resp { "response" } else { "request" })));
            }
        }
        for (k, t) in out {
            self.report(k, t);
        }
    }

    fn resumed(&mut self) -> (bool, bool) {
        let (a, b) = sim::with(|h| h.streams.get(&self.ctx).map_or((0, 0), |s| (s.resume_req, s.resume_resp)));
        let r = (a > self.seen_req, b > self.seen_resp);
        self.seen_req = a;
        self.seen_resp = b;
        r
    }

    /// Hold/release discipline after a callback. `action` is None for gRPC answers.
    fn discipline(&mut self, w: &World, what: &str, action: Option<Action>, eos_resp: bool) {
        let (rq, rs) = self.resumed();
        let replied_now = self.replies > 0 && !self.local;
        let was = self.hold;
        let in_resp = matches!(self.stage, Stage::RespHeaders | Stage::RespBody(_));
        let barrier = self.model.as_ref().map_or(0, |m| m.barrier());
        let out = w.outstanding(self.ctx).len();
        let terminated = self.model.as_ref().is_some_and(|m| m.terminated);
        let modelled = self.model.is_some();

        // 1. guards outstanding => the stream must stay where it is
        if modelled && barrier > 0 && !terminated {
            if let Some(a) = action {
                if a != Action::Pause {
                    let text = format!("{what}: let the stream continue with {barrier} guarding call(s) outstanding");
                self.report(HOLD, text);
                }
            }
            if rq || rs {
                let text = format!("{what}: resumed the stream with {barrier} guarding call(s) outstanding");
                self.report(HOLD, text);
            }
        }
        // 1b. a request that was answered here is not sent on
        if modelled && self.replies > 0 && rq {
            let text = format!("{what}: told the host to go on with a request that has been answered with a local reply");
            self.report(SINGLE, text);
        }
        // the end of the response waits for the calls still on the wire: ending the stream
        // would cancel them
        if modelled && eos_resp && !terminated && action == Some(Action::Continue) {
            let n = self.model.as_ref().map_or(0, |m| m.deferred.len());
            if n > 0 {
                let text = format!("{what}: let the response end with {n} call(s) unanswered");
                self.report(HOLD, text);
            }
        }
        // 2. apply the outcome
        if let Some(a) = action {
            if a == Action::Pause && !replied_now {
                self.hold = match self.stage {
                    Stage::ReqHeaders => Hold::ReqHeaders,
                    Stage::ReqBody(_) => Hold::ReqBody,
                    Stage::RespHeaders => Hold::RespHeaders,
                    Stage::RespBody(_) => Hold::RespBody,
                    Stage::Finished => Hold::No,
                };
            } else if a == Action::Continue {
                self.hold = Hold::No;
            }
        }
        if rq && matches!(self.hold, Hold::ReqHeaders | Hold::ReqBody) {
            self.hold = Hold::No;
        }
        if rs && matches!(self.hold, Hold::RespHeaders | Hold::RespBody) {
            self.hold = Hold::No;
        }
        if self.hold != Hold::RespBody {
            self.eos_held = false;
        }
        if eos_resp && self.hold == Hold::RespBody {
            self.eos_held = true;
        }
        if let Some(m) = self.model.as_mut() {
            if barrier > 0 && self.hold != Hold::No {
                m.notes.insert("held_by_guard");
            }
            if barrier == 0 && !m.deferred.is_empty() && action == Some(Action::Continue) {
                m.notes.insert("unguarded_in_flight");
            }
            if self.eos_held {
                m.notes.insert("response_end_held");
            }
        }
        // 3. nothing to wait for => the stream must not be held
        if self.hold != Hold::No && !replied_now {
            if out == 0 {
                let text = format!("{what}: stream held with no call outstanding");
                self.report(RELEASE, text);
            }
            if modelled && barrier == 0 && !self.eos_held && !(terminated && !in_resp) {
                let text = format!("{what}: stream still held although every guarding call has been answered (was {was:?})");
                self.report(RELEASE, text);
            }
        }
        if replied_now {
            self.hold = Hold::No;
        }
    }

    fn advance(&mut self, w: &mut World) -> Result<(), Bad> {
        match self.stage {
            Stage::ReqHeaders => {
                let eos = self.plan.req_parts() == 0;
                let mark = World::mark();
                let a = w.request_headers(self.ctx, eos);
                let what = format!("request_headers(end_of_stream={eos})");
                let recs = self.observe(&what, mark);
                let want = match self.model.as_mut() {
                    Some(m) => {
                        if eos {
                            m.req_body = Some((vec![], true));
                        }
                        let mut f = vec![Fx::Metric(if m.matched { "kuadrant.hits" } else { "kuadrant.misses" }.into())];
                        f.extend(m.run());
                        f
                    }
                    None => vec![],
                };
                self.compare(&what, want, &recs);
                self.discipline(w, &what, Some(a), false);
                self.stage = if eos { Stage::RespHeaders } else { Stage::ReqBody(0) };
            }
            Stage::ReqBody(i) => {
                let n = self.plan.req_parts();
                let trailers = i == self.plan.req_chunks.len();
                let chunk = self.plan.req_chunks.get(i).cloned().unwrap_or_default();
                let eos = i + 1 == n;
                let held = self.hold == Hold::ReqBody;
                let buf = sim::with(|h| {
                    let s = h.streams.get_mut(&self.ctx).unwrap();
                    let mut b = if held { s.req_buf.take().unwrap_or_default() } else { vec![] };
                    b.extend_from_slice(&chunk);
                    s.req_buf = Some(b.clone());
                    b
                });
                let mark = World::mark();
                let (a, what) = if trailers {
                    (w.request_trailers(self.ctx), "request_trailers".to_string())
                } else {
                    let a = w.request_body(self.ctx, buf.len(), eos);
                    (a, format!("request_body(chunk {i}, buffer={}, end_of_stream={eos})", buf.len()))
                };
                let recs = self.observe(&what, mark);
                let all: Vec<u8> = self.plan.req_chunks[..(i + 1).min(self.plan.req_chunks.len())].concat();
                let want = match self.model.as_mut() {
                    Some(m) => {
                        m.req_body = Some((all, eos));
                        m.run()
                    }
                    None => vec![],
                };
                self.compare(&what, want, &recs);
                self.discipline(w, &what, Some(a), false);
                if self.hold != Hold::ReqBody {
                    sim::with(|h| h.streams.get_mut(&self.ctx).unwrap().req_buf = None);
                }
                self.stage = if eos { Stage::RespHeaders } else { Stage::ReqBody(i + 1) };
                if eos && self.hold == Hold::ReqBody {
                    self.stage = Stage::ReqBody(n);
                }
            }
            Stage::RespHeaders => {
                let eos = if self.local { false } else { self.resp_parts() == 0 };
                let mark = World::mark();
                sim::with(|h| {
                    let s = h.streams.get_mut(&self.ctx).unwrap();
                    s.resp_headers = Some(self.plan.resp_headers.clone());
                });
                let a = w.response_headers(self.ctx, eos);
                let what = format!("response_headers(end_of_stream={eos})");
                let recs = self.observe(&what, mark);
                let resp = self.plan.resp_headers.clone();
                let want = match self.model.as_mut() {
                    Some(m) => {
                        m.in_response = true;
                        m.resp_headers = Some(resp);
                        let mut f = vec![Fx::Metric("kuadrant.allowed".into())];
                        f.extend(m.run());
                        f
                    }
                    None => vec![],
                };
                self.compare(&what, want, &recs);
                self.discipline(w, &what, Some(a), false);
                self.stage = if eos { Stage::RespBody(0) } else { Stage::RespBody(0) };
                if eos && self.hold == Hold::No {
                    self.stage = Stage::Finished;
                }
            }
            Stage::RespBody(i) => {
                let chunks: Vec<Vec<u8>> =
                    if self.local { vec![b"local".to_vec()] } else { self.plan.resp_chunks.clone() };
                if i >= self.resp_parts() {
                    self.stage = Stage::Finished;
                    return Ok(());
                }
                let trailers = i == chunks.len();
                let chunk = chunks.get(i).cloned().unwrap_or_default();
                let eos = i + 1 == self.resp_parts();
                let held = self.hold == Hold::RespBody;
                let buf = sim::with(|h| {
                    let s = h.streams.get_mut(&self.ctx).unwrap();
                    let mut b = if held { s.resp_buf.take().unwrap_or_default() } else { vec![] };
                    b.extend_from_slice(&chunk);
                    s.resp_buf = Some(b.clone());
                    b
                });
                self.resp_body.extend_from_slice(&chunk);
                let mark = World::mark();
                let (a, what) = if trailers {
                    (w.response_trailers(self.ctx), "response_trailers".to_string())
                } else {
                    let a = w.response_body(self.ctx, buf.len(), eos);
                    (a, format!("response_body(chunk {i}, buffer={}, end_of_stream={eos})", buf.len()))
                };
                let recs = self.observe(&what, mark);
                let body = self.resp_body.clone();
                let want = match self.model.as_mut() {
                    Some(m) => {
                        m.resp_started = true;
                        if eos {
                            m.resp_eos = true;
                            m.feed_response(&body);
                        }
                        m.run()
                    }
                    None => vec![],
                };
                self.compare(&what, want, &recs);
                self.discipline(w, &what, Some(a), eos);
                if self.hold != Hold::RespBody {
                    sim::with(|h| h.streams.get_mut(&self.ctx).unwrap().resp_buf = None);
                }
                self.stage = Stage::RespBody(i + 1);
                if eos && self.hold == Hold::No {
                    self.stage = Stage::Finished;
                }
            }
            Stage::Finished => {}
        }
        self.after();
        self.verdict()
    }

    /// A local reply sends Envoy to the response path (or ends the stream).
    fn after(&mut self) {
        if self.replies > 0 && !self.local && self.stage != Stage::Finished {
            self.local = true;
            self.hold = Hold::No;
            let already = self.model.as_ref().is_some_and(|m| m.in_response);
            if self.plan.local_reply_callbacks && !already {
                self.stage = Stage::RespHeaders;
                self.plan.resp_headers = vec![(":status".into(), "500".into()), ("content-type".into(), "text/plain".into())];
            } else {
                self.stage = Stage::Finished;
            }
        }
        // a held final chunk that has been released
        match (self.stage, self.hold) {
            (Stage::ReqBody(i), Hold::No) if i > 0 && i >= self.plan.req_parts() => self.stage = Stage::RespHeaders,
            _ => {}
        }
    }

    fn answer(&mut self, w: &mut World, token: u32) -> Result<(), Bad> {
        let up = sim::with(|h| h.tokens.get(&token).map(|t| t.call.upstream.clone())).unwrap_or_default();
        let key = self.made.iter().find(|(t, _)| *t == token).map_or(up.clone(), |(_, k)| k.clone());
        let a = self.plan.answers.get(&key).or(self.plan.answers.get(&up)).cloned().unwrap_or(Answer::Empty);
        let (status, body) = self.raw.take().unwrap_or_else(|| answer_bytes(&a));
        let a = if matches!(&a, Answer::Ok(_)) && body.is_none() { Answer::Empty } else { a };
        let mark = World::mark();
        w.grpc_reply(token, status, body);
        let what = format!("grpc_reply(token={token} from {up}, {a:?})");
        let recs = self.observe(&what, mark);
        let want = match self.model.as_mut() {
            Some(m) => m.answer(&key, &a),
            None => vec![],
        };
        self.compare(&what, want, &recs);
        let before = self.hold;
        self.discipline(w, &what, None, false);
        if before == Hold::ReqBody && self.hold == Hold::No {
            sim::with(|h| h.streams.get_mut(&self.ctx).unwrap().req_buf = None);
        }
        if before == Hold::RespBody && self.hold == Hold::No {
            sim::with(|h| h.streams.get_mut(&self.ctx).unwrap().resp_buf = None);
        }
        self.after();
        self.verdict()
    }

    /// Run to the end with random choices; a stream that can make no step is stalled.
    pub fn run(&mut self, w: &mut World, rng: &mut Rng) -> Result<(), Bad> {
        while self.stage != Stage::Finished {
            let Some(s) = self.choose(w, rng) else {
                return Err(bad(RELEASE, format!("stream stuck at {:?} holding {:?} with nothing left to wait for", self.stage, self.hold)));
            };
            self.step(w, s)?;
            if self.steps > 400 {
                return Err(bad(RELEASE, "no progress after 400 steps"));
            }
        }
        self.finish(w)
    }

    pub fn finish(&mut self, w: &mut World) -> Result<(), Bad> {
        let mark = World::mark();
        w.log_done(self.ctx);
        w.destroy(self.ctx);
        let recs = self.observe("destroy", mark);
        for r in &recs {
            match &r.ev {
                Ev::Panic(p) => return Err(bad(PANIC, format!("panic while the stream is destroyed: {p}"))),
                Ev::Dispatch(..) | Ev::Reply { .. } => {
                    return Err(bad(EFFECTS, format!("activity while the stream is destroyed: {}", show(&r.ev))))
                }
                _ => {}
            }
        }
        Ok(())
    }
}
