//! G25: the log follows the level the proxy sets, and failures are in it.
//! The same history is run with everything logged and again with levels that change on the
//! way: what the second shows must be what the first showed, less what is not severe enough.
use super::kit::*;
use super::{messages, soup};
use crate::prop::*;
use crate::rng::Rng;
use crate::world::{World, ROOT};
use proxy_wasm::sim::{self, Ev, Kind};
use proxy_wasm::types::{LogLevel, Status};
use std::collections::BTreeMap;

const LEVELS: [LogLevel; 6] =
    [LogLevel::Trace, LogLevel::Debug, LogLevel::Info, LogLevel::Warn, LogLevel::Error, LogLevel::Critical];

/// One callback: what it was, what the proxy lets through, what the module may go by.
struct Span {
    what: String,
    host: LogLevel,
    strict: LogLevel,
    exact: bool,
    lines: Vec<(LogLevel, String)>,
    errors: i64,
    stand_in: bool,
    refused: Option<&'static str>,
    config: String,
    /// messages of the fail actions in force, and whether this callback has to log them
    fails: Vec<(String, bool)>,
    trace: Vec<String>,
}

struct Out {
    spans: Vec<Span>,
    shape: String,
    config: String,
    panicked: bool,
}

/// Texts differ by the order in which maps are shown and by identifiers made up on the spot.
fn plain(s: &str) -> String {
    let mut w: Vec<&str> = s.split(|c: char| !c.is_ascii_alphabetic()).filter(|w| !w.chars().all(|c| c.is_ascii_hexdigit())).collect();
    w.sort();
    w.join(" ")
}

struct Run {
    w: World,
    out: Out,
    /// the least talkative level the module may still go by: it is bound to look with each new
    /// request and configuration, and free to do so at any other time
    known: LogLevel,
    vary: Option<Rng>,
    mark: usize,
    /// how often the level changes, in %
    change: usize,
}

impl Run {
    fn level(&mut self) {
        if let Some(r) = &mut self.vary {
            if r.pct(self.change) {
                let l = *r.pick(&LEVELS);
                sim::with(|h| h.log_level = l);
            }
        }
    }
    /// Close the callback just made. `notices`: the module looks at the level in it.
    fn close(&mut self, what: &str, notices: bool, refused: Option<&'static str>) {
        let host = sim::with(|h| h.log_level);
        if self.known as i32 <= host as i32 {
            self.known = host;
        }
        let (strict, exact) = (self.known, self.known == host);
        let mut lines = vec![];
        let (mut errors, mut stand_in) = (0, false);
        for r in World::since(self.mark) {
            match r.ev {
                Ev::Log(l, t) if l as i32 >= host as i32 => lines.push((l, t)),
                Ev::Metric(n, k) if n == "kuadrant.errors" => errors += k,
                Ev::Reply { status: 500, body: Some(b), .. } if b.starts_with(b"Internal Server Error") => stand_in = true,
                _ => {}
            }
        }
        let trace = seen(self.mark).trace;
        self.mark = World::mark();
        self.out.spans.push(Span { what: what.into(), host, strict, exact, lines, errors, stand_in, refused, config: self.out.config.clone(), fails: vec![], trace });
        if notices {
            self.known = host;
        }
        self.out.panicked |= self.w.panicked.is_some();
        self.level();
    }
}

/// Spans of earlier histories are still there: have them exported.
fn drain() {
    let mut w = World::new();
    let c = serde_json::json!({"services": {"tr": svc("tracing", "tracing-cluster", "allow")},
        "observability": {"httpHeaderIdentifier": "x-id", "defaultLevel": "TRACE", "tracing": {"service": "tr"}},
        "actionSets": [aset("s", "*", vec![set_headers(true, "[['x-r', 'y']]", "true")])]});
    if w.configure(&c.to_string()) {
        let q = soup::request(&mut Rng::new(1), 0, true);
        let ctx = w.new_stream(sim::Stream { props: q.props, req_headers: Some(q.headers), ..Default::default() });
        w.request_headers(ctx, true);
        respond(ctx, vec![(":status".into(), "200".into())]);
        w.response_headers(ctx, true);
        w.destroy(ctx);
    }
}

fn history(seed: u64, vary: Option<u64>) -> Out {
    let rng = &mut Rng::new(seed);
    let out = Out { spans: vec![], shape: String::new(), config: String::new(), panicked: false };
    drain();
    let w = World::new();
    log::set_max_level(log::LevelFilter::Trace);
    sim::with(|h| {
        h.keep_logs = true;
        h.log_level = LogLevel::Trace;
    });
    let mut r = Run { w, out, known: LogLevel::Critical, vary: vary.map(Rng::new), mark: 0, change: 20 };
    // some are about little else than levels
    let brief = rng.pct(40);
    if brief {
        r.change = 50;
    }
    r.level();
    if rng.pct(40) {
        let salt = rng.next();
        let rate = rng.range(1, 20);
        // by what is asked for, not by how many calls there were; and not when attributes are
        // read, the order of which is the module's own business
        sim::with(|h| {
            h.faults = Some(Box::new(move |ctx, k, what| {
                if !matches!(k, Kind::Dispatch | Kind::SendReply | Kind::SetProperty | Kind::SetMap | Kind::GetBuffer | Kind::TickPeriod) {
                    return None;
                }
                let mut fr = Rng::new(salt ^ what.bytes().fold((ctx as u64) << 8 | k as u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)));
                fr.next();
                fr.pct(rate).then(|| *fr.pick(&[Status::NotFound, Status::BadArgument, Status::InternalFailure]))
            }))
        });
    }
    let opts = soup::Opts { broken: rng.pct(40), tracing: false };
    let mut live: Vec<(u32, soup::Request)> = vec![];
    let mut fails: Vec<(String, bool)> = vec![];
    let steps = rng.range(8, 40);
    for step in 0..steps {
        let op = if step == 0 { 0 } else { rng.below(if brief { 10 } else { 30 }) };
        match op {
            0 | 1 => {
                let mut said = vec![];
                let mut c = if brief {
                    let mut acts = vec![set_headers(false, "[['x-a', 'b']]", "true")];
                    let mut over = false;
                    for i in 0..rng.below(4) {
                        let text = format!("{}-{step}-{i}", rng.pick(&["no quota", "failed: {}", "caf\u{e9} \"closed\"", "%s"]));
                        let (holds, ends) = (rng.pct(50), rng.pct(20));
                        let pred = *rng.pick(if holds { &["true", "request.host != ''"] } else { &["false", "request.host == ''"] });
                        acts.push(serde_json::json!({"type": "fail", "predicate": pred, "terminal": ends, "logMessage": text}));
                        said.push((text, holds && !over));
                        over |= holds && ends;
                    }
                    serde_json::json!({"services": {}, "actionSets": [aset("s", "*", acts)]})
                } else {
                    soup::config(rng, &opts)
                };
                if step > 0 && rng.pct(40) {
                    // no configuration of ours
                    c["services"] = serde_json::json!({"rl": {"type": "nothing", "endpoint": 1}});
                }
                let text = c.to_string();
                r.out.config = text.clone();
                let ok = r.w.configure(&text);
                if ok {
                    fails = said;
                }
                r.out.shape.push(if ok { 'C' } else { 'c' });
                r.close(if ok { "configure" } else { "refused configuration" }, ok, (!ok).then_some("a configuration was rejected"));
            }
            2 => {
                r.w.tick();
                r.close("tick", false, None);
                r.out.shape.push('t');
            }
            3 => {
                for t in r.w.outstanding(ROOT) {
                    let d = messages::descriptor_answer(&[("dyn-cluster", soup::DYN, soup::descriptors())]);
                    let (status, body) = match rng.below(10) {
                        0 | 1 => (14, Some(d)),
                        2 => (0, None),
                        3 => (0, Some(vec![0x0a, 0x7f, 1])),
                        4 => (0, Some(messages::descriptor_answer(&[("dyn-cluster", soup::DYN, vec![0xff, 0xff, 1])]))),
                        _ => (0, Some(d)),
                    };
                    let fails = status != 0 || body.as_ref().is_none_or(|b| b.len() < 60);
                    r.w.grpc_reply(t, status, body);
                    r.close("descriptors", false, fails.then_some("descriptors could not be had"));
                    r.out.shape.push(if fails { 'f' } else { 'D' });
                }
            }
            4..=9 => {
                let q = soup::request(rng, step, false);
                let ctx = r.w.new_stream(sim::Stream { props: q.props.clone(), req_headers: Some(q.headers.clone()), ..Default::default() });
                r.close("new request", true, None);
                r.w.request_headers(ctx, q.req.is_empty());
                r.close("request headers", false, None);
                r.out.spans.last_mut().expect("span").fails = fails.clone();
                live.push((ctx, q));
                r.out.shape.push('s');
            }
            10..=14 if !live.is_empty() => {
                let k = rng.below(live.len());
                let (ctx, b) = (live[k].0, live[k].1.req.concat());
                let n = b.len();
                buffer(ctx, false, Some(b));
                r.w.request_body(ctx, n, true);
                r.close("request body", false, None);
                r.out.shape.push('q');
            }
            15..=18 if !live.is_empty() => {
                let k = rng.below(live.len());
                let ctx = live[k].0;
                respond(ctx, live[k].1.resp_headers.clone());
                r.w.response_headers(ctx, false);
                r.close("response headers", false, None);
                let b = live[k].1.resp.concat();
                let n = b.len();
                buffer(ctx, true, Some(b));
                r.w.response_body(ctx, n, true);
                r.close("response body", false, None);
                r.out.shape.push('r');
            }
            19..=27 if !live.is_empty() => {
                let k = rng.below(live.len());
                let ctx = live[k].0;
                if let Some(t) = r.w.outstanding(ctx).first().copied() {
                    let service = sim::with(|h| h.tokens[&t].call.service.clone());
                    let (st, b) = soup::reply(rng, &service);
                    r.w.grpc_reply(t, st, b);
                    r.close("answer", false, None);
                    r.out.shape.push('a');
                }
            }
            28 if !live.is_empty() => {
                let k = rng.below(live.len());
                let (ctx, _) = live.remove(k);
                r.w.log_done(ctx);
                r.w.destroy(ctx);
                r.close("end", false, None);
                r.out.shape.push('d');
            }
            _ => {}
        }
        if r.out.panicked {
            break;
        }
    }
    log::set_max_level(log::LevelFilter::Warn);
    r.out
}

fn tally(lines: impl Iterator<Item = (LogLevel, String)>) -> BTreeMap<(i32, String), i64> {
    let mut m = BTreeMap::new();
    for (l, t) in lines {
        *m.entry((l as i32, plain(&t))).or_default() += 1;
    }
    m
}

fn g25(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let seed = rng.next();
    let all = history(seed, None);
    let some = history(seed, Some(rng.next()));
    let trouble = |sig: &str, s: &Span, d: String| {
        let mut v = Violation::new(sig, d).cfg(&s.config);
        v.trace = s.trace.clone();
        v
    };
    if all.panicked || some.panicked {
        return Ok(()); // G20's
    }
    for s in &all.spans {
        let severe = s.lines.iter().filter(|(l, _)| *l as i32 >= LogLevel::Error as i32).count() as i64;
        if s.errors > 0 {
            cov.state("error_counted");
            if severe == 0 {
                return Err(trouble("error-not-logged", s, format!("{}: an error was counted, none logged", s.what)));
            }
        }
        if let Some(why) = s.refused {
            cov.state(why);
            if severe == 0 {
                return Err(trouble("failure-not-logged", s, format!("{}: {why}, no error logged", s.what)));
            }
        }
        if s.stand_in {
            cov.state("stand_in_reply");
            if severe == 0 {
                return Err(trouble("reply-not-explained", s, format!("{}: the default reply was sent, no error logged", s.what)));
            }
        }
        for (text, holds) in &s.fails {
            cov.state(if *holds { "fail_action" } else { "fail_action_not_run" });
            let n = s.lines.iter().filter(|(l, t)| *l as i32 >= LogLevel::Error as i32 && t.contains(text.as_str())).count();
            if n != *holds as usize {
                return Err(trouble("fail-message", s, format!("the message {text:?} of a fail action that {} is in the log {n} times\n{:#?}", if *holds { "applies" } else { "does not apply" }, s.lines)));
            }
        }
        for (l, _) in &s.lines {
            cov.state(["trace", "debug", "info", "warn", "error", "critical"][*l as usize]);
        }
    }
    if all.spans.iter().any(|s| s.what == "request headers") && !all.spans.iter().any(|s| s.lines.iter().any(|(l, _)| (*l as i32) < LogLevel::Info as i32)) {
        return Err(trouble("silent", &all.spans[0], "with the level at trace since before the first request, nothing of level debug or trace was ever logged".into()));
    }
    if all.spans.len() != some.spans.len() || all.shape != some.shape {
        return Err(trouble("other-history", &all.spans[0], format!("with other levels the same history went another way: {} and {}", all.shape, some.shape)));
    }
    for (i, (a, s)) in all.spans.iter().zip(&some.spans).enumerate() {
        cov.events += 1;
        let must = tally(a.lines.iter().filter(|(l, _)| *l as i32 >= s.strict as i32).cloned());
        let may = tally(a.lines.iter().filter(|(l, _)| *l as i32 >= s.host as i32).cloned());
        let got = tally(s.lines.iter().cloned());
        cov.state(if s.exact { "level_settled" } else { "level_changing" });
        cov.state(match s.host {
            LogLevel::Trace => "at_trace",
            LogLevel::Debug => "at_debug",
            LogLevel::Info => "at_info",
            LogLevel::Warn => "at_warn",
            LogLevel::Error => "at_error",
            LogLevel::Critical => "at_critical",
        });
        if let Some(k) = must.iter().find(|(k, n)| got.get(k).copied().unwrap_or(0) < **n) {
            return Err(trouble("line-missing", a, format!("callback {i} ({}) at level {:?}: missing {k:?}\nall: {:#?}\nshown: {:#?}", s.what, s.host, a.lines, s.lines)));
        }
        if let Some(k) = got.iter().find(|(k, n)| may.get(k).copied().unwrap_or(0) < **n) {
            return Err(trouble("line-extra", a, format!("callback {i} ({}) at level {:?}: not among all {k:?}\nall: {:#?}\nshown: {:#?}", s.what, s.host, a.lines, s.lines)));
        }
    }
    cov.distinct(&format!("{}{:?}", all.shape, some.spans.iter().map(|s| s.host as i32).collect::<Vec<_>>()));
    if rng.pct(1) {
        cov.sample(all.spans.iter().flat_map(|s| s.lines.iter().filter(|l| l.0 as i32 >= 3).map(|l| format!("{}: {l:?}", s.what))).take(20).collect::<Vec<_>>().join("\n"));
    }
    Ok(())
}

pub static G25: Prop = Prop {
    id: "G25",
    level: "exploration",
    rule: "a case counts as distinct by its sequence of callbacks and the level in force at each",
    quick: 3000,
    thorough: 200_000,
    case: g25,
    probes: &[],
    need: &[
        "error_counted", "a configuration was rejected", "descriptors could not be had", "stand_in_reply", "trace", "debug", "info", "warn", "error", "level_settled",
        "level_changing", "fail_action", "fail_action_not_run", "at_trace", "at_debug", "at_info", "at_warn", "at_error", "at_critical",
    ],
    assumptions: super::pipeline::ASSUME,
};
