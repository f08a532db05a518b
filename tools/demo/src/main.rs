//! Plays scenario.json against the module: each step is one callback, with what the module
//! must (`has`) and must not (`hasnt`) ask of the host during it.
mod pb;
mod world;
use proxy_wasm::sim::{self, Ev, Kind, Stream};
use proxy_wasm::types::{LogLevel, MapType, Status};
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet};
use world::World;

fn pairs(j: &J) -> Vec<(String, String)> {
    j.as_array().into_iter().flatten().map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string())).collect()
}

fn bytes(j: &J) -> Option<Vec<u8>> {
    match j {
        J::Null => None,
        J::String(s) => Some(s.as_bytes().to_vec()),
        J::Array(a) => Some(a.iter().map(|b| b.as_u64().unwrap() as u8).collect()),
        J::Object(o) => Some(match (&o.get("code"), &o.get("pb")) {
            (Some(c), _) => pb::rl_response(c.as_i64().unwrap(), &pairs(o.get("headers").unwrap_or(&J::Null))),
            (_, Some(m)) => pb::enc(&msg(m)),
            (_, _) => vec![],
        }),
        _ => panic!("bytes"),
    }
}

/// [[field, value], ...] with numbers, strings and nested lists as values
fn msg(j: &J) -> Vec<(u32, pb::W)> {
    j.as_array()
        .into_iter()
        .flatten()
        .map(|e| {
            let f = e[0].as_u64().unwrap() as u32;
            match &e[1] {
                J::Number(n) => pb::int(f, n.as_i64().unwrap()),
                J::Bool(b) => pb::int(f, *b as i64),
                J::String(s) => pb::s(f, s),
                m => pb::sub(f, &msg(m)),
            }
        })
        .collect()
}

fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn tree(b: &[u8], depth: usize) -> String {
    let printable = std::str::from_utf8(b).is_ok_and(|s| !s.chars().any(|c| c.is_control()));
    if depth > 12 {
        return text(b);
    }
    match pb::dec(b) {
        Some(m) if !m.is_empty() && (!printable || depth == 0) => {
            let v: Vec<String> = m
                .iter()
                .map(|(f, w)| match w {
                    pb::W::Varint(v) => format!("{f}={v}"),
                    pb::W::Fixed64(v) => format!("{f}={}", f64::from_bits(*v)),
                    pb::W::Fixed32(v) => format!("{f}={v}"),
                    pb::W::Len(b) => format!("{f}={}", tree(b, depth + 1)),
                })
                .collect();
            format!("{{{}}}", v.join(" "))
        }
        _ => text(b),
    }
}

fn show(e: &Ev) -> String {
    match e {
        Ev::Dispatch(_, c) => {
            let md: Vec<String> = c.metadata.iter().map(|(k, v)| format!("{k}={}", text(v))).collect();
            format!("call {} {}/{} {}ms {} [{}]", c.upstream, c.service, c.method, c.timeout.as_millis(), tree(&c.message, 0), md.join(" "))
        }
        Ev::DispatchRefused(c, _) => format!("refused {}", c.upstream),
        Ev::Reply { status, headers, body } => format!("reply {status} {headers:?} {:?}", body.as_ref().map(|b| text(b))),
        Ev::SetMap(t, m) => format!("set {} {m:?}", if *t == MapType::HttpRequestHeaders { "request" } else { "response" }),
        Ev::SetProp(p, b) => format!("export {} {}", p.join("."), tree(b, 0)),
        Ev::ResumeRequest => "resume request".into(),
        Ev::ResumeResponse => "resume response".into(),
        Ev::Metric(n, k) => format!("metric {n} {k}"),
        Ev::Panic(p) => format!("panic {p}"),
        Ev::TickPeriod(d) => format!("tick {}ms", d.as_millis()),
        Ev::Log(l, s) => format!("log {l:?} {s}"),
        e => format!("{e:?}"),
    }
}

fn hidden(e: &Ev) -> bool {
    matches!(e, Ev::Log(l, _) if (*l as i32) < sim::with(|h| h.log_level) as i32)
}

struct Counting;
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);

unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::GlobalAlloc::alloc(&std::alloc::System, l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::GlobalAlloc::dealloc(&std::alloc::System, p, l)
    }
}

#[global_allocator]
static COUNTING: Counting = Counting;

/// {"repeat": n, "steps": [...]}: the steps n times over, with % in texts replaced by the round
fn unroll(steps: &J) -> Vec<J> {
    let mut all = vec![];
    for s in steps.as_array().expect("steps") {
        match s["repeat"].as_u64() {
            Some(n) => (0..n).for_each(|i| all.extend(unroll(&serde_json::from_str(&s["steps"].to_string().replace('%', &i.to_string())).unwrap()))),
            None => all.push(s.clone()),
        }
    }
    all
}

fn main() {
    let path = std::env::args().nth(1).expect("scenario");
    let steps: J = serde_json::from_str(&std::fs::read_to_string(path).expect("read")).expect("json");
    let mut w = World::new();
    let mut ids: BTreeMap<String, u32> = BTreeMap::new();
    let mut bad = 0;
    let mut memory = 0;
    for (n, s) in unroll(&steps).iter().enumerate() {
        let mut mark = World::mark();
        let of = |k: &str| s[k].as_str().map(|x| ids[x]);
        let mut action = String::new();
        if !s["configure"].is_null() {
            let t = match &s["configure"] {
                J::String(t) => t.clone(),
                j => j.to_string(),
            };
            action = w.configure(&t).to_string();
        } else if let Some(r) = s["refuse"].as_array() {
            let r: BTreeSet<String> = r.iter().map(|x| x.as_str().unwrap().to_string()).collect();
            sim::with(|h| h.faults = Some(Box::new(move |_, k, what| (k == Kind::Dispatch && r.contains(what)).then_some(Status::BadArgument))));
        } else if let Some(r) = s["withhold"].as_array() {
            let r: BTreeSet<String> = r.iter().map(|x| x.as_str().unwrap().to_string()).collect();
            sim::with(|h| h.faults = Some(Box::new(move |_, k, what| (k == Kind::GetProperty && r.contains(what)).then_some(Status::BadArgument))));
        } else if let Some(name) = s["stream"].as_str() {
            let mut props = BTreeMap::new();
            for (k, v) in s["props"].as_object().into_iter().flatten() {
                let v = match v {
                    J::Number(n) => n.as_i64().unwrap().to_le_bytes().to_vec(),
                    J::Object(t) if t.contains_key("bytes") => bytes(&t["bytes"]).unwrap(),
                    v => bytes(v).unwrap(),
                };
                props.insert(k.split('.').map(|t| t.to_string()).collect(), v);
            }
            let id = w.new_stream(Stream { props, req_headers: Some(pairs(&s["headers"])), ..Default::default() });
            ids.insert(name.to_string(), id);
        } else if let Some(c) = of("request_headers") {
            action = format!("{:?}", w.request_headers(c, s["eos"].as_bool().unwrap_or(true)));
        } else if let Some(c) = of("request_body") {
            let b = bytes(&s["buffer"]).unwrap_or_default();
            let l = b.len();
            sim::with(|h| h.streams.get_mut(&c).unwrap().req_buf = Some(b));
            action = format!("{:?}", w.request_body(c, l, s["eos"].as_bool().unwrap_or(true)));
        } else if let Some(c) = of("response_headers") {
            sim::with(|h| h.streams.get_mut(&c).unwrap().resp_headers = Some(pairs(&s["headers"])));
            action = format!("{:?}", w.response_headers(c, s["eos"].as_bool().unwrap_or(false)));
        } else if let Some(c) = of("response_body") {
            let b = bytes(&s["buffer"]).unwrap_or_default();
            let l = b.len();
            sim::with(|h| h.streams.get_mut(&c).unwrap().resp_buf = Some(b));
            action = format!("{:?}", w.response_body(c, l, s["eos"].as_bool().unwrap_or(true)));
        } else if let Some(to) = s["answer"].as_str() {
            // the oldest outstanding call to that upstream
            let t = sim::with(|h| h.tokens.iter().find(|(_, t)| t.call.upstream == to).map(|(k, _)| *k));
            match t {
                Some(t) => w.grpc_reply(t, s["status"].as_u64().unwrap_or(0) as u32, bytes(&s["message"])),
                None => {
                    println!("step {n}: no call to {to} is outstanding");
                    bad += 1;
                }
            }
        } else if let Some(most) = s["memory"].as_i64() {
            // what has been kept since the last such step, event log aside
            sim::with(|h| h.events = Vec::new());
            mark = 0;
            let live = LIVE.load(std::sync::atomic::Ordering::Relaxed);
            action = (if live - memory <= most { "less" } else { "more" }).to_string();
            println!("memory: {} bytes more than before", live - memory);
            memory = live;
        } else if let Some(l) = s["log_level"].as_str() {
            // what the proxy logs from here on
            let l = *[LogLevel::Trace, LogLevel::Debug, LogLevel::Info, LogLevel::Warn, LogLevel::Error].iter().find(|x| format!("{x:?}") == l).expect("level");
            log::set_max_level(log::LevelFilter::Trace);
            sim::with(|h| {
                h.keep_logs = true;
                h.log_level = l;
            });
        } else if let Some(c) = of("request_trailers") {
            action = format!("{:?}", w.request_trailers(c));
        } else if let Some(c) = of("response_trailers") {
            action = format!("{:?}", w.response_trailers(c));
        } else if s["tick"].as_bool().is_some() {
            w.tick();
        } else if let Some(c) = of("destroy") {
            w.log_done(c);
            w.destroy(c);
        } else {
            panic!("step {n}: unknown");
        }
        let seen: Vec<String> = World::since(mark).iter().filter(|r| !matches!(r.ev, Ev::Enter(_) | Ev::Exit(..)) && !hidden(&r.ev)).map(|r| show(&r.ev)).collect();
        let mut why = vec![];
        if s["action"].as_str().is_some_and(|a| a != action) {
            why.push(format!("returned {action}, expected {}", s["action"]));
        }
        for h in s["has"].as_array().into_iter().flatten() {
            if !seen.iter().any(|x| x.contains(h.as_str().unwrap())) {
                why.push(format!("lacks {h}"));
            }
        }
        for h in s["hasnt"].as_array().into_iter().flatten() {
            if seen.iter().any(|x| x.contains(h.as_str().unwrap())) {
                why.push(format!("must not have {h}"));
            }
        }
        if let Some(h) = s["count"].as_object() {
            for (k, v) in h {
                let c = seen.iter().filter(|x| x.contains(k)).count() as u64;
                if Some(c) != v.as_u64() {
                    why.push(format!("{c} times {k:?}, expected {v}"));
                }
            }
        }
        if let Some(h) = s["times"].as_object() {
            for (k, v) in h {
                let c = seen.iter().map(|x| x.matches(k.as_str()).count()).sum::<usize>() as u64;
                if Some(c) != v.as_u64() {
                    why.push(format!("{k:?} {c} times, expected {v}"));
                }
            }
        }
        println!("step {n}: {action} {seen:?}");
        for y in &why {
            println!("    ^^ {y}");
        }
        bad += why.len();
    }
    println!("{}", if bad == 0 { "as it should be" } else { "BROKEN" });
    std::process::exit((bad > 0) as i32);
}
