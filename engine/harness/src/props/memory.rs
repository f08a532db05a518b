//! G24: what the module keeps does not grow with what it has served.
use super::kit::*;
use super::{messages, soup};
use crate::flight::{Flight, Plan, Stage, Step};
use crate::mem;
use crate::prop::*;
use crate::rng::Rng;
use crate::world::{World, ROOT};
use proxy_wasm::sim;
use proxy_wasm::types::Action;
use serde_json::json;
use std::collections::BTreeMap;

/// How the descriptor service behaves.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Serve {
    Well,
    Refuses,
    Garbage,
    Unusable,
}

fn serve(w: &mut World, how: Serve) {
    let answer = |d: Vec<u8>| messages::descriptor_answer(&[("dyn-cluster", soup::DYN, d)]);
    for t in w.outstanding(ROOT) {
        match how {
            Serve::Well => w.grpc_reply(t, 0, Some(answer(soup::descriptors()))),
            Serve::Refuses => w.grpc_reply(t, 14, None),
            Serve::Garbage => w.grpc_reply(t, 0, Some(vec![0x0a, 0x7f, 1, 2, 3])),
            Serve::Unusable => w.grpc_reply(t, 0, Some(answer(vec![]))),
        }
    }
}

#[derive(Default)]
struct Did {
    streams: u64,
    calls: u64,
    cut: u64,
    lost: u64,
    finished: u64,
    loads: u64,
    rejected: u64,
}

/// A history that ends with no stream left; the same one whenever it is given the same seed,
/// but for the names that requests give themselves, which are new in every round.
fn episode(w: &mut World, seed: u64, round: u32, configs: &[String], tracing: bool, how: Serve, did: &mut Did) {
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let n = rng.range(2, 6);
    let mut begun = 0;
    let mut live: Vec<(Flight, usize)> = vec![];
    while begun < n || !live.is_empty() {
        if begun < n && (live.is_empty() || rng.pct(40)) {
            let mut r = soup::request(rng, begun, tracing);
            if rng.pct(20) {
                r.headers.retain(|(k, _)| k != "x-request-id");
            }
            let new = format!("{round:06}-{begun:02}");
            let named = rng.below(64);
            let mut name = |bit: usize, props: &[&str], header: &str, v: String| {
                if named >> bit & 1 == 0 {
                    return;
                }
                for p in props {
                    r.props.insert(p.split('.').map(|t| t.to_string()).collect(), v.clone().into_bytes());
                }
                if !header.is_empty() {
                    r.headers.retain(|(k, _)| k != header);
                    r.headers.push((header.into(), v));
                }
            };
            name(0, &["request.host"], ":authority", format!("host-{new}.test"));
            name(1, &["request.path", "request.url_path"], ":path", format!("/path-{new}"));
            name(2, &["request.id"], "x-request-id", format!("id-{new}"));
            name(3, &["source.address"], "", format!("10.0.0.1:{:05}", 10_000 + round % 50_000));
            name(4, &["request.referer", "source.principal", "request.useragent"], "x-a", format!("value-{new}"));
            name(5, &["metadata.filter_metadata.ns.key"], "baggage", format!("k=v{new}"));
            let plan = Plan {
                headers: r.headers,
                props: r.props,
                req_chunks: r.req,
                req_trailers: rng.pct(12),
                resp_trailers: rng.pct(12),
                resp_headers: r.resp_headers,
                resp_chunks: r.resp,
                answers: BTreeMap::new(),
                local_reply_callbacks: rng.pct(50),
                answer_bias: rng.range(10, 90),
            };
            let mut f = Flight::new(w, plan, None);
            f.mask = 0;
            live.push((f, if rng.pct(40) { rng.range(1, 9) } else { 80 }));
            begun += 1;
            did.streams += 1;
            continue;
        }
        if configs.len() > 1 && rng.pct(10) {
            let c = rng.pick(configs);
            if w.configure(c) {
                did.loads += 1;
            } else {
                did.rejected += 1;
            }
            if rng.pct(50) {
                w.tick();
            }
            serve(w, if rng.pct(80) { how } else { Serve::Refuses });
        }
        let k = rng.below(live.len());
        let (f, left) = &mut live[k];
        *left -= 1;
        let step = if *left == 0 { None } else { f.choose(w, rng) };
        match step {
            Some(s) if f.stage != Stage::Finished => {
                if let Step::Answer(t) = s {
                    let service = sim::with(|h| h.tokens[&t].call.service.clone());
                    f.raw = Some(soup::reply(rng, &service));
                    did.calls += 1;
                }
                let _ = f.step(w, s);
            }
            _ => {
                if f.stage != Stage::Finished {
                    did.cut += 1;
                    did.lost += w.outstanding(f.ctx).len() as u64;
                } else {
                    did.finished += 1;
                }
                let (mut f, _) = live.remove(k);
                let _ = f.finish(w);
            }
        }
    }
    if configs.len() > 1 {
        // everything ends where it began
        w.configure(&configs[0]);
    }
    w.tick();
    serve(w, how);
    sim::with(|h| h.events.clear());
}

fn g24(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    if rng.pct(25) {
        return passing(rng, cov);
    }
    let tracing = rng.pct(30);
    let opts = soup::Opts { broken: rng.pct(30), tracing };
    let reloads = rng.pct(40);
    let mut w = World::new();
    let mut configs = vec![];
    let mut tries = 0;
    while configs.is_empty() {
        let c = soup::config(rng, &opts).to_string();
        tries += 1;
        if w.configure(&c) {
            configs.push(c);
        } else if tries > 20 {
            return Ok(());
        }
    }
    if reloads {
        configs.push(soup::config(rng, &opts).to_string());
        configs.push("{\"services\": {\"a\": {\"type\": \"auth\", \"endpoint\": \"a\"}}, \"actionSets\": [{}]}".into());
        configs.push("{\"actionSets\": [".into());
    }
    w.tick();
    let how = *rng.pick(&[Serve::Well, Serve::Well, Serve::Refuses, Serve::Garbage, Serve::Unusable]);
    serve(&mut w, how);
    let seed = rng.next();
    let mut did = Did::default();
    let mut ran = 0u32;
    let mut kept = vec![];
    // each round is longer than all before it: whatever grows with the episodes grows in each of them
    for upto in [12u32, 40, 100, 260, 700] {
        while ran < upto {
            episode(&mut w, seed, ran, &configs, tracing, how, &mut did);
            ran += 1;
            if w.panicked.is_some() {
                return Ok(()); // G20's
            }
        }
        let now = (mem::live(), mem::blocks());
        if let Some(&(b, _)) = kept.last() {
            if now.0 <= b + 64 {
                kept.push(now);
                break;
            }
        }
        kept.push(now);
        if kept.len() == 5 {
            return Err(fail("grows", format!("bytes and blocks kept after 12, 40, 100, 260 and 700 times the same history: {kept:?}; reloads: {reloads}, tracing: {tracing}; {} streams, {} of them cut off", did.streams, did.cut), &configs[0], 0));
        }
    }
    cov.events += did.streams;
    for (n, s) in [(did.calls, "answered"), (did.cut, "cut_off"), (did.lost, "answers_lost"), (did.finished, "finished"), (did.loads, "reloaded"), (did.rejected, "rejected")] {
        if n > 0 {
            cov.state(s);
        }
    }
    cov.state(if how == Serve::Well { "descriptors_served" } else { "descriptors_missing" });
    cov.state(if tracing { "traced" } else { "untraced" });
    cov.state(&format!("rounds_{}", kept.len()));
    cov.distinct(&format!("{seed} {}", configs[0]));
    if rng.pct(2) {
        cov.sample(format!("{} streams of {ran} episodes, {} calls answered, {} cut off: kept {kept:?}", did.streams, did.calls, did.cut));
    }
    Ok(())
}

/// A long body passes by.
fn passing(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let mut w = World::new();
    let sse = rng.pct(60);
    let mut actions = vec![];
    let mut usage = 0;
    for i in 0..rng.range(1, 3) {
        let kind = rng.below(3);
        usage += (kind == 1) as usize;
        actions.push(match kind {
            0 => store(&format!("s{i}"), "responseBodyJSON('/usage/total_tokens')", "true", true),
            1 => json!({"service": "report", "scope": "s", "predicates": [], "conditionalData": [{"data": [{"expression": {"key": "ratelimit.hits_addend", "value": "responseBodyJSON('/usage/total_tokens')"}}]}]}),
            _ => store(&format!("s{i}"), "responseBodyJSON('/usage/prompt') + responseBodyJSON('/usage/other')", "true", true),
        });
    }
    let cfg = json!({"services": {"report": svc("ratelimit-report", "report-cluster", "deny")}, "actionSets": [aset("s", "h.test", actions)]}).to_string();
    if !w.configure(&cfg) {
        return Err(fail("rejected", "a configuration with body expressions was rejected".into(), &cfg, 0));
    }
    let mut s = stream("h.test", &[]);
    full(&mut s);
    let ctx = w.new_stream(s);
    w.request_headers(ctx, true);
    respond(ctx, vec![(":status".into(), "200".into()), ("content-type".into(), if sse { "text/event-stream" } else { "application/json" }.into())]);
    w.response_headers(ctx, false);
    let pad = "0123456789abcdef ".repeat(rng.range(1, 60));
    let unit = if sse { format!("data: {{\"x\":\"{pad}\",\"usage\":{{\"total_tokens\":7,\"prompt\":\"p\",\"other\":\"q\"}}}}\n\n") } else { format!("{{\"x\":\"{pad}\",\"n\":[1,2,{{\"usage\":3}}]}},") };
    let per = rng.range(1, 6);
    let chunk: Vec<u8> = unit.repeat(per).into_bytes();
    // chunks that cut the units anywhere
    let cut = rng.below(chunk.len());
    let first = if sse { chunk[..cut].to_vec() } else { [b"{\"items\":[", &chunk[..cut]].concat() };
    let next = [&chunk[cut..], &chunk[..cut]].concat();
    let mut held: Vec<u8> = vec![];
    let mut kept = vec![];
    let mut total = 0;
    let mut deliver = |w: &mut World, b: &[u8], eos: bool| {
        held.extend_from_slice(b);
        let n = held.len();
        buffer(ctx, true, Some(held.clone()));
        total += b.len();
        if w.response_body(ctx, n, eos) == Action::Continue {
            held.clear();
        }
        sim::with(|h| h.events.clear());
        held.is_empty()
    };
    let before = mem::live();
    let mut passed = deliver(&mut w, &first, false);
    let mut sent = 0;
    for upto in [30usize, 60, 120, 240, 480] {
        while sent < upto {
            passed &= deliver(&mut w, &next, false);
            sent += 1;
        }
        kept.push(mem::live());
    }
    if w.panicked.is_some() {
        return Ok(());
    }
    if std::env::var_os("SHOW").is_some() {
        eprintln!("{} {} {kept:?}", if sse { "sse" } else { "json" }, next.len());
    }
    let grows = kept.windows(2).all(|k| k[1] > k[0] + 64);
    // a JSON document is whole only at its end: the short form keeps it until then, each action once
    let documents = if sse { 0 } else { usage };
    if documents > 0 {
        let most = documents as i64 * 2 * next.len() as i64 * 481 + 65_536;
        if kept[4] - before > most {
            return Err(fail("keeps-more", format!("a body of {total} bytes read by {documents} actions: {} bytes kept for it after 480 chunks of {}", kept[4] - before, next.len()), &cfg, 0));
        }
        cov.state("document_kept");
    } else if grows {
        return Err(fail("keeps-body", format!("a body of {total} bytes in chunks of {}: bytes kept after 30, 60, 120, 240 and 480 of them: {kept:?}", next.len()), &cfg, 0));
    }
    let mut end = chunk[cut..].to_vec();
    if !sse {
        end.extend_from_slice(b"{}],\"usage\":{\"total_tokens\":7,\"prompt\":\"p\",\"other\":\"q\"}}");
    }
    deliver(&mut w, &end, true);
    w.log_done(ctx);
    w.destroy(ctx);
    sim::with(|h| h.events.clear());
    cov.events += sent as u64;
    cov.state(if sse { "event_stream" } else { "json_body" });
    cov.state(if passed { "passed_on" } else { "held_by_the_host" });
    cov.distinct(&format!("body {} {cut} {cfg}", next.len()));
    Ok(())
}

pub static G24: Prop = Prop {
    id: "G24",
    level: "exploration",
    rule: "a case counts as distinct by its configurations and the history it repeats, or by the body it streams",
    quick: 500,
    thorough: 60_000,
    case: g24,
    probes: &[],
    need: &["answered", "cut_off", "answers_lost", "finished", "reloaded", "rejected", "traced", "descriptors_served", "descriptors_missing", "untraced", "event_stream", "json_body", "document_kept"],
    assumptions: super::pipeline::ASSUME,
};
