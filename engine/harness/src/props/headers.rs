//! G11: what header actions make of the headers of requests and responses.
use super::kit::*;
use crate::cfg::quote;
use crate::pb;
use crate::prop::*;
use crate::rng::Rng;
use crate::world::World;
use proxy_wasm::sim::{self, Headers, Kind};
use proxy_wasm::types::Status;
use serde_json::{json, Value as J};
use std::cell::Cell;
use std::rc::Rc;

const NAMES: &[&str] = &["x-a", "x-b", "x-c", "cookie", "set-cookie", "accept", "x-forwarded-for", "server", "x-a-b", "via"];
/// the only names expressions look at: never written in another case
const SEEN: &[&str] = &["x-p", "x-q"];
/// what actions on the response look at: never written, so that it doesn't matter when they look
const FIXED: &[&str] = &["x-q"];

fn value(rng: &mut Rng) -> String {
    match rng.below(9) {
        0 => String::new(),
        1 => "a,b".into(),
        2 => "a, b; c=\"d\"".into(),
        3 => "ünï\u{1F980}".into(),
        4 => " padded ".into(),
        5 => "v".repeat(rng.range(1, 3000)),
        6 => "it's \\ 'quoted'".into(),
        _ => format!("v{}", rng.below(3)),
    }
}

fn mixed(rng: &mut Rng, n: &str) -> String {
    n.chars().map(|c| if rng.pct(40) { c.to_ascii_uppercase() } else { c }).collect()
}

fn some_headers(rng: &mut Rng) -> Headers {
    let n = if rng.pct(5) { rng.range(60, 150) } else { rng.below(9) };
    (0..n)
        .map(|_| {
            let k = if rng.pct(20) { rng.pick(SEEN) } else { rng.pick(NAMES) }.to_string();
            let k = if rng.pct(5) && !SEEN.contains(&k.as_str()) { mixed(rng, &k) } else { k };
            (k, value(rng))
        })
        .collect()
}

#[derive(Clone, Debug)]
enum Val {
    Lit(String),
    /// a copy of the request header of that name, as the expression sees it
    Copy(String),
    Cat(String, String),
    /// fails to evaluate
    Bad,
}

#[derive(Clone, Debug)]
enum When {
    Yes,
    Is(String, String),
    Has(String, bool),
}

#[derive(Clone, Debug)]
struct Act {
    response: bool,
    when: When,
    pairs: Vec<(String, Val)>,
}

fn joined(hs: &Headers, name: &str) -> Option<String> {
    let v: Vec<&str> = hs.iter().filter(|(k, _)| k == name).map(|(_, v)| v.as_str()).collect();
    (!v.is_empty()).then(|| v.join(","))
}

impl Act {
    fn json(&self) -> J {
        let p: Vec<String> = self
            .pairs
            .iter()
            .map(|(k, v)| {
                let v = match v {
                    Val::Lit(s) => quote(s),
                    Val::Copy(n) => format!("request.headers[{}]", quote(n)),
                    Val::Cat(a, n) => format!("{} + request.headers[{}]", quote(a), quote(n)),
                    Val::Bad => "request.headers['x-never-there']".into(),
                };
                format!("[{}, {v}]", quote(k))
            })
            .collect();
        let when = match &self.when {
            When::Yes => "true".to_string(),
            When::Is(n, v) => format!("request.headers[{}] == {}", quote(n), quote(v)),
            When::Has(n, true) => format!("{} in request.headers", quote(n)),
            When::Has(n, false) => format!("!({} in request.headers)", quote(n)),
        };
        set_headers(self.response, &format!("[{}]", p.join(", ")), &when)
    }
    /// None: the action is skipped or fails, and changes nothing
    fn pairs(&self, req: &Headers) -> Option<Vec<(String, String)>> {
        match &self.when {
            When::Yes => {}
            When::Is(n, v) => {
                if joined(req, n)? != *v {
                    return None;
                }
            }
            When::Has(n, w) => {
                if joined(req, n).is_some() != *w {
                    return None;
                }
            }
        }
        self.pairs
            .iter()
            .map(|(k, v)| {
                Some((
                    k.clone(),
                    match v {
                        Val::Lit(s) => s.clone(),
                        Val::Copy(n) => joined(req, n)?,
                        Val::Cat(a, n) => a.clone() + &joined(req, n)?,
                        Val::Bad => return None,
                    },
                ))
            })
            .collect()
    }
}

fn apply(hs: &mut Headers, pairs: &[(String, String)]) {
    for (k, v) in pairs {
        hs.retain(|(n, _)| !n.eq_ignore_ascii_case(k));
        hs.push((k.clone(), v.clone()));
    }
}

fn act(rng: &mut Rng, base: &Headers) -> Act {
    let n = if rng.pct(8) { 0 } else { rng.range(1, 4) };
    let response = rng.pct(50);
    let seen: &[&str] = if response { FIXED } else { SEEN };
    let pairs = (0..n)
        .map(|_| {
            let k = if rng.pct(25) {
                "x-p".to_string()
            } else {
                let k = rng.pick(NAMES).to_string();
                if rng.pct(25) {
                    mixed(rng, &k)
                } else {
                    k
                }
            };
            let v = match rng.below(12) {
                0 => Val::Copy(rng.pick(seen).to_string()),
                1 => Val::Cat("p-".into(), rng.pick(seen).to_string()),
                2 if rng.pct(30) => Val::Bad,
                _ => Val::Lit(value(rng)),
            };
            (k, v)
        })
        .collect();
    let when = match rng.below(8) {
        0 => When::Has(rng.pick(seen).to_string(), rng.pct(50)),
        1 | 2 => {
            let n = rng.pick(seen).to_string();
            let v = joined(base, &n).filter(|_| rng.pct(60)).unwrap_or_else(|| value(rng));
            When::Is(n, v)
        }
        _ => When::Yes,
    };
    Act { response, when, pairs }
}

fn g11(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let base = some_headers(rng);
    let acts: Vec<Act> = (0..rng.range(1, 6)).map(|_| act(rng, &base)).collect();
    let mut actions: Vec<J> = vec![];
    // a call whose answer sets headers, ahead of the actions
    let reply: Option<(bool, Headers)> = rng.pct(40).then(|| {
        let mut hs: Headers = vec![];
        for _ in 0..rng.below(4) {
            let k = rng.pick(NAMES).to_string();
            hs.push((if rng.pct(25) { mixed(rng, &k) } else { k }, value(rng)));
        }
        (rng.pct(50), hs)
    });
    if let Some((response, _)) = &reply {
        actions.push(call("s", "r", "'d'", vec![set_headers(*response, "r.response_headers_to_add", "true")]));
    }
    actions.extend(acts.iter().map(|a| a.json()));
    let cfg = json!({"services": {"s": svc("ratelimit", "cl", "deny")}, "actionSets": [aset("x", "a.com", actions)]}).to_string();
    let mut w = World::new();
    if !w.configure(&cfg) {
        return Err(Violation::new("config-rejected", "a valid configuration was rejected").cfg(&cfg));
    }
    let ctx = w.new_stream(stream("a.com", &base));
    // refuse the nth write
    let refuse = if rng.pct(20) { Some(rng.below(4)) } else { None };
    let writes = Rc::new(Cell::new(0usize));
    let c = writes.clone();
    sim::with(|h| {
        h.faults = Some(Box::new(move |_, k, _| {
            if k != Kind::SetMap {
                return None;
            }
            let n = c.get();
            c.set(n + 1);
            (Some(n) == refuse).then_some(Status::InternalFailure)
        }))
    });
    let mark = World::mark();
    let mut req = req_headers(ctx);
    let mut resp: Headers = vec![(":status".into(), "200".into())];
    resp.extend(some_headers(rng));
    let mut n = 0usize;
    let mut write = |hs: &mut Headers, p: &[(String, String)], cov: &mut Cov| {
        if p.is_empty() {
            cov.state("no_pairs");
            return;
        }
        if refuse == Some(n) {
            cov.state("write_refused");
        } else {
            let before = hs.len();
            if p.iter().any(|(k, _)| hs.iter().any(|(n, _)| n != k && n.eq_ignore_ascii_case(k))) {
                cov.state("replaced_in_another_case");
            }
            apply(hs, p);
            cov.state(if hs.len() < before + p.len() { "replaced" } else { "added" });
            if hs.len() < before {
                cov.state("several_values_replaced");
            }
        }
        n += 1;
    };
    let check = |what: &str, want_req: &Headers, want_resp: Option<&Headers>| {
        let s = seen(mark);
        if let Some(p) = s.panics.first() {
            return Err(fail("headers-panic", p.clone(), &cfg, mark));
        }
        if !s.replies.is_empty() {
            return Err(fail("headers-reply", format!("{what}: local reply"), &cfg, mark));
        }
        let got = req_headers(ctx);
        if got != *want_req {
            return Err(fail("request-headers", format!("{what}: request headers are {got:?}, expected {want_req:?}"), &cfg, mark));
        }
        if let Some(r) = want_resp {
            let got = resp_headers(ctx);
            if got != *r {
                return Err(fail("response-headers", format!("{what}: response headers are {got:?}, expected {r:?}"), &cfg, mark));
            }
        }
        Ok(())
    };
    w.request_headers(ctx, true);
    // expressions see the headers as they are when the action runs
    for a in acts.iter().filter(|a| !a.response) {
        match a.pairs(&req) {
            Some(p) => write(&mut req, &p, cov),
            None => cov.state("skipped"),
        }
    }
    check("request headers", &req, None)?;
    if let Some((response, hs)) = &reply {
        let t = w.outstanding(ctx);
        if t.len() != 1 {
            return Err(fail("headers-call", format!("{} calls outstanding", t.len()), &cfg, mark));
        }
        w.grpc_reply(t[0], 0, Some(pb::rl_response(1, hs)));
        if !response {
            write(&mut req, hs, cov);
            cov.state("reply_sets_request");
        }
        check("answer", &req, None)?;
    }
    respond(ctx, resp.clone());
    w.response_headers(ctx, true);
    if let Some((true, hs)) = &reply {
        write(&mut resp, hs, cov);
        cov.state("reply_sets_response");
    }
    for a in acts.iter().filter(|a| a.response) {
        match a.pairs(&req) {
            Some(p) => write(&mut resp, &p, cov),
            None => cov.state("skipped"),
        }
    }
    check("response headers", &req, Some(&resp))?;
    // nothing is left to be written later
    buffer(ctx, true, Some(b"x".to_vec()));
    w.response_body(ctx, 1, true);
    check("response body", &req, Some(&resp))?;
    sim::with(|h| h.faults = None);
    w.log_done(ctx);
    check("end", &req, Some(&resp))?;
    w.destroy(ctx);
    cov.events += 5;
    cov.distinct(&format!("{}|{:?}|{}|{}", acts.len(), reply.as_ref().map(|r| (r.0, r.1.len())), refuse.is_some(), acts.iter().map(|a| format!("{}{}{:?}", a.response as u8, a.pairs.len(), std::mem::discriminant(&a.when))).collect::<String>()));
    if reply.is_some() && acts.len() > 3 {
        cov.sample(format!("request {req:?}").chars().take(300).collect::<String>());
    }
    Ok(())
}

pub static G11: Prop = Prop {
    id: "G11",
    level: "exploration",
    rule: "a case counts as distinct by the number, side, size and kind of predicate of its header actions, whether an answer sets headers and where, and whether the host refused a write",
    quick: 6000,
    thorough: 150000,
    case: g11,
    probes: &[],
    need: &["added", "replaced", "several_values_replaced", "replaced_in_another_case", "no_pairs", "skipped", "write_refused", "reply_sets_request", "reply_sets_response"],
    assumptions: super::pipeline::ASSUME,
};
