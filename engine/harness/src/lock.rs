//! Lockstep runs: several streams of one configuration, interleaved, each checked against
//! its own reference interpreter.
use crate::flight::*;
use crate::gen::*;
use crate::model::*;
use crate::prop::{Cov, Violation};
use crate::rng::Rng;
use crate::world::World;
use proxy_wasm::sim::{self, Kind};
use proxy_wasm::types::Status;
use std::collections::{BTreeMap, BTreeSet};

pub struct Run {
    pub prof: Prof,
    pub mask: u32,
    pub max_streams: usize,
}

pub fn attrs_of(plan: &Plan) -> BTreeMap<String, V> {
    plan.props.iter().map(|(k, v)| (k.join("."), V::S(String::from_utf8_lossy(v).into_owned()))).collect()
}

/// Returns Err for a violation of the property behind `mask`. `accept` narrows further.
pub fn lockstep(
    rng: &mut Rng,
    run: &Run,
    cov: &mut Cov,
    accept: &dyn Fn(&Flight, &Bad) -> bool,
) -> Result<(), Violation> {
    let mut w = World::new();
    let mut g = Gen::new(rng, run.prof.clone());
    let cfg = g.cfg();
    let text = cfg.json().to_string();
    if !w.configure(&text) {
        return Err(Violation::new("config-rejected", format!("a valid configuration was rejected: {text}")));
    }
    let n = 1 + g.rng.below(run.max_streams);
    let mut flights: Vec<Flight> = vec![];
    let mut refused: BTreeMap<u32, BTreeSet<String>> = BTreeMap::new();
    for _ in 0..n {
        let (plan, id) = g.plan(&cfg);
        let mut m = Model::new(&cfg, 0, plan.headers.clone(), attrs_of(&plan), &id);
        let r: BTreeSet<String> = refusals(g.rng, &cfg, g.p.refuse).into_iter().collect();
        m.refuse = r.clone();
        let mut f = Flight::new(&mut w, plan, Some(m));
        // VERIF_MASK=all shows the first mismatch of any kind when replaying
        f.mask = if std::env::var_os("VERIF_MASK").is_some() { u32::MAX } else { run.mask };
        refused.insert(f.ctx, r);
        flights.push(f);
    }
    let table = refused.clone();
    sim::with(|h| {
        h.faults = Some(Box::new(move |ctx, k, what| {
            (k == Kind::Dispatch && table.get(&ctx).is_some_and(|r| r.contains(what))).then_some(Status::BadArgument)
        }))
    });
    let rng = g.rng;
    let mut live: Vec<usize> = (0..flights.len()).collect();
    while !live.is_empty() {
        let k = rng.below(live.len());
        let i = live[k];
        let f = &mut flights[i];
        let r = if f.stage == Stage::Finished {
            live.remove(k);
            f.finish(&mut w)
        } else {
            match f.choose(&w, rng) {
                Some(s) => f.step(&mut w, s),
                None => {
                    let b = bad(RELEASE, format!("stream stuck at {:?} holding {:?} with nothing left to wait for", f.stage, f.hold));
                    live.remove(k);
                    if f.mask & RELEASE != 0 {
                        Err(b)
                    } else {
                        Err(bad(0, ""))
                    }
                }
            }
        };
        if f.steps > 600 {
            return Err(Violation::new("no-progress", "no progress after 600 steps").with(f, &text));
        }
        if let Err(b) = r {
            if b.kind != 0 && accept(f, &b) {
                return Err(Violation::new(kind_name(b.kind), b.what.clone()).with(f, &text));
            }
            cov.count("other-property");
            return Ok(());
        }
    }
    for f in &flights {
        cov.events += f.callbacks as u64;
        if let Some(m) = &f.model {
            for n in &m.notes {
                cov.state(n);
            }
            let mut key: Vec<&str> = m.notes.iter().copied().collect();
            key.sort();
            cov.distinct(&format!("{}|{}|{}", key.join(","), f.steps, f.replies));
        }
    }
    if flights.len() > 1 {
        cov.state("interleaved_streams");
    }
    if cov.samples.len() < 3 && flights[0].trace.len() > 12 {
        cov.samples.push(flights[0].trace.clone().join("\n"));
    }
    Ok(())
}

pub fn kind_name(k: u32) -> &'static str {
    match k {
        EFFECTS => "calls",
        REPLY_MISSING => "reply-missing",
        REPLY_EXTRA => "reply-extra",
        REPLY_CONTENT => "reply-content",
        HEADERS => "headers",
        METRICS => "metrics",
        HOLD => "not-held",
        RELEASE => "not-released",
        PANIC => "panic",
        SINGLE => "more-than-one-verdict",
        PROPS => "exported-attributes",
        _ => "other",
    }
}
