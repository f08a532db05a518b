//! G17: values cross between expressions and messages of calls unchanged.
use super::kit::*;
use crate::desc::*;
use crate::pb;
use crate::prop::*;
use crate::rng::Rng;
use crate::world::World;
use serde_json::{json, Value as J2};

fn dyn_svc(cluster: &str, service: &str, method: &str, mode: &str) -> J2 {
    json!({"type": "dynamic", "endpoint": cluster, "grpcService": service, "grpcMethod": method, "failureMode": mode, "timeout": "100ms"})
}

pub fn descriptor_answer(items: &[(&str, &str, Vec<u8>)]) -> Vec<u8> {
    pb::enc(&items.iter().map(|(c, s, f)| pb::sub(1, &[pb::s(1, c), pb::s(2, s), (3, pb::W::Len(f.clone()))])).collect::<Vec<_>>())
}

/// Expressions about a reply and whether each holds.
fn facts(rng: &mut Rng, sc: &Schema, i: usize, v: &V, path: &str, out: &mut Vec<(String, bool)>) {
    let V::M(m) = v else { return };
    for f in &sc.msgs[i].fields {
        let p = format!("{path}.{}", f.name);
        let lit = |v: &V| match (f.ty, v) {
            (_, V::J(o)) => jplain(&J::O(o.clone())),
            _ => sc.cel(f.ty, v),
        };
        match m.get(&f.num) {
            None if sc.has_presence(f) => out.push((format!("has({p})"), false)),
            None => match f.card {
                Card::Rep | Card::Map(_) => out.push((format!("{p}.size() == 0"), true)),
                _ => {
                    let z = match f.ty {
                        T::Bool => "false",
                        T::Str => "''",
                        T::Bytes => "b''",
                        T::Double | T::Float => "0.0",
                        T::U32 | T::U64 | T::Fx32 | T::Fx64 => "0u",
                        _ => "0",
                    };
                    out.push((format!("{p} == {z}"), true));
                }
            },
            Some(F::One(v)) => {
                if sc.has_presence(f) && rng.pct(40) {
                    out.push((format!("has({p})"), true));
                }
                match v {
                    V::M(_) => {
                        if let T::Msg(j) = f.ty {
                            facts(rng, sc, j, v, &p, out);
                        }
                    }
                    _ => {
                        out.push((format!("{p} == {}", lit(v)), true));
                        if rng.pct(50) {
                            let other = sc.value(rng, f.ty, 0);
                            if other != *v {
                                out.push((format!("{p} == {}", lit(&other)), false));
                            }
                        }
                    }
                }
            }
            Some(F::Rep(vs)) => {
                out.push((format!("{p}.size() == {}", vs.len()), true));
                for (k, v) in vs.iter().enumerate() {
                    match (v, f.ty) {
                        (V::M(_), T::Msg(j)) => facts(rng, sc, j, v, &format!("{p}[{k}]"), out),
                        _ => out.push((format!("{p}[{k}] == {}", lit(v)), true)),
                    }
                }
            }
            Some(F::Map(es)) => {
                let Card::Map(kt) = f.card else { unreachable!() };
                out.push((format!("{p}.size() == {}", es.len()), true));
                for (k, v) in es {
                    let k = sc.cel(kt, k);
                    match (v, f.ty) {
                        (V::M(_), T::Msg(j)) => facts(rng, sc, j, v, &format!("{p}[{k}]"), out),
                        _ => out.push((format!("{p}[{k}] == {}", lit(v)), true)),
                    }
                }
            }
        }
    }
}

/// A request with one value that does not fit its field: the expression for it.
fn misfit(rng: &mut Rng, sc: &Schema, good: &V) -> Option<String> {
    let V::M(m) = good else { return None };
    let fs: Vec<&Fld> = sc.msgs[0].fields.iter().filter(|f| f.card != Card::Oneof).collect();
    if fs.is_empty() {
        return None;
    }
    let f = *rng.pick(&fs);
    let wrong = |rng: &mut Rng, t: T| -> String {
        let v: &[&str] = match t {
            T::I32 | T::Si32 | T::Sf32 => &["2147483648", "-2147483649", "4294967296", "9223372036854775807", "'1'", "1.5", "true"],
            T::Enum => &["2147483648", "5", "-70000", "'ONE'", "4294967297"],
            T::I64 | T::Si64 | T::Sf64 => &["'1'", "1.0", "true", "[1]", "1u"],
            T::U32 | T::Fx32 => &["4294967296u", "18446744073709551615u", "4294967297u", "'1'", "1"],
            T::U64 | T::Fx64 => &["'1'", "1", "1.0"],
            T::Float => &["1e39", "-3.5e38", "'1.0'", "1"],
            T::Double => &["'1.0'", "1", "true"],
            T::Bool => &["1", "'true'", "0u"],
            T::Str => &["1", "true", "b'x'", "[]", "1.5"],
            T::Bytes => &["'x'", "1"],
            T::Time => &["1", "'2020-01-01T00:00:00Z'", "true"],
            T::Struct | T::Msg(_) => &["1", "'x'", "true", "[1]"],
        };
        rng.pick(v).to_string()
    };
    let e = match f.card {
        Card::Rep => {
            if rng.pct(70) {
                format!("[{}]", wrong(rng, f.ty))
            } else {
                rng.pick(&["1", "'x'", "{'a': 1}"]).to_string()
            }
        }
        Card::Map(k) => {
            let key = sc.value(rng, k, 0);
            let val = sc.value(rng, f.ty, 0);
            match rng.below(3) {
                0 => format!("{{{}: {}}}", sc.cel(k, &key), wrong(rng, f.ty)),
                1 => {
                    let keys: &[&str] = match k {
                        T::Str => &["1", "true", "1u"],
                        T::I32 | T::Si32 => &["'1'", "2147483648", "-2147483649", "true", "1u"],
                        T::I64 => &["'1'", "true", "1u"],
                        T::U32 => &["4294967296u", "'1'", "1", "true"],
                        T::U64 | T::Fx64 => &["'1'", "1", "true"],
                        T::Bool => &["'true'", "1", "0u"],
                        _ => return None,
                    };
                    format!("{{{}: {}}}", rng.pick(keys), sc.cel(f.ty, &val))
                }
                _ => rng.pick(&["1", "'x'", "[1]"]).to_string(),
            }
        }
        _ => wrong(rng, f.ty),
    };
    let mut rest = m.clone();
    rest.remove(&f.num);
    let base = sc.cel(T::Msg(0), &V::M(rest));
    let cut = base.rfind('}').unwrap();
    let head = base[..cut].trim_end();
    let sep = if head.ends_with('{') { "" } else { "," };
    Some(format!("{head}{sep} {}: {e} }}", f.name))
}

fn g17(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let nf = rng.range(3, 8);
    let sc = Schema::random(rng, "pk.v1", nf);
    let req = sc.message(rng, 0, 2);
    let rep = sc.message(rng, 1, 2);
    for f in sc.msgs[0].fields.iter().chain(&sc.msgs[1].fields) {
        cov.state(match f.ty {
            T::Msg(_) => "nested",
            T::Time => "timestamp",
            T::Struct => "struct",
            T::Enum => "enum",
            T::Str | T::Bytes => "text",
            T::Bool => "bool",
            T::Double | T::Float => "floating",
            T::Fx32 | T::Fx64 | T::Sf32 | T::Sf64 => "fixed",
            T::Si32 | T::Si64 => "zigzag",
            _ => "varint",
        });
        match f.card {
            Card::Rep => cov.state("repeated"),
            Card::Map(_) => cov.state("map"),
            Card::Opt => cov.state("optional"),
            Card::Oneof => cov.state("oneof"),
            Card::One => {}
        }
    }
    let bad = if rng.pct(25) { misfit(rng, &sc, &req) } else { None };
    let build = bad.clone().unwrap_or_else(|| sc.cel(T::Msg(0), &req));
    let mut fs = vec![];
    facts(rng, &sc, 1, &rep, "r", &mut fs);
    rng.shuffle(&mut fs);
    fs.truncate(14);
    let on_reply: Vec<J2> = fs.iter().enumerate().map(|(i, (e, _))| set_headers(false, &format!("[['x-{i}', 'v']]"), e)).collect();
    let mode = *rng.pick(&["deny", "allow"]);
    let cfg = json!({"services": {"d": dyn_svc("cl", &sc.service_name(), "Do", mode)}, "actionSets": [aset("x", "a.com", vec![
        json!({"type": "grpc", "service": "d", "var": "r", "predicate": "true", "isGuard": true, "terminal": false, "onReply": on_reply, "messageBuilder": build}),
        set_headers(false, "[['x-end', 'v']]", "true")])]})
    .to_string();
    let shown = format!("{cfg}\nschema {:?}\nreply {rep:?}", sc.msgs);
    let mut w = World::new();
    let mark = World::mark();
    if !w.configure(&cfg) {
        return Err(Violation::new("config-rejected", "a valid configuration was rejected").cfg(&shown));
    }
    let Some(t) = w.outstanding(crate::world::ROOT).first().copied() else {
        return Err(fail("no-fetch", "the descriptors of the service were not asked for".into(), &shown, mark));
    };
    w.grpc_reply(t, 0, Some(descriptor_answer(&[("cl", &sc.service_name(), sc.descriptors())])));
    let mark = World::mark();
    let ctx = w.new_stream(stream("a.com", &[]));
    w.request_headers(ctx, true);
    let s = seen(mark);
    if let Some(p) = s.panics.first() {
        return Err(fail("panic", p.clone(), &shown, mark));
    }
    cov.events += 2 + fs.len() as u64;
    cov.distinct(&format!("{:?}|{}", sc.msgs.iter().flat_map(|m| m.fields.iter().map(|f| (f.ty, f.card))).collect::<Vec<_>>(), bad.is_some()));
    cov.sample(build.chars().take(200).collect::<String>());
    let ended = |s: &Seen| s.replies.iter().map(|r| r.0).collect::<Vec<_>>();
    if bad.is_some() {
        cov.state("misfit");
        if !s.calls.is_empty() {
            return Err(fail("misfit-sent", format!("a value that does not fit its field was sent: {:?}", pb::dec(&s.calls[0].1.message)), &shown, mark));
        }
        let want: Vec<u32> = if mode == "deny" { vec![500] } else { vec![] };
        let end = req_headers(ctx).iter().any(|(k, _)| k == "x-end");
        if ended(&s) != want || end == (mode == "deny") {
            return Err(fail("misfit-outcome", format!("{mode}: replies {:?}, request went on: {end}", ended(&s)), &shown, mark));
        }
        return Ok(());
    }
    let [(t, call)] = &s.calls[..] else {
        return Err(fail("not-sent", format!("{} calls, replies {:?}", s.calls.len(), ended(&s)), &shown, mark));
    };
    if call.service != sc.service_name() || call.method != "Do" || call.upstream != "cl" {
        return Err(fail("wrong-method", format!("called {} {} at {}", call.service, call.method, call.upstream), &shown, mark));
    }
    let want = sc.normal(0, &req);
    let got = sc.decode(0, &call.message).map(|v| sc.normal(0, &v));
    if got.as_ref() != Some(&want) {
        return Err(fail("message", format!("sent {got:?} ({:?}), expected {want:?}", pb::dec(&call.message)), &shown, mark));
    }
    let bytes = sc.encode(rng, 1, &rep);
    w.grpc_reply(*t, 0, Some(bytes.clone()));
    let s = seen(mark);
    if let Some(p) = s.panics.first() {
        return Err(fail("panic", p.clone(), &shown, mark));
    }
    if !s.replies.is_empty() {
        if bytes.is_empty() {
            // an empty message is a failure of the call
            cov.state("empty_reply");
            return Ok(());
        }
        return Err(fail("reply-refused", format!("the answer was not understood: {:?}", ended(&s)), &shown, mark));
    }
    if bytes.is_empty() {
        return Ok(());
    }
    let hs = req_headers(ctx);
    for (i, (e, holds)) in fs.iter().enumerate() {
        let got = hs.iter().any(|(k, _)| *k == format!("x-{i}"));
        if got != *holds {
            return Err(fail("reply-value", format!("{e} is {got}, expected {holds}"), &shown, mark));
        }
        cov.state(if *holds { "fact_holds" } else { "fact_fails" });
    }
    w.destroy(ctx);
    Ok(())
}

pub static G17: Prop = Prop {
    id: "G17",
    level: "exploration",
    rule: "a case counts as distinct by the types and cardinalities of the fields of its messages, and whether a value was made not to fit",
    quick: 6000,
    thorough: 150000,
    case: g17,
    probes: &[],
    need: &["nested", "timestamp", "struct", "enum", "text", "bool", "floating", "fixed", "zigzag", "varint", "repeated", "map", "optional", "oneof", "misfit", "fact_holds", "fact_fails"],
    assumptions: super::pipeline::ASSUME,
};
