//! G21: the string functions of expressions.
use super::kit::*;
use crate::cfg::quote;
use crate::pb;
use crate::prop::*;
use crate::rng::Rng;
use crate::world::World;
use proxy_wasm::sim;
use serde_json::Value as J;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
enum V {
    S(String),
    I(i64),
    B(bool),
    L(Vec<String>),
}

/// An expression and what it must come to; None: it must fail.
struct E {
    text: String,
    value: Option<V>,
}

struct G<'a> {
    rng: &'a mut Rng,
    vars: &'a [(String, String)],
    used: &'a mut BTreeMap<&'static str, u64>,
}

const PIECES: &[&str] = &["a", "b", "ab", "ba", "A", "Z", "z", "é", "É", "\u{1F980}", "ß", "İ", "日本", " ", "  ", "\t", "\u{a0}", "\u{3000}", ",", "=", "/", "x=1", "aba", "'", "\"", "\\", "0", "\u{301}"];

fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}

fn find(hay: &[char], pat: &[char], from: usize) -> Option<usize> {
    (from..=hay.len()).find(|&i| hay[i..].starts_with(pat))
}

fn rfind(hay: &[char], pat: &[char], upto: usize) -> Option<usize> {
    (0..=upto.min(hay.len())).rev().find(|&i| hay[i..].starts_with(pat))
}

fn pieces(hay: &str, sep: &str, limit: i64) -> Vec<String> {
    let (h, p) = (chars(hay), chars(sep));
    let mut out = vec![];
    let mut at = 0;
    if limit == 0 {
        return out;
    }
    while limit < 0 || (out.len() as i64) < limit - 1 {
        match find(&h, &p, at) {
            Some(i) => {
                out.push(h[at..i].iter().collect());
                at = i + p.len();
            }
            None => break,
        }
    }
    out.push(h[at..].iter().collect());
    out
}

fn replace(hay: &str, old: &str, new: &str, limit: i64) -> String {
    let (h, p) = (chars(hay), chars(old));
    let mut out = String::new();
    let mut done = 0;
    let mut i = 0;
    while i <= h.len() {
        if (limit < 0 || done < limit) && h[i..].starts_with(&p) {
            out.push_str(new);
            done += 1;
            if p.is_empty() {
                if i < h.len() {
                    out.push(h[i]);
                }
                i += 1;
            } else {
                i += p.len();
            }
            continue;
        }
        if i < h.len() {
            out.push(h[i]);
        }
        i += 1;
    }
    out
}

fn blank(c: char) -> bool {
    matches!(c, '\t'..='\r' | ' ' | '\u{85}' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{2028}' | '\u{2029}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}

impl G<'_> {
    fn hit(&mut self, f: &'static str) {
        *self.used.entry(f).or_insert(0) += 1;
    }
    fn word(&mut self) -> String {
        (0..self.rng.below(5)).map(|_| *self.rng.pick(PIECES)).collect()
    }
    /// A part of `s`, or something else.
    fn part(&mut self, s: &str) -> String {
        let c = chars(s);
        if c.is_empty() || self.rng.pct(25) {
            return self.word();
        }
        let a = self.rng.below(c.len());
        let b = self.rng.range(a, c.len().min(a + 3));
        c[a..b].iter().collect()
    }
    /// An integer in the text of an expression.
    fn at(&mut self, i: i64) -> String {
        match self.rng.below(6) {
            0 if i >= 0 => format!("{i}u"),
            1 => format!("({} + {})", i - 1, 1),
            2 => format!("({} - {})", i + 2, 2),
            3 if i >= 0 => {
                let w: String = "e".repeat(i.min(40) as usize);
                if i <= 40 {
                    format!("size({})", quote(&w))
                } else {
                    i.to_string()
                }
            }
            _ => i.to_string(),
        }
    }
    fn leaf(&mut self) -> (String, String) {
        if self.rng.pct(50) {
            let (n, v) = self.rng.pick(self.vars).clone();
            return (n, v);
        }
        let w = self.word();
        (quote(&w), w)
    }
    /// (text, value): one that can be evaluated
    fn string(&mut self, d: usize) -> (String, String) {
        if d == 0 {
            return self.leaf();
        }
        let (t, s) = self.string(d - 1);
        let c = chars(&s);
        match self.rng.below(12) {
            0 => {
                self.hit("charAt");
                // nothing is left at the very end
                let i = self.rng.below(c.len() + 1);
                let at = c.get(i).map(|c| c.to_string()).unwrap_or_default();
                (format!("{t}.charAt({})", self.at(i as i64).replace('u', "")), at)
            }
            1 => {
                self.hit("lowerAscii");
                (format!("{t}.lowerAscii()"), c.iter().map(|&c| if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c }).collect())
            }
            2 => {
                self.hit("upperAscii");
                (format!("{t}.upperAscii()"), c.iter().map(|&c| if c.is_ascii_lowercase() { (c as u8 - 32) as char } else { c }).collect())
            }
            3 => {
                self.hit("trim");
                let a = c.iter().position(|&c| !blank(c)).unwrap_or(c.len());
                let b = c.iter().rposition(|&c| !blank(c)).map_or(a, |i| i + 1);
                (format!("{t}.trim()"), c[a..b].iter().collect())
            }
            4 | 5 => {
                self.hit("replace");
                let old = self.part(&s);
                let (nt, new) = self.leaf();
                if self.rng.pct(50) {
                    (format!("{t}.replace({}, {nt})", quote(&old)), replace(&s, &old, &new, -1))
                } else {
                    let k = self.rng.below(5) as i64 - 1;
                    (format!("{t}.replace({}, {nt}, {})", quote(&old), self.at(k)), replace(&s, &old, &new, k))
                }
            }
            6 | 7 => {
                self.hit("substring");
                let a = self.rng.below(c.len() + 1);
                let b = self.rng.range(a, c.len());
                if self.rng.pct(50) {
                    (format!("{t}.substring({})", self.at(a as i64)), c[a..].iter().collect())
                } else {
                    (format!("{t}.substring({}, {})", self.at(a as i64), self.at(b as i64)), c[a..b].iter().collect())
                }
            }
            8 => {
                // from what comes before, as one takes strings apart
                let p = self.part(&s);
                match find(&c, &chars(&p), 0) {
                    Some(i) if i < c.len() => {
                        self.hit("substring");
                        self.hit("indexOf");
                        (format!("{t}.substring({t}.indexOf({}) + 1)", quote(&p)), c[i + 1..].iter().collect())
                    }
                    _ => (t, s),
                }
            }
            9 => {
                let (lt, l) = self.list(d - 1);
                if self.rng.pct(40) {
                    self.hit("join");
                    (format!("{lt}.join()"), l.concat())
                } else {
                    self.hit("join");
                    let (st, sep) = self.leaf();
                    (format!("{lt}.join({st})"), l.join(&sep))
                }
            }
            10 => {
                let (u, v) = self.leaf();
                (format!("({t} + {u})"), s + &v)
            }
            _ => {
                let (lt, l) = self.list(d - 1);
                if l.is_empty() {
                    return (t, s);
                }
                let i = self.rng.below(l.len());
                (format!("{lt}[{i}]"), l[i].clone())
            }
        }
    }
    fn list(&mut self, d: usize) -> (String, Vec<String>) {
        if self.rng.pct(30) {
            let n = self.rng.below(4);
            let e: Vec<(String, String)> = (0..n).map(|_| self.leaf()).collect();
            return (format!("[{}]", e.iter().map(|e| e.0.as_str()).collect::<Vec<_>>().join(", ")), e.into_iter().map(|e| e.1).collect());
        }
        self.hit("split");
        let (t, s) = self.string(d);
        let mut sep = self.part(&s);
        if sep.is_empty() {
            sep = ",".into();
        }
        if self.rng.pct(50) {
            (format!("{t}.split({})", quote(&sep)), pieces(&s, &sep, -1))
        } else {
            let k = self.rng.below(5) as i64 - 1;
            (format!("{t}.split({}, {})", quote(&sep), self.at(k)), pieces(&s, &sep, k))
        }
    }
    fn int(&mut self, d: usize) -> (String, i64) {
        let (t, s) = self.string(d);
        let p = self.part(&s);
        let (c, q) = (chars(&s), chars(&p));
        let n = |o: Option<usize>| o.map_or(-1, |i| i as i64);
        match self.rng.below(5) {
            0 => {
                self.hit("indexOf");
                (format!("{t}.indexOf({})", quote(&p)), n(find(&c, &q, 0)))
            }
            1 => {
                self.hit("lastIndexOf");
                (format!("{t}.lastIndexOf({})", quote(&p)), n(rfind(&c, &q, c.len())))
            }
            2 if !c.is_empty() => {
                self.hit("indexOf from");
                let o = self.rng.below(c.len() + usize::from(!q.is_empty()));
                (format!("{t}.indexOf({}, {})", quote(&p), self.at(o as i64)), n(find(&c, &q, o)))
            }
            3 if !c.is_empty() => {
                self.hit("lastIndexOf from");
                let o = self.rng.below(c.len());
                (format!("{t}.lastIndexOf({}, {})", quote(&p), self.at(o as i64)), n(rfind(&c, &q, o)))
            }
            _ => {
                let (t, l) = self.list(d);
                (format!("int(size({t}))"), l.len() as i64)
            }
        }
    }
    fn bad(&mut self) -> String {
        let (t, s) = self.string(1);
        let n = s.chars().count() as i64;
        self.hit("bad");
        match self.rng.below(14) {
            0 if self.rng.pct(50) => {
                let (a, b) = *self.rng.pick(&[("0", "-1"), ("-2", "-1"), ("-1", "1"), ("0", "(2 - 4)")]);
                format!("{t}.substring({a}, {b})")
            }
            1 if self.rng.pct(50) => format!("{t}.substring(-1)"),
            0 => format!("{t}.charAt({})", n + 1 + self.rng.below(3) as i64),
            1 => format!("{t}.charAt(-1)"),
            2 => format!("{t}.charAt('a')"),
            3 => format!("{t}.substring({}, {})", n.max(1), n.max(1) - 1),
            4 => format!("{t}.substring('a')"),
            5 => format!("{t}.substring(0, 'a')"),
            6 => format!("{t}.replace(1, 'b')"),
            7 => format!("{t}.replace('a', true)"),
            8 => format!("{t}.replace('a', 'b', 'c')"),
            9 => format!("{t}.split(7)"),
            10 => format!("{t}.split('a', 'b')"),
            11 => "['a', 1].join()".into(),
            12 => format!("[{t}].join(3)"),
            _ => format!("{t}.indexOf('', {})", *self.rng.pick(&["'a'", "true"])),
        }
    }
    fn any(&mut self) -> E {
        if self.rng.pct(12) {
            return E { text: self.bad(), value: None };
        }
        let d = self.rng.range(1, 4);
        match self.rng.below(6) {
            0 | 1 => {
                let (t, i) = self.int(d - 1);
                match self.rng.below(3) {
                    0 => E { text: format!("({t} + 1)"), value: Some(V::I(i + 1)) },
                    1 => E { text: format!("(10 - {t})"), value: Some(V::I(10 - i)) },
                    _ => E { text: t, value: Some(V::I(i)) },
                }
            }
            2 => {
                let (t, l) = self.list(d - 1);
                E { text: t, value: Some(V::L(l)) }
            }
            3 => {
                let (t, s) = self.string(d);
                let w = if self.rng.pct(50) { s.clone() } else { self.part(&s) };
                let b = s == w;
                E { text: format!("({t} == {})", quote(&w)), value: Some(V::B(b)) }
            }
            _ => {
                let (t, s) = self.string(d);
                E { text: t, value: Some(V::S(s)) }
            }
        }
    }
}

/// A google.protobuf.Value
fn read(b: &[u8]) -> Option<V> {
    let f = pb::dec(b)?;
    let (n, w) = f.last()?;
    Some(match (n, w) {
        (2, pb::W::Fixed64(x)) => {
            let x = f64::from_bits(*x);
            V::I(x as i64)
        }
        (3, pb::W::Len(s)) => V::S(String::from_utf8(s.clone()).ok()?),
        (4, pb::W::Varint(x)) => V::B(*x != 0),
        (6, pb::W::Len(l)) => V::L(
            pb::dec(l)?
                .iter()
                .map(|(_, w)| match w {
                    pb::W::Len(v) => match read(v)? {
                        V::S(s) => Some(s),
                        _ => None,
                    },
                    _ => None,
                })
                .collect::<Option<Vec<_>>>()?,
        ),
        _ => return None,
    })
}

fn g21(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let mut used = BTreeMap::new();
    let mut words: Vec<(String, String)> = vec![];
    {
        let mut g = G { rng, vars: &[], used: &mut used };
        for n in ["request.path", "request.headers['x-in']", "request.referer", "source.principal"] {
            let w = g.word();
            words.push((n.into(), w));
        }
    }
    let n = rng.range(4, 9);
    let mut exprs = vec![];
    for _ in 0..n {
        let mut g = G { rng, vars: &words, used: &mut used };
        exprs.push((g.any(), g.rng.below(3)));
    }
    let mut actions: Vec<J> = vec![];
    for (i, (e, how)) in exprs.iter().enumerate() {
        actions.push(match how {
            0 => store(&format!("out{i}"), &e.text, "true", true),
            1 => {
                // where the value decides
                let p = match &e.value {
                    Some(V::S(s)) => format!("{} == {}", e.text, quote(s)),
                    Some(V::I(k)) => format!("{} == {k}", e.text),
                    Some(V::B(b)) => format!("{} == {b}", e.text),
                    Some(V::L(l)) => format!("{} == [{}]", e.text, l.iter().map(|s| quote(s)).collect::<Vec<_>>().join(", ")),
                    None => format!("{} == 'x'", e.text),
                };
                set_headers(false, &format!("[['x-out-{i}', 'yes']]"), &p)
            }
            _ => {
                let t = match &e.value {
                    Some(V::L(_)) => format!("string(size({}))", e.text),
                    Some(V::S(_)) => e.text.clone(),
                    Some(V::B(_)) => format!("({} ? 'true' : 'false')", e.text),
                    _ => format!("string({})", e.text),
                };
                set_headers(false, &format!("[['x-out-{i}', {t}]]"), "true")
            }
        });
    }
    let cfg = serde_json::json!({"services": {}, "actionSets": [aset("s", "h.test", actions)]}).to_string();
    let mut w = World::new();
    if !w.configure(&cfg) {
        return Err(fail("rejected", "a configuration with string functions was rejected".into(), &cfg, 0));
    }
    let mut s = stream("h.test", &[("x-in".into(), words[1].1.clone())]);
    prop(&mut s, "request.path", words[0].1.as_bytes());
    prop(&mut s, "request.referer", words[2].1.as_bytes());
    prop(&mut s, "connection.subject_peer_certificate", b"x");
    prop(&mut s, "source.principal", words[3].1.as_bytes());
    let ctx = w.new_stream(s);
    let mark = World::mark();
    w.request_headers(ctx, true);
    let got = seen(mark);
    if let Some(p) = &w.panicked {
        return Err(fail("panic", p.clone(), &cfg, mark));
    }
    if !got.replies.is_empty() {
        return Err(fail("reply", "a local reply was sent where nothing denies".into(), &cfg, mark));
    }
    let hs = req_headers(ctx);
    for (i, (e, how)) in exprs.iter().enumerate() {
        cov.events += 1;
        let header = hs.iter().find(|(k, _)| *k == format!("x-out-{i}")).map(|(_, v)| v.clone());
        let (shown, want) = match how {
            0 => {
                let x = got.exports.iter().find(|(k, _)| *k == format!("kuadrant.out{i}")).map(|(_, b)| b.clone());
                (x.as_deref().map(|b| format!("{:?}", read(b))), e.value.as_ref().map(|v| format!("{:?}", Some(v.clone()))))
            }
            1 => (header, e.value.as_ref().map(|_| "yes".to_string())),
            _ => (
                header,
                e.value.as_ref().map(|v| match v {
                    V::S(s) => s.clone(),
                    V::I(i) => i.to_string(),
                    V::B(b) => b.to_string(),
                    V::L(l) => l.len().to_string(),
                }),
            ),
        };
        if shown != want {
            return Err(fail("value", format!("{} with {words:?}: got {shown:?} (as {}), expected {want:?}, which is {:?}", e.text, ["stored value", "condition", "header"][*how], e.value), &cfg, mark));
        }
        cov.state(["stored", "condition", "header"][*how]);
    }
    for f in used.keys() {
        cov.state(f);
    }
    cov.distinct(&exprs.iter().map(|e| e.0.text.as_str()).collect::<Vec<_>>().join(";"));
    w.destroy(ctx);
    let _ = sim::with(|_| ());
    Ok(())
}

pub static G21: Prop = Prop {
    id: "G21",
    level: "exploration",
    rule: "a case counts as distinct by its 4-9 expressions",
    quick: 6000,
    thorough: 600_000,
    case: g21,
    probes: &[],
    need: &["stored", "condition", "header", "charAt", "indexOf", "indexOf from", "lastIndexOf", "lastIndexOf from", "join", "lowerAscii", "upperAscii", "trim", "replace", "split", "substring", "bad"],
    assumptions: super::pipeline::ASSUME,
};
