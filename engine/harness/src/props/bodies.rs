//! G12, G13: what expressions read from JSON bodies and from event streams.
use super::kit::*;
use crate::cfg::quote;
use crate::pb::{self, W};
use crate::prop::*;
use crate::rng::Rng;
use crate::world::World;
use proxy_wasm::types::Action;
use serde_json::{json, Value as J};

#[derive(Clone, Debug)]
enum Doc {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<Doc>),
    Obj(Vec<(String, Doc)>),
}

const KEYS: &[&str] = &["model", "a", "b", "usage", "total_tokens", "0", "1", "", "a/b", "m~n", "~1", "é\"q", "long-key-long-key", "x y", "b\\s", "stream", "mode", "models", "2", "10"];
const TEXTS: &[&str] = &[
    "", "hello", "true", "false", "null", "123", "-5", "1e5", "nan", "inf", "infinity", "+7", "0x10", "{\"a\":1}", "[1]", "a\"b", "back\\slash", "tab\there", "nl\nx\r", "ü", "\u{1F980}crab", "it's", "gpt-4", " sp ",
    "}", "]]", ",:", "\\u0041", "data: x", "\u{7f}\u{80}", "1.5",
];

fn num(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => "0".into(),
        1 => "-0".into(),
        2 => "9223372036854775807".into(),
        3 => "18446744073709551615".into(),
        4 => "-9223372036854775808".into(),
        5 => "123456789012345678901234567890".into(),
        6 => "1.5e3".into(),
        7 => "-0.25".into(),
        8 => "1E-2".into(),
        9 => format!("{}.0", rng.below(100)),
        _ => format!("{}", rng.below(5000)),
    }
}

fn scalar(rng: &mut Rng) -> Doc {
    match rng.below(10) {
        0 => Doc::Null,
        1 => Doc::Bool(true),
        2 => Doc::Bool(false),
        3..=5 => Doc::Num(num(rng)),
        _ => Doc::Str(if rng.pct(6) { "long ".repeat(rng.range(1, 1500)) } else { rng.pick(TEXTS).to_string() }),
    }
}

fn doc(rng: &mut Rng, depth: usize) -> Doc {
    if depth > 4 || rng.pct(if depth == 0 { 3 } else { 45 }) {
        return scalar(rng);
    }
    if rng.pct(25) && depth > 0 {
        if rng.pct(15) {
            return Doc::Arr((0..rng.range(10, 13)).map(|_| if rng.pct(90) { scalar(rng) } else { doc(rng, depth + 1) }).collect());
        }
        return Doc::Arr((0..rng.below(4)).map(|_| doc(rng, depth + 1)).collect());
    }
    let n = rng.below(6);
    let mut m: Vec<(String, Doc)> = vec![];
    for _ in 0..n {
        let k = rng.pick(KEYS).to_string();
        if !m.iter().any(|(o, _)| *o == k) {
            m.push((k, doc(rng, depth + 1)));
        }
    }
    Doc::Obj(m)
}

struct Span {
    ptr: String,
    start: usize,
    end: usize,
    value: Doc,
}

struct Writer<'a> {
    rng: &'a mut Rng,
    out: Vec<u8>,
    spans: Vec<Span>,
    /// line breaks between tokens
    lines: bool,
    escapes: usize,
}

impl Writer<'_> {
    fn gap(&mut self) {
        while self.rng.pct(15) {
            let c = *self.rng.pick(if self.lines { b" \t\n\r".as_slice() } else { b"  \t".as_slice() });
            self.out.push(c);
        }
    }
    fn string(&mut self, s: &str, astral: bool) {
        self.out.push(b'"');
        for c in s.chars() {
            let must = c == '"' || c == '\\' || (c as u32) < 0x20;
            let may = self.rng.pct(self.escapes) && (astral || (c as u32) < 0x10000);
            let short = match c {
                '"' => Some('"'),
                '\\' => Some('\\'),
                '/' => Some('/'),
                '\n' => Some('n'),
                '\r' => Some('r'),
                '\t' => Some('t'),
                _ => None,
            };
            match short {
                Some(e) if (must || may) && self.rng.pct(60) => {
                    self.out.push(b'\\');
                    self.out.push(e as u8);
                }
                _ if must || may => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        let t = if self.rng.pct(50) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
                        self.out.extend(t.bytes());
                    }
                }
                _ => {
                    let mut b = [0; 4];
                    self.out.extend(c.encode_utf8(&mut b).bytes());
                }
            }
        }
        self.out.push(b'"');
    }
    fn write(&mut self, d: &Doc, ptr: &str) {
        self.gap();
        let start = self.out.len();
        match d {
            Doc::Null => self.out.extend(b"null"),
            Doc::Bool(b) => self.out.extend(b.to_string().bytes()),
            Doc::Num(n) => self.out.extend(n.bytes()),
            Doc::Str(s) => self.string(s, true),
            Doc::Arr(v) => {
                self.out.push(b'[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.out.push(b',');
                    }
                    self.write(x, &format!("{ptr}/{i}"));
                }
                self.gap();
                self.out.push(b']');
            }
            Doc::Obj(m) => {
                self.out.push(b'{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        self.out.push(b',');
                    }
                    self.gap();
                    self.string(k, false);
                    self.gap();
                    self.out.push(b':');
                    self.write(x, &format!("{ptr}/{}", k.replace('~', "~0").replace('/', "~1")));
                }
                self.gap();
                self.out.push(b'}');
            }
        }
        self.spans.push(Span { ptr: ptr.to_string(), start, end: self.out.len(), value: d.clone() });
        self.gap();
    }
}

struct Body {
    bytes: Vec<u8>,
    spans: Vec<Span>,
    whole: bool,
    truncated: bool,
}

impl Body {
    fn scalar(&self, ptr: &str) -> Option<&Doc> {
        let s = self.spans.iter().find(|s| s.ptr == ptr)?;
        if matches!(s.value, Doc::Arr(_) | Doc::Obj(_)) {
            return None;
        }
        // nothing tells a number from the beginning of a longer one but what follows it
        let cut = s.end > self.bytes.len() || matches!(s.value, Doc::Num(_)) && s.end == self.bytes.len() && !ptr.is_empty();
        if self.truncated && cut {
            return None;
        }
        Some(&s.value)
    }
}

fn write_doc(rng: &mut Rng, d: &Doc, lines: bool) -> (Vec<u8>, Vec<Span>) {
    let escapes = *rng.pick(&[0, 10, 60]);
    let mut w = Writer { rng, out: vec![], spans: vec![], lines, escapes };
    w.write(d, "");
    (w.out, w.spans)
}

fn json_body(rng: &mut Rng) -> Body {
    let d = doc(rng, 0);
    let (mut bytes, spans) = write_doc(rng, &d, true);
    let truncated = rng.pct(12) && !bytes.is_empty();
    if truncated {
        let mut at = rng.below(bytes.len());
        let nums: Vec<&Span> = spans.iter().filter(|s| matches!(s.value, Doc::Num(_))).collect();
        if !nums.is_empty() && rng.pct(40) {
            let s = *rng.pick(&nums);
            at = (s.start + rng.below(s.end - s.start + 1)).min(bytes.len() - 1);
        }
        // a document that is a number is another number when it is cut
        while spans.iter().any(|s| matches!(s.value, Doc::Num(_)) && s.ptr.is_empty() && s.start < at && at <= s.end) {
            at -= 1;
        }
        bytes.truncate(at);
    }
    let whole = serde_json::from_slice::<J>(&bytes).is_ok();
    Body { bytes, spans, whole, truncated }
}

/// An event stream whose event before the last carries a document.
fn sse_body(rng: &mut Rng) -> Body {
    let eol = *rng.pick(&["\n", "\n", "\r\n", "\r"]);
    // a byte order mark is not part of the stream
    let mut out: Vec<u8> = if rng.pct(15) { "\u{feff}".into() } else { vec![] };
    let n = rng.below(7);
    let mut events: Vec<(bool, Vec<Span>)> = vec![];
    for i in 0..n {
        let mut lines: Vec<Vec<u8>> = vec![];
        // every event but the one that counts carries something else most of the time
        let is_doc = i + 2 == n || rng.pct(60);
        let (text, spans) = if is_doc {
            let d = doc(rng, 0);
            let (b, s) = write_doc(rng, &d, false);
            (b, s)
        } else {
            // bytes that aren't text are no reason to lose an event
            (rng.pick(&[&b"[DONE]"[..], b"keep", b"{broken", "tö ken".as_bytes(), b"\xff", b"t\xe2\x82 ken", b"cut \xf0\x9f\x92"]).to_vec(), vec![])
        };
        // the data may be spread over several lines, at the gaps of the document
        let mut parts: Vec<Vec<u8>> = vec![];
        let mut cur: Vec<u8> = vec![];
        let mut in_str = false;
        let mut esc = false;
        for &b in &text {
            cur.push(b);
            if in_str {
                if esc {
                    esc = false;
                } else if b == b'\\' {
                    esc = true;
                } else if b == b'"' {
                    in_str = false;
                }
            } else if b == b'"' {
                in_str = true;
            } else if matches!(b, b',' | b'{' | b'[' | b':') && is_doc && rng.pct(10) {
                parts.push(std::mem::take(&mut cur));
            }
        }
        parts.push(cur);
        parts.retain(|p| !p.is_empty());
        for p in parts {
            let mut l = b"data:".to_vec();
            // one space after the colon is not part of the value
            if p[0] == b' ' || rng.pct(70) {
                l.push(b' ');
            }
            l.extend(p);
            lines.push(l);
        }
        for extra in [&b": comment"[..], b":", b": \xc3\x28", b"event: usage", b"id: 7", b"retry: 100", b"unknown: x", b"nothing"] {
            if rng.pct(12) {
                let at = rng.below(lines.len() + 1);
                lines.insert(at, extra.to_vec());
            }
        }
        // a byte order mark further on is part of the name of an unknown field
        if rng.pct(12) && !lines.is_empty() {
            let at = rng.range(1, lines.len());
            lines.insert(at, "\u{feff}data: {\"model\":\"bom\"}".into());
        }
        if rng.pct(15) {
            out.extend(format!(": ping{eol}{eol}").bytes());
        }
        if rng.pct(8) {
            out.extend(format!("event: lone{eol}{eol}{eol}").bytes());
        }
        for l in lines {
            out.extend(l);
            out.extend(eol.bytes());
        }
        // an event takes effect with the blank line
        out.extend(eol.bytes());
        events.push((is_doc, spans));
    }
    if rng.pct(20) {
        out.extend(b"data: unfinished");
        if rng.pct(50) {
            out.extend(b"\n");
        }
    }
    let (is_doc, spans) = if n < 2 { (false, vec![]) } else { events.swap_remove(n - 2) };
    Body { bytes: out, spans, whole: is_doc, truncated: false }
}

fn split(rng: &mut Rng, b: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    match rng.below(5) {
        0 => out.push(b.to_vec()),
        1 if b.len() < 300 => out.extend(b.iter().map(|x| vec![*x])),
        _ => {
            let mut at = 0;
            while at < b.len() {
                let most = *rng.pick(if b.len() < 400 { &[3, 20, 100] } else { &[90, 400, 5000] });
                let n = rng.range(1, (b.len() - at).min(most));
                out.push(b[at..at + n].to_vec());
                at += n;
            }
        }
    }
    if rng.pct(20) {
        let at = rng.below(out.len() + 1);
        out.insert(at, vec![]);
    }
    if rng.pct(30) || out.is_empty() {
        out.push(vec![]);
    }
    out
}

fn same(d: &Doc, bytes: &[u8]) -> bool {
    let Some(m) = pb::dec(bytes) else { return false };
    if m.len() != 1 {
        return false;
    }
    match (d, &m[0]) {
        (Doc::Null, (1, W::Varint(0))) => true,
        (Doc::Num(n), (2, W::Fixed64(v))) => n.parse::<f64>().is_ok_and(|n| n == f64::from_bits(*v)),
        (Doc::Str(s), (3, W::Len(b))) => s.as_bytes() == &b[..],
        (Doc::Bool(x), (4, W::Varint(v))) => (*v == 1) == *x,
        _ => false,
    }
}

#[derive(Clone, Debug)]
enum Expr {
    One(String),
    Cat(String, String),
    /// the first, the second and the first again
    Thrice(String, String),
    /// a whole number, as text
    Text(String),
    /// the second value, only if the first one is that text
    If(String, String, String),
}

enum Want {
    /// nothing may be stored
    Nothing,
    Value(Doc),
}

fn want(e: &Expr, b: &Body) -> Want {
    let all: Vec<&String> = match e {
        Expr::One(p) | Expr::Text(p) => vec![p],
        Expr::Cat(p, q) | Expr::Thrice(p, q) => vec![p, q],
        Expr::If(p, _, q) => vec![p, q],
    };
    let mut v = vec![];
    for p in all {
        match b.scalar(p) {
            Some(d) => v.push(d.clone()),
            None => return Want::Nothing,
        }
    }
    match e {
        Expr::One(_) => Want::Value(v.remove(0)),
        Expr::Text(_) => match &v[0] {
            Doc::Num(n) => Want::Value(Doc::Str(n.clone())),
            _ => Want::Nothing,
        },
        Expr::Thrice(..) => match (&v[0], &v[1]) {
            (Doc::Str(a), Doc::Str(b)) => Want::Value(Doc::Str(format!("{a}{b}{a}"))),
            _ => Want::Nothing,
        },
        Expr::Cat(..) => match (&v[0], &v[1]) {
            (Doc::Str(a), Doc::Str(b)) => Want::Value(Doc::Str(format!("{a}:{b}"))),
            _ => Want::Nothing,
        },
        Expr::If(_, t, _) => match &v[0] {
            Doc::Str(s) if s == t => Want::Value(v.remove(1)),
            Doc::Str(_) => Want::Nothing,
            // another type: not equal, or an error; never the value
            _ => Want::Nothing,
        },
    }
}

fn pick_ptr(rng: &mut Rng, b: &Body, seen: &[String], sse: bool) -> String {
    if !seen.is_empty() && rng.pct(15) {
        return rng.pick(seen).clone();
    }
    if b.spans.is_empty() || rng.pct(8) {
        let p = *rng.pick(&["/nope", "/model/x/y", "/a/b/c", "/usage/total_tokens/0", "/a~1b/z", "/"]);
        if !b.spans.iter().any(|s| s.ptr == p) {
            return p.to_string();
        }
        return "/nope".into();
    }
    for _ in 0..6 {
        let s = rng.pick(&b.spans);
        if !matches!(s.value, Doc::Arr(_) | Doc::Obj(_)) {
            return s.ptr.clone();
        }
    }
    let s = rng.pick(&b.spans);
    // what an object or array in an event evaluates to isn't specified
    if sse && matches!(s.value, Doc::Arr(_) | Doc::Obj(_)) {
        return "/nope".into();
    }
    s.ptr.clone()
}

struct St {
    response: bool,
    expr: Expr,
}

fn other(rng: &mut Rng, t: &str) -> String {
    match rng.below(4) {
        0 => format!("{t}x"),
        1 => "unlike".into(),
        2 => t.chars().skip(1).collect::<String>() + "_",
        _ => format!(" {t}"),
    }
}

fn case(rng: &mut Rng, cov: &mut Cov, sse: bool) -> Result<(), Violation> {
    let req = json_body(rng);
    let resp = if sse { sse_body(rng) } else { json_body(rng) };
    let mut actions: Vec<J> = vec![];
    let guard = rng.pct(35);
    if guard {
        actions.push(call("s", "g", "'guard'", vec![]));
    }
    let mut sts: Vec<St> = vec![];
    let mut seen_ptrs: [Vec<String>; 2] = [vec![], vec![]];
    for i in 0..rng.range(1, 4) {
        let response = if sse { rng.pct(80) } else { rng.pct(45) };
        let (b, name) = if response { (&resp, "responseBodyJSON") } else { (&req, "requestBodyJSON") };
        let known = &mut seen_ptrs[response as usize];
        let mut ptr = |rng: &mut Rng| {
            let p = pick_ptr(rng, b, known, sse && response);
            known.push(p.clone());
            p
        };
        let p = ptr(rng);
        let is_str = |p: &str| matches!(b.scalar(p), Some(Doc::Str(_)));
        let whole = matches!(b.scalar(&p), Some(Doc::Num(n)) if n != "-0" && (n.parse::<i64>().is_ok() || n.parse::<u64>().is_ok()));
        let expr = match rng.below(6) {
            _ if whole && rng.pct(40) => {
                cov.state("whole_number_as_text");
                Expr::Text(p)
            }
            0 => {
                let q = ptr(rng);
                if is_str(&p) && is_str(&q) && rng.pct(40) {
                    cov.state("same_field_twice");
                    Expr::Thrice(p, q)
                } else {
                    Expr::Cat(p, q)
                }
            }
            1 if is_str(&p) => {
                let q = ptr(rng);
                let Some(Doc::Str(t)) = b.scalar(&p) else { unreachable!() };
                let t = if rng.pct(60) { t.clone() } else { other(rng, t) };
                Expr::If(p, t, q)
            }
            _ => Expr::One(p),
        };
        // the value read from inside another expression
        let nest = if rng.pct(25) {
            let text = match &expr {
                Expr::One(p) | Expr::Text(p) => is_str(p),
                Expr::Cat(p, q) | Expr::Thrice(p, q) | Expr::If(p, _, q) => is_str(p) && is_str(q),
            };
            cov.state("nested");
            if text && rng.pct(35) {
                *rng.pick(&[("{", ": 'v'}.map(e, e)[0]"), ("{'m': {", ": [1]}}.m.map(e, e)[0]")])
            } else {
                *rng.pick(&[("[", "][0]"), ("{'k': ", "}.k"), ("{'k': ", "}['k']"), ("(true ? ", " : 'n')"), ("(false ? 'n' : ", ")"), ("[", "].map(e, e)[0]"), ("[0].map(e, ", ")[0]"), ("[0, 1].map(e, e == 1, ", ")[0]"), ("[[", "]].map(e, e[0])[0]")])
            }
        } else {
            ("", "")
        };
        let get = |p: &str| format!("{}{name}({}){}", nest.0, quote(p), nest.1);
        let (value, when) = match &expr {
            Expr::One(p) => (get(p), "true".to_string()),
            Expr::Cat(p, q) => (format!("{} + ':' + {}", get(p), get(q)), "true".into()),
            Expr::Thrice(p, q) => (format!("{0} + {1} + {0}", get(p), get(q)), "true".into()),
            Expr::Text(p) => (format!("string({})", get(p)), "true".into()),
            Expr::If(p, t, q) => (get(q), format!("{} == {}", get(p), quote(t))),
        };
        actions.push(store(&format!("v.s{i}"), &value, &when, true));
        sts.push(St { response, expr });
    }
    // a denial that depends on the request body, read by an action ahead of it
    let strs: Vec<(String, String)> = sts
        .iter()
        .filter(|s| !s.response)
        .filter_map(|s| match &s.expr {
            Expr::One(p) => match req.scalar(p) {
                Some(Doc::Str(t)) => Some((p.clone(), t.clone())),
                _ => None,
            },
            _ => None,
        })
        .collect();
    let mut denies = None;
    if !strs.is_empty() && rng.pct(40) {
        let (p, t) = rng.pick(&strs).clone();
        let hit = rng.pct(50);
        let lit = if hit { t.clone() } else { other(rng, &t) };
        denies = Some(hit);
        actions.push(deny("DenyResponse{status: 403u}", &format!("requestBodyJSON({}) == {}", quote(&p), quote(&lit))));
    }
    // a call that depends on the response body
    let mut report: Option<(String, Option<Vec<u8>>)> = None;
    let mut unsure = false;
    if rng.pct(60) {
        let p = pick_ptr(rng, &resp, &seen_ptrs[1], sse);
        let found = if resp.whole { resp.scalar(&p).cloned() } else { None };
        let mut get = format!("responseBodyJSON({})", quote(&p));
        if rng.pct(25) {
            let (pre, post) = *rng.pick(&[("[", "][0]"), ("{'k': ", "}.k"), ("(true ? ", " : 'n')"), ("[0].map(e, ", ")[0]"), ("[", "].filter(e, true)[0]")]);
            get = format!("{pre}{get}{post}");
        }
        let msg = |fields: &[(u32, W)]| pb::enc(fields);
        let (fields, when, sent) = match &found {
            Some(Doc::Str(s)) if rng.pct(60) => (format!("domain: {get}"), "true".to_string(), Some(if s.is_empty() { vec![] } else { msg(&[pb::s(1, s)]) })),
            Some(Doc::Str(s)) => {
                let hit = rng.pct(50);
                let lit = if hit { s.clone() } else { other(rng, s) };
                ("domain: 'rep'".into(), format!("{get} == {}", quote(&lit)), hit.then(|| msg(&[pb::s(1, "rep")])))
            }
            Some(Doc::Num(n)) => match n.parse::<u32>() {
                Ok(v) if rng.pct(60) => (format!("domain: 'rep', hits_addend: uint({get})"), "true".into(), Some(msg(&if v == 0 { vec![pb::s(1, "rep")] } else { vec![pb::s(1, "rep"), pb::int(3, v as i64)] }))),
                _ => {
                    let f: f64 = n.parse().unwrap();
                    let hit = rng.pct(50);
                    let lit = if hit { format!("double('{f:e}')") } else { "double('77.25')".into() };
                    ("domain: 'rep'".into(), format!("double({get}) == {lit}"), hit.then(|| msg(&[pb::s(1, "rep")])))
                }
            },
            Some(Doc::Bool(x)) => ("domain: 'rep'".into(), get.clone(), x.then(|| msg(&[pb::s(1, "rep")]))),
            _ => (format!("domain: {get}"), "true".into(), None),
        };
        actions.push(json!({"type": "grpc", "service": "rep", "var": "q", "predicate": when, "isGuard": false, "terminal": false, "onReply": [],
            "messageBuilder": format!("envoy.service.ratelimit.v3.RateLimitRequest {{ {fields} }}")}));
        // of a body cut short, a store action may have read the value all the same
        unsure = resp.truncated && seen_ptrs[1].contains(&p);
        report = Some((when, sent));
    }
    // a call that carries a value saved from the response body, made as soon as there is one
    let texts: Vec<(usize, String)> = sts
        .iter()
        .enumerate()
        .filter(|(_, s)| s.response && resp.whole && !resp.truncated)
        .filter_map(|(i, s)| match &s.expr {
            Expr::One(p) => match resp.scalar(p) {
                Some(Doc::Str(t)) if !t.is_empty() => Some((i, t.clone())),
                _ => None,
            },
            _ => None,
        })
        .collect();
    let mut relay = None;
    if !texts.is_empty() && rng.pct(50) {
        let (i, t) = rng.pick(&texts).clone();
        actions.push(call("mid", "m", &format!("v.s{i}"), vec![]));
        relay = Some(t);
    }
    let cfg = json!({"services": {"s": svc("ratelimit", "cl", "deny"), "mid": svc("ratelimit", "cm", "deny"), "rep": svc("ratelimit", "cr", "allow")}, "actionSets": [aset("x", "a.com", actions)]}).to_string();
    let mut w = World::new();
    if !w.configure(&cfg) {
        return Err(Violation::new("config-rejected", "a valid configuration was rejected").cfg(&cfg));
    }
    let cfg = format!("{cfg}\nrequest body {:?}\nresponse body {:?}", String::from_utf8_lossy(&req.bytes), String::from_utf8_lossy(&resp.bytes));
    let ctx = w.new_stream(stream("a.com", &[]));
    let mark = World::mark();
    let mut answer_at = rng.below(6);
    let mut guard_token = None;
    w.request_headers(ctx, false);
    if guard {
        guard_token = w.outstanding(ctx).first().copied();
        if guard_token.is_none() {
            return Err(fail("guard-call", "the guarding call was not made".into(), &cfg, mark));
        }
    }
    let chunks = split(rng, &req.bytes);
    let mut held: Vec<u8> = vec![];
    let last = chunks.len() - 1;
    let trailers = rng.pct(15);
    let mut key = format!("{}/{}", sts.len(), sse);
    for (i, c) in chunks.iter().enumerate() {
        held.extend(c);
        buffer(ctx, false, Some(held.clone()));
        if w.request_body(ctx, held.len(), i == last && !trailers) == Action::Continue {
            if !held.is_empty() && i < last {
                cov.state("passed_on");
            }
            held.clear();
            if i == last {
                buffer(ctx, false, None);
            }
        } else {
            cov.state("held_body");
        }
        cov.events += 1;
        if let Some(t) = guard_token.take() {
            if answer_at == 0 || i == last {
                w.grpc_reply(t, 0, Some(pb::rl_response(1, &[])));
                held.clear();
            } else {
                answer_at -= 1;
                guard_token = Some(t);
            }
        }
    }
    if trailers {
        w.request_trailers(ctx);
        cov.state("trailers");
    }
    let s = seen(mark);
    if let Some(p) = s.panics.first() {
        return Err(fail("panic", p.clone(), &cfg, mark));
    }
    match denies {
        Some(true) => {
            // an earlier action on the same body that fails doesn't matter: each reads it on its own
            if s.replies.len() != 1 || s.replies[0].0 != 403 {
                return Err(fail("body-denial-missing", format!("the value of the body calls for a denial, got {:?}", s.replies), &cfg, mark));
            }
            cov.state("denied_by_body");
            check_exports(&s, &sts, &req, None, true, &cfg, mark, cov)?;
            w.destroy(ctx);
            cov.distinct(&key);
            return Ok(());
        }
        Some(false) => cov.state("not_denied"),
        None => {}
    }
    if !s.replies.is_empty() {
        return Err(fail("body-denial", format!("a reply nothing calls for: {:?}", s.replies), &cfg, mark));
    }
    check_exports(&s, &sts, &req, None, false, &cfg, mark, cov)?;
    let ct = if sse {
        rng.pick(&["text/event-stream", "text/event-stream; charset=utf-8", "text/event-stream;charset=UTF-8", "Text/Event-Stream"]).to_string()
    } else {
        rng.pick(&["application/json", "application/json; charset=utf-8", "text/plain", ""]).to_string()
    };
    let mut hs = vec![(":status".to_string(), "200".to_string())];
    if !ct.is_empty() {
        hs.push(("content-type".into(), ct));
    }
    respond(ctx, hs);
    w.response_headers(ctx, false);
    if sse {
        if resp.bytes.starts_with("\u{feff}".as_bytes()) {
            cov.state("byte_order_mark");
        }
        if resp.bytes.ends_with(b"\r") {
            cov.state("ends_with_a_carriage_return");
        }
        if std::str::from_utf8(&resp.bytes).is_err() {
            cov.state("bytes_that_are_not_text");
        }
    }
    let chunks = split(rng, &resp.bytes);
    let last = chunks.len() - 1;
    let trailers = rng.pct(15);
    let mut relay_token = None;
    let mut relay_answered = false;
    held.clear();
    for (i, c) in chunks.iter().enumerate() {
        held.extend(c);
        buffer(ctx, true, Some(held.clone()));
        let a = w.response_body(ctx, held.len(), i == last && !trailers);
        cov.events += 1;
        if i < last && std::str::from_utf8(c).is_err() {
            cov.state("split_in_a_character");
        }
        if a == Action::Continue {
            held.clear();
        } else if i < last {
            cov.state("held_response");
        }
        if relay.is_some() && relay_token.is_none() {
            relay_token = seen(mark).calls.iter().find(|(_, c)| c.upstream == "cm").map(|(t, _)| *t);
            if relay_token.is_some() && a == Action::Continue {
                return Err(fail("relay-not-held", "the response went on past the call it depends on".into(), &cfg, mark));
            }
        }
        if let Some(t) = relay_token {
            if !relay_answered && (rng.pct(50) || i == last && !trailers) {
                let before = seen(mark).resumed.1;
                w.grpc_reply(t, 0, Some(pb::rl_response(1, &[])));
                relay_answered = true;
                if seen(mark).resumed.1 != before + 1 {
                    return Err(fail("relay-not-resumed", "the answered call left the response held".into(), &cfg, mark));
                }
                if i < last {
                    cov.state("resumed_in_the_body");
                }
                held.clear();
            }
        }
    }
    if trailers {
        w.response_trailers(ctx);
        cov.state("response_trailers");
        let t = seen(mark).calls.iter().find(|(_, c)| c.upstream == "cm").map(|(t, _)| *t);
        if let (Some(t), false) = (t, relay_answered) {
            w.grpc_reply(t, 0, Some(pb::rl_response(1, &[])));
        }
    }
    let s = seen(mark);
    let relayed: Vec<&Vec<u8>> = s.calls.iter().filter(|(_, c)| c.upstream == "cm").map(|(_, c)| &c.message).collect();
    match &relay {
        Some(t) if relayed.len() != 1 || pb::dec(relayed[0]) != pb::dec(&pb::enc(&[pb::s(1, t)])) => {
            return Err(fail("relay", format!("the call that carries the saved value {t:?} sent {relayed:?}"), &cfg, mark));
        }
        Some(_) => cov.state("saved_value_sent"),
        None => {}
    }
    if let Some(p) = s.panics.first() {
        return Err(fail("panic", p.clone(), &cfg, mark));
    }
    if !s.replies.is_empty() {
        return Err(fail("response-reply", format!("{:?}", s.replies), &cfg, mark));
    }
    check_exports(&s, &sts, &req, Some(&resp), false, &cfg, mark, cov)?;
    let sent: Vec<Vec<u8>> = s.calls.iter().filter(|(_, c)| c.upstream == "cr").map(|(_, c)| c.message.clone()).collect();
    if let Some((when, want)) = &report {
        key += &format!("r{}", want.is_some());
        let got = sent.first();
        if sent.len() > 1 || !unsure && got.map(|g| pb::dec(g)) != want.as_ref().map(|x| pb::dec(x)) {
            return Err(fail("report", format!("call for {when}: sent {sent:?}, expected {want:?}"), &cfg, mark));
        }
        cov.state(if want.is_some() { "report_sent" } else { "report_withheld" });
    } else if !sent.is_empty() {
        return Err(fail("report", "a call nothing calls for".into(), &cfg, mark));
    }
    for t in w.outstanding(ctx) {
        w.grpc_reply(t, 0, Some(pb::rl_response(1, &[])));
    }
    w.log_done(ctx);
    let s = seen(mark);
    check_exports(&s, &sts, &req, Some(&resp), false, &cfg, mark, cov)?;
    w.destroy(ctx);
    key += &sts.iter().map(|s| format!("{}{:?}", s.response as u8, std::mem::discriminant(&s.expr))).collect::<String>();
    cov.distinct(&format!("{key}|{guard}|{:?}|{}", denies, chunks.len().min(8)));
    cov.sample(String::from_utf8_lossy(&resp.bytes).chars().take(200).collect::<String>());
    Ok(())
}

fn check_exports(s: &Seen, sts: &[St], req: &Body, resp: Option<&Body>, cut_short: bool, cfg: &str, mark: usize, cov: &mut Cov) -> Result<(), Violation> {
    for (i, st) in sts.iter().enumerate() {
        let name = format!("kuadrant.v.s{i}");
        let got: Vec<&Vec<u8>> = s.exports.iter().filter(|(n, _)| *n == name).map(|(_, b)| b).collect();
        let b = if st.response { resp } else { Some(req) };
        let side = if st.response { "response" } else { "request" };
        let Some(b) = b else {
            if !got.is_empty() {
                return Err(fail("stored-early", format!("{:?} stored ahead of the body", st.expr), cfg, mark));
            }
            continue;
        };
        let bad = |what: String| Err(fail(&format!("{side}-value"), format!("{:?} of the {side} body: {what}", st.expr), cfg, mark));
        match want(&st.expr, b) {
            Want::Nothing => {
                if !got.is_empty() {
                    return bad(format!("stored {got:?}, nothing to store"));
                }
                cov.state(if b.truncated { "truncated" } else { "missing" });
            }
            Want::Value(_) if cut_short && got.is_empty() => {}
            Want::Value(d) => {
                if got.len() != 1 || !same(&d, got[0]) {
                    return bad(format!("stored {got:?}, expected {d:?}"));
                }
                cov.state(match d {
                    Doc::Null => "null",
                    Doc::Bool(_) => "bool",
                    Doc::Num(_) => "number",
                    _ => "string",
                });
            }
        }
    }
    Ok(())
}

pub static G12: Prop = Prop {
    id: "G12",
    level: "exploration",
    rule: "a case counts as distinct by the number, side and kind of its reading actions, whether the stream was held meanwhile, the outcome of the denial and of the call that depend on a body, and the number of chunks",
    quick: 8000,
    thorough: 200000,
    case: |r, c| case(r, c, false),
    probes: &[
        ("request-fields-in-deny", super::findings::request_fields_in_deny),
        ("request-fields-in-call", super::findings::request_fields_in_call),
        ("response-fields-in-reply-actions", super::findings::response_fields_in_reply_actions),
        ("both-bodies", super::findings::both_bodies),
    ],
    need: &["whole_number_as_text", "same_field_twice", "null", "bool", "number", "string", "missing", "truncated", "passed_on", "held_body", "denied_by_body", "not_denied", "report_sent", "report_withheld", "split_in_a_character"],
    assumptions: super::pipeline::ASSUME,
};

pub static G13: Prop = Prop {
    id: "G13",
    level: "exploration",
    rule: "a case counts as distinct by the number, side and kind of its reading actions, whether the stream was held meanwhile, the outcome of the call that depends on the events, and the number of chunks",
    quick: 8000,
    thorough: 200000,
    case: |r, c| case(r, c, true),
    probes: &[],
    need: &["whole_number_as_text", "same_field_twice", "null", "bool", "number", "string", "missing", "passed_on", "report_sent", "report_withheld", "byte_order_mark", "ends_with_a_carriage_return", "bytes_that_are_not_text", "split_in_a_character"],
    assumptions: super::pipeline::ASSUME,
};
