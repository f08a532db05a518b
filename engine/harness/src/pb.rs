//! Small protobuf wire codec written independently of the code under test.
#[derive(Clone, Debug, PartialEq)]
pub enum W {
    Varint(u64),
    Fixed64(u64),
    Fixed32(u32),
    Len(Vec<u8>),
}

pub type Msg = Vec<(u32, W)>;

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push((v as u8 & 0x7f) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

pub fn enc(m: &[(u32, W)]) -> Vec<u8> {
    let mut out = vec![];
    for (f, w) in m {
        match w {
            W::Varint(v) => {
                put_varint(&mut out, (*f as u64) << 3);
                put_varint(&mut out, *v);
            }
            W::Fixed64(v) => {
                put_varint(&mut out, ((*f as u64) << 3) | 1);
                out.extend_from_slice(&v.to_le_bytes());
            }
            W::Len(b) => {
                put_varint(&mut out, ((*f as u64) << 3) | 2);
                put_varint(&mut out, b.len() as u64);
                out.extend_from_slice(b);
            }
            W::Fixed32(v) => {
                put_varint(&mut out, ((*f as u64) << 3) | 5);
                out.extend_from_slice(&v.to_le_bytes());
            }
        }
    }
    out
}

fn take_varint(b: &[u8], p: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    let mut s = 0;
    loop {
        let x = *b.get(*p)?;
        *p += 1;
        if s >= 64 {
            return None;
        }
        v |= ((x & 0x7f) as u64).wrapping_shl(s);
        if x & 0x80 == 0 {
            return Some(v);
        }
        s += 7;
    }
}

pub fn dec(b: &[u8]) -> Option<Msg> {
    let mut p = 0;
    let mut out = vec![];
    while p < b.len() {
        let tag = take_varint(b, &mut p)?;
        let f = (tag >> 3) as u32;
        let w = match tag & 7 {
            0 => W::Varint(take_varint(b, &mut p)?),
            1 => {
                let s = b.get(p..p + 8)?;
                p += 8;
                W::Fixed64(u64::from_le_bytes(s.try_into().ok()?))
            }
            2 => {
                let n = take_varint(b, &mut p)? as usize;
                let s = b.get(p..p.checked_add(n)?)?;
                p += n;
                W::Len(s.to_vec())
            }
            5 => {
                let s = b.get(p..p + 4)?;
                p += 4;
                W::Fixed32(u32::from_le_bytes(s.try_into().ok()?))
            }
            _ => return None,
        };
        out.push((f, w));
    }
    Some(out)
}

pub fn s(f: u32, v: &str) -> (u32, W) {
    (f, W::Len(v.as_bytes().to_vec()))
}
pub fn sub(f: u32, m: &[(u32, W)]) -> (u32, W) {
    (f, W::Len(enc(m)))
}
pub fn int(f: u32, v: i64) -> (u32, W) {
    (f, W::Varint(v as u64))
}

pub fn get<'a>(m: &'a Msg, f: u32) -> Option<&'a W> {
    m.iter().rev().find(|(n, _)| *n == f).map(|(_, w)| w)
}
pub fn get_str(m: &Msg, f: u32) -> String {
    match get(m, f) {
        Some(W::Len(b)) => String::from_utf8_lossy(b).into_owned(),
        _ => String::new(),
    }
}
pub fn get_int(m: &Msg, f: u32) -> i64 {
    match get(m, f) {
        Some(W::Varint(v)) => *v as i64,
        _ => 0,
    }
}
pub fn get_msg(m: &Msg, f: u32) -> Option<Msg> {
    match get(m, f) {
        Some(W::Len(b)) => dec(b),
        _ => None,
    }
}
pub fn all_msgs(m: &Msg, f: u32) -> Vec<Msg> {
    m.iter()
        .filter(|(n, _)| *n == f)
        .filter_map(|(_, w)| match w {
            W::Len(b) => dec(b),
            _ => None,
        })
        .collect()
}
pub fn all_strs(m: &Msg, f: u32) -> Vec<String> {
    m.iter()
        .filter(|(n, _)| *n == f)
        .filter_map(|(_, w)| match w {
            W::Len(b) => Some(String::from_utf8_lossy(b).into_owned()),
            _ => None,
        })
        .collect()
}
/// map<string,string> entries, sorted
pub fn str_map(m: &Msg, f: u32) -> Vec<(String, String)> {
    let mut v: Vec<_> = all_msgs(m, f).iter().map(|e| (get_str(e, 1), get_str(e, 2))).collect();
    v.sort();
    v
}

/// envoy RateLimitResponse { overall_code = 1, response_headers_to_add = 3 {key=1,value=2} }
pub fn rl_response(code: i64, headers: &[(String, String)]) -> Vec<u8> {
    let mut m: Msg = vec![];
    if code != 0 {
        m.push(int(1, code));
    }
    for (k, v) in headers {
        m.push(sub(3, &[s(1, k), s(2, v)]));
    }
    enc(&m)
}
