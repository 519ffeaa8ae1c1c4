//! Requests as bytes on the wire: argument syntax, framing, unknown fields.
use crate::args::*;
use crate::env::net;
use crate::route;
use crate::vs;
use crate::world::*;

route!(RtT, Post, Val("t"), Var);
route!(RtG, Get, Val("g"));
route!(RtGh, Head, Val("g"));

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct QT { pub a: Option<u8>, pub b: Option<i8>, pub c: Option<bool>, pub d: Option<u64>, pub e: Option<i64>, pub f: Option<u16>, pub g: Option<i16>, pub h: Option<u32>, pub i: Option<i32>, pub r: u8, pub s: Option<String> }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct HT {
    #[serde(rename = "x-a")] pub a: Option<u8>, #[serde(rename = "x-b")] pub b: Option<i8>, #[serde(rename = "x-c")] pub c: Option<bool>,
    #[serde(rename = "x-d")] pub d: Option<u64>, #[serde(rename = "x-e")] pub e: Option<i64>, #[serde(rename = "x-f")] pub f: Option<u16>,
    #[serde(rename = "x-g")] pub g: Option<i16>, #[serde(rename = "x-h")] pub h: Option<u32>, #[serde(rename = "x-i")] pub i: Option<i32>,
    #[serde(rename = "x-r")] pub r: u8, #[serde(rename = "x-m")] pub m: Option<Marker>,
}
pub type Ty<P> = Req<(P,), QT, HT>;
pub fn qt() -> QT { QT { a: None, b: None, c: None, d: None, e: None, f: None, g: None, h: None, i: None, r: 9, s: None } }
pub fn ht() -> HT { HT { a: None, b: None, c: None, d: None, e: None, f: None, g: None, h: None, i: None, r: 8, m: None } }

/// Rust's decimal integer syntax, re-implemented: sign, digits, range.
pub fn int(s: &[u8], min: i128, max: i128) -> Option<i128> {
    let (neg, d) = match s.first() { Some(b'-') if min < 0 => (true, &s[1..]), Some(b'+') => (false, &s[1..]), _ => (false, s) };
    if d.is_empty() { return None; }
    let mut n: i128 = 0;
    for &c in d {
        if c < b'0' || c > b'9' { return None; }
        n = n.wrapping_mul(10).wrapping_add((c - b'0') as i128);
    }
    if neg { n = n.wrapping_neg(); }
    if n < min || n > max { None } else { Some(n) }
}
fn boolean(s: &[u8]) -> Option<bool> { if s == b"true" { Some(true) } else if s == b"false" { Some(false) } else { None } }

/// Sends one request whose body looks like another request, then a plain one on
/// the same connection. `want` = what the handler must get, None = 400.
pub fn judge<P: Arg>(w: &mut World, h: &Rec<Ty<P>, Res>, target: &[u8], headers: &[u8], want: Option<Ty<P>>) {
    let trap = b"GET /g HTTP/1.1\r\n\r\n";
    let mut m = b"POST ".to_vec();
    m.extend_from_slice(target);
    m.extend_from_slice(b" HTTP/1.1\r\nContent-Length: 19\r\n");
    m.extend_from_slice(headers);
    m.extend_from_slice(b"\r\n");
    m.extend_from_slice(trap);
    vs::note(0, &m);
    let c = w.raw();
    let out = w.exchange(c, &m);
    let r = match parse_http(&out, false) { Some(r) => r, None => { vs::fail(60); return; } };
    vs::check(r.rest.is_empty(), 61);
    match want {
        Some(mut q) => {
            vs::cover(1);
            q.body = trap.to_vec();
            vs::check(r.status == 200 && r.body == b"t", 62);
            vs::check(h.count() == 1 && h.get(0) == q, 63);
        }
        None => {
            vs::cover(2);
            vs::check(is_problem(&r, 400), 64);
            vs::check(h.count() == 0, 65);
        }
    }
    let out = w.exchange(c, b"GET /g HTTP/1.1\r\n\r\n");
    match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == b"g" && r.rest.is_empty(), 66), None => vs::fail(67) }
}
pub fn setup<P: Arg>() -> (World, Rec<Ty<P>, Res>, Log) {
    let mut w = World::new();
    let h = Rec::new(ok(b"t"));
    let l = log();
    let mut b = w.builder();
    if b.register(h.clone(), proc::<RtT, Ty<P>, Res>()).is_err() { vs::fail(1); }
    if b.register(Tag(b'g', l.clone()), proc::<RtG, Bare, Res>()).is_err() { vs::fail(1); }
    w.start(b);
    (w, h, l)
}
fn path_case<P: Arg>(text: &[u8], value: Option<P>) {
    let (mut w, h, _) = setup::<P>();
    let mut t = b"/t/".to_vec();
    t.extend_from_slice(text);
    t.extend_from_slice(b"?r=9");
    judge(&mut w, &h, &t, b"x-r: 8\r\n", value.map(|v| Req { path: (v,), query: qt(), header: ht(), body: vec![] }));
}
/// Argument text: short symbolic text, or a prefix near a limit plus symbolic characters.
fn text(ty: u64) -> Vec<u8> {
    let pre: &[&[u8]] = match ty {
        0 => &[b"", b"25", b"00", b"+"],
        1 => &[b"", b"-12", b"12", b"-0"],
        2 => &[b"", b"tru", b"fals", b"true"],
        3 => &[b"", b"1844674407370955161", b"0000000000000000000000"],
        4 => &[b"", b"-922337203685477580", b"922337203685477580"],
        5 => &[b"", b"6553", b"+6553"],
        6 => &[b"", b"-3276", b"3276"],
        7 => &[b"", b"429496729", b"-"],
        _ => &[b"", b"-214748364", b"214748364"],
    };
    let k = vs::choose(pre.len() as u64) as usize;
    let n = vs::len(if k == 0 { vs::bound(2, 3) } else { vs::bound(1, 2) });
    let mut t = pre[k].to_vec();
    for _ in 0..n { t.push(vs::u8()); }
    t
}
fn visible(t: &[u8], not: &[u8]) { for &c in t { vs::assume(c > 0x20 && c < 0x7f); for &x in not { vs::assume(c != x); } } }

#[no_mangle]
pub extern "C" fn h_bad_path() {
    let ty = vs::choose(9);
    let t = text(ty);
    visible(&t, b"/\\?#%");
    vs::assume(&t != b"." && &t != b"..");
    match ty {
        0 => path_case::<u8>(&t, int(&t, 0, 255).map(|v| v as u8)),
        1 => path_case::<i8>(&t, int(&t, -128, 127).map(|v| v as i8)),
        2 => path_case::<bool>(&t, boolean(&t)),
        3 => path_case::<u64>(&t, int(&t, 0, u64::max_value() as i128).map(|v| v as u64)),
        4 => path_case::<i64>(&t, int(&t, i64::min_value() as i128, i64::max_value() as i128).map(|v| v as i64)),
        5 => path_case::<u16>(&t, int(&t, 0, 65535).map(|v| v as u16)),
        6 => path_case::<i16>(&t, int(&t, -32768, 32767).map(|v| v as i16)),
        7 => path_case::<u32>(&t, int(&t, 0, u32::max_value() as i128).map(|v| v as u32)),
        _ => path_case::<i32>(&t, int(&t, i32::min_value() as i128, i32::max_value() as i128).map(|v| v as i32)),
    }
}
fn hexval(c: u8) -> Option<u8> {
    match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), b'A'..=b'F' => Some(c - b'A' + 10), _ => None }
}
/// Percent-escapes in path arguments: valid ones are decoded, others are refused.
#[no_mangle]
pub extern "C" fn h_bad_escape() {
    let (x, y) = (vs::u8(), vs::u8());
    visible(&[x, y], b"/\\?#%");
    let dec = match (hexval(x), hexval(y)) { (Some(a), Some(b)) => Some(a << 4 | b), _ => None };
    vs::assume(dec != Some(b'.')); // dot segments
    match vs::choose(4) {
        0 => path_case::<String>(&[b'%', x, y, b'z'], dec.filter(|&d| d < 0x80).map(|d| String::from_utf8(vec![d, b'z']).unwrap_or_default())),
        1 => path_case::<String>(&[b'%', x], None),
        2 => path_case::<String>(&[b'%'], None),
        _ => path_case::<u8>(&[b'1', b'%', x, y], dec.and_then(|d| int(&[b'1', d], 0, 255)).map(|v| v as u8)),
    }
}
/// Multi-byte escapes: well-formed UTF-8 is decoded, anything else is refused.
#[no_mangle]
pub extern "C" fn h_bad_utf8() {
    let n = vs::choose(3) as usize + 1;
    let mut t = vec![];
    let mut d = vec![];
    for _ in 0..n {
        let b = vs::u8();
        vs::assume(b >= 0x80);
        let hx = |v: u8| if v < 10 { b'0' + v } else { b'A' + v - 10 };
        t.extend_from_slice(&[b'%', hx(b >> 4), hx(b & 15)]);
        d.push(b);
    }
    path_case::<String>(&t, String::from_utf8(d).ok());
}
fn set_q(q: &mut QT, ty: u64, t: &[u8]) -> bool {
    match ty {
        0 => { q.a = int(t, 0, 255).map(|v| v as u8); q.a.is_some() }
        1 => { q.b = int(t, -128, 127).map(|v| v as i8); q.b.is_some() }
        2 => { q.c = boolean(t); q.c.is_some() }
        3 => { q.d = int(t, 0, u64::max_value() as i128).map(|v| v as u64); q.d.is_some() }
        4 => { q.e = int(t, i64::min_value() as i128, i64::max_value() as i128).map(|v| v as i64); q.e.is_some() }
        5 => { q.f = int(t, 0, 65535).map(|v| v as u16); q.f.is_some() }
        6 => { q.g = int(t, -32768, 32767).map(|v| v as i16); q.g.is_some() }
        7 => { q.h = int(t, 0, u32::max_value() as i128).map(|v| v as u32); q.h.is_some() }
        _ => { q.i = int(t, i32::min_value() as i128, i32::max_value() as i128).map(|v| v as i32); q.i.is_some() }
    }
}
#[no_mangle]
pub extern "C" fn h_bad_query() {
    let ty = vs::choose(9);
    let mut t = text(ty);
    visible(&t, b"&#%");
    let mut q = qt();
    let mut target = b"/t/p?r=9&".to_vec();
    target.push(b'a' + ty as u8);
    target.push(b'=');
    target.extend_from_slice(&t);
    for c in t.iter_mut() { if *c == b'+' { *c = b' '; } } // form encoding
    let good = set_q(&mut q, ty, &t);
    let (mut w, h, _) = setup::<String>();
    judge(&mut w, &h, &target, b"x-r: 8\r\n", if good { Some(Req { path: ("p".to_string(),), query: q, header: ht(), body: vec![] }) } else { None });
}
#[no_mangle]
pub extern "C" fn h_bad_header() {
    let ty = vs::choose(9);
    let t = text(ty);
    visible(&t, b"");
    let mut q = qt();
    let good = set_q(&mut q, ty, &t);
    let mut hd = ht();
    hd.a = q.a; hd.b = q.b; hd.c = q.c; hd.d = q.d; hd.e = q.e; hd.f = q.f; hd.g = q.g; hd.h = q.h; hd.i = q.i;
    let mut hs = b"x-r: 8\r\nX-".to_vec();
    hs.push(b'A' + ty as u8);
    hs.extend_from_slice(b": ");
    hs.extend_from_slice(&t);
    hs.extend_from_slice(b"\r\n");
    let (mut w, h, _) = setup::<String>();
    judge(&mut w, &h, b"/t/p?r=9", &hs, if good { Some(Req { path: ("p".to_string(),), query: qt(), header: hd, body: vec![] }) } else { None });
}
/// Presence: required fields missing or given twice.
#[no_mangle]
pub extern "C" fn h_bad_presence() {
    let (q, qn): (&[u8], bool) = [(&b"?r=9"[..], true), (b"", false), (b"?", false), (b"?a=1", false), (b"?r=9&r=9", false), (b"?r", false), (b"?a=1&r=9", true), (b"?r=9&a=1&a=1", false), (b"?R=9", false), (b"?r=9&", true)][vs::choose(10) as usize];
    let (hd, hn): (&[u8], bool) = [(&b"x-r: 8\r\n"[..], true), (b"", false), (b"X-R: 8\r\n", true), (b"x-r: 8\r\nx-r: 8\r\n", false), (b"x-r: 8\r\nX-R: 8\r\n", false), (b"x-r:\r\n", false), (b"x-r: 8\r\nx-m: Marker\r\n", true), (b"x-r: 8\r\nx-m: other\r\n", false)][vs::choose(8) as usize];
    let mut qv = qt();
    let mut hv = ht();
    if contains(q, b"a=1") { qv.a = Some(1); }
    if contains(hd, b"Marker") { hv.m = Some(Marker); }
    let mut target = b"/t/p".to_vec();
    target.extend_from_slice(q);
    let (mut w, h, _) = setup::<String>();
    judge(&mut w, &h, &target, hd, if qn && hn { Some(Req { path: ("p".to_string(),), query: qv, header: hv, body: vec![] }) } else { None });
}

// ---- header names, unknown fields -------------------------------------------
/// Header names are matched whatever their case.
#[no_mangle]
pub extern "C" fn h_header_case() {
    let mut n = b"x-a: 5\r\nx-r: 8\r\nx-m: Marker\r\n".to_vec();
    for &i in &[0usize, 2, 8, 10, 16, 18] { if vs::boolean() { n[i] = n[i].to_ascii_uppercase(); } }
    let mut hv = ht();
    hv.a = Some(5);
    hv.m = Some(Marker);
    let (mut w, h, _) = setup::<String>();
    judge(&mut w, &h, b"/t/p?r=9", &n, Some(Req { path: ("p".to_string(),), query: qt(), header: hv, body: vec![] }));
}
/// Unknown query parameters do not matter, wherever they stand.
#[no_mangle]
pub extern "C" fn h_unknown_query() {
    let kn = vs::len(vs::bound(2, 2));
    let mut key = vec![];
    for _ in 0..kn { key.push(vs::u8()); }
    visible(&key, b"&=#%+");
    let n = vs::len(vs::bound(1, 2));
    let mut val = vec![];
    for _ in 0..n { val.push(vs::u8()); }
    visible(&val, b"&#%");
    for k in b"abcdefghirs" { vs::assume(key != [*k]); }
    let mut t = b"/t/p?".to_vec();
    let at = vs::choose(3);
    if at == 1 { t.extend_from_slice(b"r=9&"); }
    if at == 2 { t.extend_from_slice(b"s=q&"); }
    t.extend_from_slice(&key);
    if vs::boolean() { t.push(b'='); t.extend_from_slice(&val); }
    if at == 0 { t.extend_from_slice(b"&r=9"); }
    if at == 2 { t.extend_from_slice(b"&r=9&zz&=&a=3"); }
    let mut q = qt();
    if at == 2 { q.s = Some("q".to_string()); q.a = Some(3); }
    let (mut w, h, _) = setup::<String>();
    judge(&mut w, &h, &t, b"x-r: 8\r\n", Some(Req { path: ("p".to_string(),), query: q, header: ht(), body: vec![] }));
}
/// Unknown headers do not matter, wherever they stand, whatever bytes their value has.
#[no_mangle]
pub extern "C" fn h_unknown_header() {
    let kn = vs::len(2);
    let mut hs: Vec<u8> = vec![];
    let at = vs::choose(3);
    if at >= 1 { hs.extend_from_slice(b"x-r: 8\r\n"); }
    hs.extend_from_slice(b"x-z");
    for _ in 0..kn { let c = vs::u8(); vs::assume((c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || (c >= b'0' && c <= b'9') || c == b'-' || c == b'_'); hs.push(c); }
    hs.extend_from_slice(b": v");
    let n = vs::len(vs::bound(1, 2));
    for _ in 0..n { let c = vs::u8(); vs::assume(c >= 0x20 && c != 0x7f); hs.push(c); }
    hs.extend_from_slice(b"\r\n");
    if at == 0 { hs.extend_from_slice(b"x-r: 8\r\n"); }
    if at == 2 { hs.extend_from_slice(b"x-a: 3\r\naccept: */*\r\nx-zz:\r\n"); }
    let mut hv = ht();
    if at == 2 { hv.a = Some(3); }
    let (mut w, h, _) = setup::<String>();
    judge(&mut w, &h, b"/t/p?r=9", &hs, Some(Req { path: ("p".to_string(),), query: qt(), header: hv, body: vec![] }));
}

// ---- framing ------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
enum K { Get, Head, Echo, Missing, Method, Bad }
/// Several requests on one connection: responses in order, one per request, each framed exactly.
#[no_mangle]
pub extern "C" fn h_frame_seq() {
    let (mut w, h, l) = {
        let mut w = World::new();
        let h: Rec<Ty<String>, Res> = Rec { delay: 0, ..Rec::new(ok(b"echoed")) };
        let l = log();
        let mut b = w.builder();
        if b.register(h.clone(), proc::<RtT, Ty<String>, Res>()).is_err() { vs::fail(1); }
        if b.register(Tag(b'g', l.clone()), proc::<RtG, Bare, Res>()).is_err() { vs::fail(1); }
        if b.register(Tag(b'h', l.clone()), proc::<RtGh, Bare, Res>()).is_err() { vs::fail(1); }
        w.start(b);
        (w, h, l)
    };
    let n = vs::bound(3, 4);
    let mut gets = 0;
    let mut bodies = vec![];
    let c = w.raw();
    for i in 0..n {
        let k = [K::Get, K::Head, K::Echo, K::Missing, K::Method, K::Bad][vs::choose(6) as usize];
        let line: &[u8] = match k {
            K::Get => b"GET /g HTTP/1.1\r\n",
            K::Head => b"HEAD /g HTTP/1.1\r\n",
            K::Echo => b"POST /t/p?r=9 HTTP/1.1\r\nx-r: 8\r\n",
            K::Missing => b"GET /nope HTTP/1.1\r\n",
            K::Method => b"DELETE /g HTTP/1.1\r\n",
            K::Bad => b"POST /t/p?r=x HTTP/1.1\r\nx-r: 8\r\n",
        };
        let mut m = line.to_vec();
        let body: Vec<u8> = match (i + 1) % 3 { 0 => vec![], 1 => b"GET /g HTTP/1.1\r\n\r\n".to_vec(), _ => vec![vs::u8(), vs::u8()] };
        m.extend_from_slice(b"Content-Length: ");
        m.extend_from_slice(body.len().to_string().as_bytes());
        m.extend_from_slice(b"\r\n\r\n");
        m.extend_from_slice(&body);
        // the first request comes in two pieces
        let cut = if i == 0 { [0usize, 1, m.len() / 2, m.len() - body.len(), m.len() - 1][vs::choose(5) as usize] } else { 0 };
        let mut out = w.exchange(c, &m[..cut]);
        vs::check(out.is_empty(), 69);
        out.extend(w.exchange(c, &m[cut..]));
        vs::note(1, &m);
        vs::note(2, &out);
        if k == K::Echo { bodies.push(body); }
        if k == K::Get || k == K::Head { gets += 1; }
        let r = match parse_http(&out, k == K::Head) { Some(r) => r, None => { vs::fail(70); return; } };
        match k {
            K::Get => vs::check(r.status == 200 && r.body == b"g", 71),
            K::Head => vs::check(r.status == 200 && r.get("content-length") == Some(b"1"), 72),
            K::Echo => vs::check(r.status == 200 && r.body == b"echoed", 73),
            K::Missing => vs::check(is_problem(&r, 404), 74),
            K::Method => vs::check(is_problem(&r, 405), 75),
            K::Bad => vs::check(is_problem(&r, 400), 76),
        }
        vs::check(r.rest.is_empty(), 77);
        vs::check(h.count() == bodies.len() && l.lock().unwrap().len() == gets, 78);
    }
    for i in 0..bodies.len() { vs::check(h.get(i).body == bodies[i], 79); }
    vs::check(!net().raw_eof(c), 81);
    vs::cover(1);
}

// ---- order of parameters and headers, parts a request does not have ------------------
const PERM: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
/// The order of query parameters and headers does not matter.
#[no_mangle]
pub extern "C" fn h_order() {
    let (x, y) = (vs::u8(), vs::u8());
    vs::assume(x >= b'0' && x <= b'9' && y > 0x20 && y < 0x7f && y != b'&' && y != b'#' && y != b'%' && y != b'+');
    let (pq, ph) = (PERM[vs::choose(6) as usize], PERM[vs::choose(6) as usize]);
    let qs: [&[u8]; 3] = [&[b'a', b'=', x], b"r=9", &[b's', b'=', y]];
    let hs: [&[u8]; 3] = [&[b'x', b'-', b'h', b':', b' ', x, b'\r', b'\n'], b"x-r: 8\r\n", b"x-m: Marker\r\n"];
    let mut t = b"/t/p?".to_vec();
    let mut m: Vec<u8> = vec![];
    for i in 0..3 {
        if i > 0 { t.push(b'&'); }
        t.extend_from_slice(qs[pq[i]]);
        m.extend_from_slice(hs[ph[i]]);
    }
    let (mut q, mut hd) = (qt(), ht());
    q.a = Some(x - b'0');
    q.s = Some((y as char).to_string());
    hd.h = Some((x - b'0') as u32);
    hd.m = Some(Marker);
    let (mut w, h, _) = setup::<String>();
    judge(&mut w, &h, &t, &m, Some(Req { path: ("p".to_string(),), query: q, header: hd, body: vec![] }));
}
fn plain<Rt: Route, Rq: htrpc::RpcRequest + Clone + PartialEq>(target: &[u8], headers: &[u8], want: Rq) {
    let mut w = World::new();
    let h = Rec::new(ok(b"r"));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<Rt, Rq, Res>()).is_err() { vs::fail(110); return; }
    w.start(b);
    let mut m = b"PUT ".to_vec();
    m.extend_from_slice(target);
    m.extend_from_slice(b" HTTP/1.1\r\n");
    m.extend_from_slice(headers);
    m.extend_from_slice(b"\r\n");
    vs::note(0, &m);
    let c = w.raw();
    let out = w.exchange(c, &m);
    match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == b"r" && r.rest.is_empty(), 68), None => vs::fail(60) }
    vs::check(h.count() == 1 && h.get(0) == want, 63);
    vs::cover(1);
}
/// Parameters and headers for requests which declare none, or only other parts.
#[no_mangle]
pub extern "C" fn h_unknown_shapes() {
    use crate::shapes::{H2, Q2, Rt0, Rt2, S0, SH, SP, SPH, SPQ, SQ, SU};
    let body = vec![];
    let path = ("p".to_string(), 5u8);
    let query = Q2 { k: 1, o: None };
    let header = H2 { k: 2, o: Some("v".to_string()) };
    let qb = { let n = vs::len(vs::bound(1, 2)); vs::bytes(n) };
    visible(&qb, b"#%ko");
    let hv = { let n = vs::len(1); vs::bytes(n) };
    for &c in &hv { vs::assume(c > 0x20 && c != 0x7f); }
    let mut hd = b"x-q: ".to_vec();
    hd.extend_from_slice(&hv);
    hd.extend_from_slice(b"\r\naccept: */*\r\n");
    let k = vs::choose(8);
    let mut t: Vec<u8> = if k == 1 || k == 4 || k == 5 { b"/s/p/5?".to_vec() } else { b"/s/t?".to_vec() };
    t.extend_from_slice(&qb);
    if k == 2 || k == 4 { t.extend_from_slice(b"&k=1"); }
    if k == 3 || k == 5 { hd.extend_from_slice(b"X-O: v\r\nx-k: 2\r\n"); }
    match k {
        0 => plain::<Rt0, _>(&t, &hd, S0 { body }),
        1 => plain::<Rt2, _>(&t, &hd, SP { path, body }),
        2 => plain::<Rt0, _>(&t, &hd, SQ { query, body }),
        3 => plain::<Rt0, _>(&t, &hd, SH { header, body }),
        4 => plain::<Rt2, _>(&t, &hd, SPQ { path, query, body }),
        5 => plain::<Rt2, _>(&t, &hd, SPH { path, header, body }),
        6 => plain::<Rt0, _>(&t, &hd, Bare { body }),
        _ => { let _ = SU { path: (), query: (), header: (), body: vec![] }; plain::<Rt0, _>(&t, &hd, Req { path: (), query: Nil {}, header: Nil {}, body }) }
    }
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct HStr { #[serde(rename = "x-s")] pub s: Option<String>, #[serde(rename = "x-b")] pub b: Option<Raw> }
/// Texts in headers are UTF-8 or refused; raw bytes are taken as they are.
#[no_mangle]
pub extern "C" fn h_bad_header_utf8() {
    let n = vs::choose(3) as usize + 1;
    let mut v = vec![];
    for _ in 0..n { let b = vs::u8(); vs::assume(b >= 0x80); v.push(b); }
    let raw = vs::boolean();
    let mut m = b"GET /q HTTP/1.1\r\n".to_vec();
    m.extend_from_slice(if raw { b"x-b: " } else { b"x-s: " });
    m.extend_from_slice(&v);
    m.extend_from_slice(b"\r\n\r\n");
    let mut w = World::new();
    let h: Rec<Req<(), Nil, HStr>, Res> = Rec::new(ok(b"r"));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<RtQ, Req<(), Nil, HStr>, Res>()).is_err() { vs::fail(110); return; }
    w.start(b);
    let c = w.raw();
    let out = w.exchange(c, &m);
    let want = if raw { Some(HStr { s: None, b: Some(Raw(v)) }) } else { String::from_utf8(v).ok().map(|s| HStr { s: Some(s), b: None }) };
    match (parse_http(&out, false), want) {
        (Some(r), Some(hd)) => { vs::cover(1); vs::check(r.status == 200 && h.count() == 1 && h.get(0).header == hd, 63) }
        (Some(r), None) => { vs::cover(2); vs::check(is_problem(&r, 400) && h.count() == 0, 64) }
        _ => vs::fail(60),
    }
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct QUnit { r: u8, u: Option<()>, v: Option<Marker> }
/// Values without content: a marker must be spelled exactly, an empty value must be empty.
#[no_mangle]
pub extern "C" fn h_bad_unit() {
    let n = vs::len(vs::bound(2, 3));
    let mut tail = vec![];
    for _ in 0..n { tail.push(vs::u8()); }
    visible(&tail, b"&#%");
    if vs::boolean() {
        let mut t = b"Marker"[..vs::len(6) as usize].to_vec();
        t.extend_from_slice(&tail);
        let mut hs = b"x-r: 8\r\nx-m: ".to_vec();
        hs.extend_from_slice(&t);
        hs.extend_from_slice(b"\r\n");
        let mut hv = ht();
        hv.m = Some(Marker);
        let (mut w, h, _) = setup::<String>();
        judge(&mut w, &h, b"/t/p?r=9", &hs, if t == b"Marker" { Some(Req { path: ("p".to_string(),), query: qt(), header: hv, body: vec![] }) } else { None });
    } else {
        let mut w = World::new();
        let h: Rec<Req<(String,), QUnit, Nil>, Res> = Rec::new(ok(b"t"));
        let mut b = w.builder();
        if b.register(h.clone(), proc::<RtT, Req<(String,), QUnit, Nil>, Res>()).is_err() { vs::fail(1); return; }
        w.start(b);
        let which = vs::boolean();
        let mut m = if which { b"POST /t/p?u=".to_vec() } else { b"POST /t/p?v=".to_vec() };
        m.extend_from_slice(&tail);
        m.extend_from_slice(b"&r=3 HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
        let c = w.raw();
        let out = w.exchange(c, &m);
        match parse_http(&out, false) {
            Some(r) => if tail.is_empty() {
                vs::cover(1);
                let q = QUnit { r: 3, u: if which { Some(()) } else { None }, v: if which { None } else { Some(Marker) } };
                vs::check(r.status == 200 && h.count() == 1 && h.get(0).query == q, 75);
            } else { vs::cover(2); vs::check(is_problem(&r, 400) && h.count() == 0, 76); },
            None => vs::fail(77),
        }
    }
}

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct HUn { pub x_a: Option<u8>, #[serde(rename = "x.b")] pub b: Option<u8>, #[serde(rename = "X-c_d")] pub c: Option<u8>, #[serde(rename = "e")] pub e: Option<u8>, #[serde(rename = "")] pub z: Option<u8> }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct QUn { pub x_a: Option<u8>, #[serde(rename = "x.b")] pub b: Option<u8>, #[serde(rename = "X-c d")] pub c: Option<u8>, #[serde(rename = "")] pub z: Option<u8>, #[serde(rename = "\u{e9}")] pub e: Option<u8> }
/// A field is taken only from its own name: one character of the name is arbitrary.
#[no_mangle]
pub extern "C" fn h_unknown_near() {
    let x = vs::u8();
    let k = vs::choose(3) as usize;
    let at = vs::choose(5) as usize;
    let body = vec![];
    if vs::boolean() {
        let known: &[u8] = [&b"x_a"[..], b"x.b", b"X-c_d"][k];
        vs::assume(at < known.len());
        // characters of header names
        vs::assume((x >= b'a' && x <= b'z') || (x >= b'A' && x <= b'Z') || (x >= b'0' && x <= b'9') || x == b'-' || x == b'_' || x == b'.' || x == b'!' || x == b'~' || x == b'*' || x == b'\'' || x == b'^' || x == b'`' || x == b'|' || x == b'#' || x == b'$' || x == b'%' || x == b'&' || x == b'+');
        let mut n = known.to_vec();
        n[at] = x;
        let same = x.to_ascii_lowercase() == known[at].to_ascii_lowercase();
        n.extend_from_slice(b": 5\r\n");
        let mut h = HUn { x_a: None, b: None, c: None, e: Some(6), z: None };
        if same { vs::cover(2); match k { 0 => h.x_a = Some(5), 1 => h.b = Some(5), _ => h.c = Some(5) } }
        n.extend_from_slice(b"E: 6\r\n");
        plain::<crate::shapes::Rt0, _>(b"/s/t", &n, Req { path: (), query: Nil {}, header: h, body });
    } else {
        let known: &[u8] = [&b"x_a"[..], b"x.b", b"X-c d"][k];
        vs::assume(at < known.len());
        vs::assume(x > 0x20 && x < 0x7f && x != b'&' && x != b'#' && x != b'%' && x != b'=');
        let mut t = b"/s/t?".to_vec();
        for (i, &c) in known.iter().enumerate() { t.push(if i == at { x } else if c == b' ' { b'+' } else { c }); }
        t.extend_from_slice(b"=5&%C3%A9=6&%E9=7");
        let mut q = QUn { x_a: None, b: None, c: None, z: None, e: Some(6) };
        let y = if x == b'+' { b' ' } else { x };
        if y == known[at] { vs::cover(2); match k { 0 => q.x_a = Some(5), 1 => q.b = Some(5), _ => q.c = Some(5) } }
        plain::<crate::shapes::Rt0, _>(&t, b"", Req { path: (), query: q, header: Nil {}, body });
    }
}
