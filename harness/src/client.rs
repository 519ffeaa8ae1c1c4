//! The client against arbitrary bytes from a server, and what it puts on the wire.
use crate::args::*;
use crate::env::net;
use crate::route;
use crate::shapes::*;
use crate::vs;
use crate::wire::int;
use crate::world::*;
use fibers::{Executor, Spawn};
use futures::Future;
use htrpc::*;

route!(RtC, Get, Val("c"));
route!(RtCh, Head, Val("c"));
#[derive(Clone, Copy, PartialEq)]
pub enum End { Open, Close, Reset }
/// The real client calls a scripted server which answers with `parts` (pausing between
/// them) and then does `end`. Returns the outcome of the call (None = still pending).
pub fn against<Rt: Route, Rs: RpcResponse + Send + 'static>(parts: &[&[u8]], end: End) -> Option<std::result::Result<Rs, ()>> {
    let mut w = World::new();
    let l = net().raw_listen(PORT);
    let mut c = RpcClient::new(addr(PORT));
    let f = c.call::<Proc<Rt, Bare, Rs>>(Bare { body: vec![] });
    let mut m = w.ex.handle().spawn_monitor(f);
    w.quiesce();
    let c = match net().raw_accept(l) { Some(c) => c, None => { vs::fail(170); return None; } };
    let q = net().raw_take(c);
    vs::check(contains(&q, b" /c HTTP/1.1\r\n"), 171);
    for p in parts {
        vs::note(0, p);
        net().raw_send(c, p);
        w.quiesce();
    }
    match end { End::Open => {}, End::Close => net().raw_close(c), End::Reset => net().raw_reset(c) }
    let r = w.wait(&mut m);
    if r.is_some() {
        w.quiesce();
        vs::check(net().live_streams == 0, 172); // nothing is left behind
    } else { vs::check(end == End::Open, 173); }
    r.map(|r| r.map_err(|_| ()))
}
/// Any three characters as the status.
#[no_mangle]
pub extern "C" fn h_cli_status() {
    let b = vs::bytes(3);
    let r = against::<RtC, Unit>(&[b"HTTP/1.1 ", &b, b" X\r\nContent-Length: 1\r\n\r\nb"], End::Close);
    let want = num(&b).and_then(|n| CODES.iter().position(|&c| c as u64 == n));
    match (r, want) {
        (Some(Ok(u)), Some(i)) => { vs::cover(1); vs::check(u == unit(i as u64), 174); }
        (Some(Err(())), None) => vs::cover(2),
        _ => vs::fail(175),
    }
}
fn sym(n: u64) -> Vec<u8> { let n = vs::len(n); vs::bytes(n) }
/// Arbitrary bytes at any place of the response.
#[no_mangle]
pub extern "C" fn h_cli_bytes() {
    let b = sym(vs::bound(2, 3));
    let (pre, post): (&[u8], &[u8]) = [
        (&b""[..], &b""[..]),
        (b"", b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nb"),
        (b"HTTP/1.", b" 200 OK\r\nContent-Length: 1\r\n\r\nb"),
        (b"HTTP/1.1 200 ", b"\r\nContent-Length: 1\r\n\r\nb"),
        (b"HTTP/1.1 200", b"\r\nContent-Length: 1\r\n\r\nb"),
        (b"HTTP/1.1 200 OK\r\n", b"\r\nContent-Length: 1\r\n\r\nb"),
        (b"HTTP/1.1 200 OK\r\nx-r", b"v\r\nContent-Length: 1\r\n\r\nb"),
        (b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\nx-r: ", b"\r\n\r\nb"),
        (b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n", b"b"),
        (b"HTTP/1.1 200 OK\r\nTransfer-Encoding:", b"\r\n\r\n1\r\nb\r\n0\r\n\r\n"),
        (b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", b"\r\nb\r\n0\r\n\r\n"),
        (b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\nb", b""),
    ][vs::choose(12) as usize];
    match against::<RtC, Res>(&[pre, &b, post], End::Close) {
        Some(Ok(Res::Ok { .. })) => vs::cover(1),
        Some(Ok(_)) => vs::fail(176),
        Some(Err(())) => vs::cover(2),
        None => vs::fail(177),
    }
}
/// Content-Length is obeyed to the byte.
#[no_mangle]
pub extern "C" fn h_cli_clen() {
    let b = sym(vs::bound(3, 4));
    let head = vs::boolean();
    let m: [&[u8]; 3] = [b"HTTP/1.1 200 OK\r\nContent-Length:", &b, b"\r\n\r\nabcdef"];
    for &c in &b { vs::assume(c != b'\r' && c != b'\n' && c != b'+' && c != b'\t'); } // (one header; "+5", tabs: the HTTP library's leniency)
    let mut t = &b[..];
    while !t.is_empty() && t[0] == b' ' { t = &t[1..]; }
    while !t.is_empty() && t[t.len() - 1] == b' ' { t = &t[..t.len() - 1]; }
    let n = num(t);
    let r = if head { against::<RtCh, Res>(&m, End::Close) } else { against::<RtC, Res>(&m, End::Close) };
    match r {
        Some(Ok(Res::Ok { body, .. })) => {
            vs::cover(1);
            if head { vs::check(body.is_empty(), 178) } else {
                match n { Some(n) => vs::check(n <= 6 && body == b"abcdef"[..n as usize], 179), None => vs::fail(180) }
            }
        }
        Some(Ok(_)) => vs::fail(181),
        Some(Err(())) => { vs::cover(2); if !head { vs::check(n.map_or(true, |n| n > 6), 182) } }
        None => vs::fail(183),
    }
}
/// The response stops at any byte; nothing but the complete response is delivered.
#[no_mangle]
pub extern "C" fn h_cli_cut() {
    let kind = vs::choose(5);
    let (head, body): (&[u8], &[u8]) = [
        (&b"HTTP/1.1 201 Created\r\nx-r: val\r\nContent-Length: 8\r\n\r\n"[..], &b"01234567"[..]),
        (b"HTTP/1.1 201 Created\r\nx-r: val\r\nContent-Length: 0\r\n\r\n", b""),
        (b"HTTP/1.1 201 Created\r\nx-r: val\r\n\r\n", b"0123"),
        (b"HTTP/1.1 201 Created\r\nx-r: val\r\nContent-Length: 8\r\n\r\n", b""),
        (b"HTTP/1.1 201 Created\r\nx-r: val\r\nTransfer-Encoding: chunked\r\n\r\n", b"3\r\nabc\r\n0\r\n\r\n"),
    ][kind as usize];
    let mut m = head.to_vec();
    m.extend_from_slice(body);
    let n = vs::len(m.len() as u64);
    let end = [End::Open, End::Close, End::Reset][vs::choose(3) as usize];
    let at = [0usize, 1, n / 2][vs::choose(3) as usize].min(n);
    let parts: [&[u8]; 2] = [&m[..at], &m[at..n]];
    let r = if kind == 3 { against::<RtCh, Res>(&parts, end) } else { against::<RtC, Res>(&parts, end) };
    let full = n >= head.len() && (n == m.len() || kind == 2);
    let want = Res::Created { header: ResHeader { r: Some("val".to_string()) }, body: if kind == 3 || n < head.len() { vec![] } else { m[head.len()..n].to_vec() } };
    match r {
        Some(Ok(r)) => {
            vs::cover(1);
            if kind == 4 { return; } // (chunked bodies are the HTTP library's business)
            vs::check(full && (kind != 2 || end == End::Close), 184);
            vs::check(r == want, 185);
        }
        Some(Err(())) => { vs::cover(2); vs::check(end != End::Open && (!full || kind == 2 && end == End::Reset || kind == 4), 186); }
        None => { vs::cover(3); vs::check(!full || kind == 2 || kind == 4, 187); }
    }
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct RH { #[serde(rename = "x-n")] pub n: u8, #[serde(rename = "x-i")] pub i: Option<i8>, #[serde(rename = "x-b")] pub b: Option<bool>, #[serde(rename = "x-s")] pub s: Option<String>, #[serde(rename = "x-m")] pub m: Option<Marker> }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct TR { pub status: u16, pub header: RH, #[serde(skip)] pub body: Vec<u8> }
impl RpcResponse for TR {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> { Box::new(self.body.clone()) }
    fn set_body(&mut self, b: Vec<u8>) { self.body = b; }
}
/// Typed response headers: the right value, or an error.
#[no_mangle]
pub extern "C" fn h_cli_header() {
    let k = vs::choose(4);
    let t = vs::bytes(vs::choose(4) as usize);
    for &c in &t { vs::assume(c > 0x20 && c < 0x7f); }
    let mut h = RH { n: 7, i: None, b: None, s: None, m: None };
    let good = match k {
        0 => { let v = int(&t, 0, 255); h.n = v.unwrap_or(0) as u8; v.is_some() }
        1 => { let v = int(&t, -128, 127); h.i = v.map(|v| v as i8); v.is_some() }
        2 => { h.b = if t == b"true" { Some(true) } else { None }; h.b.is_some() }
        _ => { h.s = String::from_utf8(t.clone()).ok(); true }
    };
    let names: [&[u8]; 4] = [b"x-N: ", b"X-I: ", b"x-b: ", b"X-s: "];
    let mut m = b"HTTP/1.1 202 Accepted\r\nContent-Length: 2\r\nx-other: 1\r\n".to_vec();
    if k != 0 { m.extend_from_slice(b"X-N:7\r\n"); }
    m.extend_from_slice(names[k as usize]);
    m.extend_from_slice(&t);
    m.extend_from_slice(b"\r\n\r\nzz");
    match (against::<RtC, TR>(&[&m], End::Open), good) {
        (Some(Ok(r)), true) => { vs::cover(1); vs::check(r == TR { status: 202, header: h, body: b"zz".to_vec() }, 188); }
        (Some(Err(())), false) => vs::cover(2),
        _ => vs::fail(189),
    }
}
/// A response the procedure does not declare is an error.
#[no_mangle]
pub extern "C" fn h_cli_undeclared() {
    let i = vs::choose(CODES.len() as u64) as usize;
    let code = CODES[i].to_string();
    let r = against::<RtC, Res>(&[b"HTTP/1.1 ", code.as_bytes(), b" X\r\nContent-Length: 2\r\n\r\nab"], End::Open);
    let none = ResHeader { r: None };
    let want = match CODES[i] {
        200 => Some(Res::Ok { header: none, body: b"ab".to_vec() }),
        201 => Some(Res::Created { header: none, body: b"ab".to_vec() }),
        404 => Some(Res::NotFound), 400 => Some(Res::BadRequest), 405 => Some(Res::MethodNotAllowed), _ => None,
    };
    match (r, want) {
        (Some(Ok(r)), Some(v)) => { vs::cover(1); vs::check(r == v, 190) }
        (Some(Err(())), None) => vs::cover(2),
        _ => vs::fail(191),
    }
}

// ---- what the client writes ------------------------------------------------------
/// An HTTP request read by an independent parser.
pub struct HReq { pub method: Vec<u8>, pub target: Vec<u8>, pub headers: Vec<(Vec<u8>, Vec<u8>)>, pub rest: Vec<u8> }
pub fn parse_req(b: &[u8]) -> Option<HReq> {
    let find = |from: usize| { let mut i = from; while i + 1 < b.len() { if b[i] == b'\r' && b[i + 1] == b'\n' { return Some(i); } i += 1; } None };
    let e = find(0)?;
    let mut w = b[..e].split(|&c| c == b' ');
    let (m, t, v) = (w.next()?, w.next()?, w.next()?);
    if w.next().is_some() || v != b"HTTP/1.1" || m.is_empty() || t.is_empty() || t[0] != b'/' { return None; }
    if t.iter().any(|&c| c <= 0x20 || c >= 0x7f) { return None; }
    let mut r = HReq { method: m.to_vec(), target: t.to_vec(), headers: vec![], rest: vec![] };
    let mut at = e + 2;
    loop {
        let e = find(at)?;
        if e == at { at += 2; break; }
        let l = &b[at..e];
        let c = l.iter().position(|&c| c == b':')?;
        if c == 0 || l[..c].iter().any(|&c| !(c.is_ascii_alphanumeric() || c == b'-')) { return None; }
        let v = if l.len() > c + 1 && l[c + 1] == b' ' { &l[c + 2..] } else { &l[c + 1..] };
        if v.iter().any(|&c| (c < 0x20 && c != b'\t') || c == 0x7f) { return None; }
        r.headers.push((l[..c].to_ascii_lowercase(), v.to_vec()));
        at = e + 2;
    }
    r.rest = b[at..].to_vec();
    Some(r)
}
fn unescape(s: &[u8], plus: bool) -> Option<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' {
            if i + 2 >= s.len() + 0 && i + 2 > s.len() - 1 { return None; }
            let h = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
            v.push(h(s[i + 1])? << 4 | h(s[i + 2])?);
            i += 3;
        } else { v.push(if plus && s[i] == b'+' { b' ' } else { s[i] }); i += 1; }
    }
    Some(v)
}
type WR = Req<(String, u8), QStr, HStr>;
route!(RtW, Post, Val("w x"), Var, Val("y"), Var);
/// The request on the wire means what the caller said, for any decoder; unrepresentable ones are never sent.
#[no_mangle]
pub extern "C" fn h_cli_wire() {
    let part = vs::choose(4);
    let n = vs::bound(2, 3);
    let sym = |p: u64, d: &str| if part == p { vs::string(n) } else { d.to_string() };
    let p = sym(0, "p");
    let q = sym(1, "q");
    let h = sym(2, "h");
    let body = if part == 3 { let k = vs::len(3); vs::bytes(k) } else { b"B".to_vec() };
    vs::note(1, p.as_bytes()); vs::note(2, q.as_bytes()); vs::note(3, h.as_bytes());
    let bad = p == "." || p == ".." || p.bytes().any(|b| b == b'\t' || b == b'\n' || b == b'\r') || bad_value(h.as_bytes());
    let mut w = World::new();
    let l = net().raw_listen(PORT);
    let mut c = RpcClient::new(addr(PORT));
    let f = c.call::<Proc<RtW, WR, Res>>(Req { path: (p.clone(), 200), query: QStr { s: q.clone() }, header: HStr { s: h.clone() }, body: body.clone() });
    let mut m = w.ex.handle().spawn_monitor(f);
    w.quiesce();
    let c = match net().raw_accept(l) { Some(c) => c, None => { vs::check(bad, 192); return; } };
    let out = net().raw_take(c);
    vs::note(4, &out);
    if bad {
        vs::cover(2);
        vs::check(out.is_empty(), 193);
        match m.poll() { Err(_) => {}, _ => vs::fail(194) }
        return;
    }
    vs::cover(1);
    let r = match parse_req(&out) { Some(r) => r, None => { vs::fail(195); return; } };
    vs::check(r.method == b"POST" && r.rest == body, 196);
    let mut tq = r.target.splitn(2, |&c| c == b'?');
    let (t, qs) = (tq.next().unwrap_or(b""), tq.next().unwrap_or(b""));
    let segs: Vec<Vec<u8>> = t[1..].split(|&c| c == b'/').map(|s| unescape(s, false).unwrap_or(b"!".to_vec())).collect();
    vs::check(segs.len() == 4 && segs[0] == b"w x" && segs[1] == p.as_bytes() && segs[2] == b"y" && segs[3] == b"200", 197);
    vs::check(!qs.iter().any(|&c| c == b'&' || c == b'#') && qs.len() >= 2 && &qs[..2] == b"s=" && unescape(&qs[2..], true) == Some(q.into_bytes()), 198);
    let mut cl = 0;
    let mut xs = 0;
    for (k, v) in &r.headers {
        if k == b"content-length" { cl += 1; vs::check(num(v) == Some(body.len() as u64), 199); }
        else if k == b"x-s" { xs += 1; vs::check(v == h.as_bytes(), 200); }
        else { vs::check(k == b"host" || k == b"user-agent" || k == b"connection" || k == b"accept", 201); }
    }
    vs::check(cl == 1 && xs == 1, 202);
}
/// The response on the wire: exactly the handler's status, header and body.
#[no_mangle]
pub extern "C" fn h_srv_wire() {
    let part = vs::choose(2);
    let s = if part == 0 { vs::string(vs::bound(3, 4)) } else { "v".to_string() };
    let body = if part == 1 { let k = vs::len(3); vs::bytes(k) } else { b"body".to_vec() };
    vs::note(1, s.as_bytes());
    let bad = bad_value(s.as_bytes());
    let mut w = World::new();
    let hd: Rec<Bare, Res> = Rec::new(Res::Created { header: ResHeader { r: Some(s.clone()) }, body: body.clone() });
    let mut b = w.builder();
    if b.register(hd.clone(), proc::<RtC, Bare, Res>()).is_err() { vs::fail(203); return; }
    w.start(b);
    let c = w.raw();
    let out = w.exchange(c, b"GET /c HTTP/1.1\r\n\r\n");
    vs::note(2, &out);
    if bad {
        vs::cover(2);
        vs::check(out.is_empty() || parse_http(&out, false).map_or(false, |r| r.status >= 500 && r.rest.is_empty()), 204);
        return;
    }
    vs::cover(1);
    match parse_http(&out, false) {
        None => vs::fail(205),
        Some(r) => {
            vs::check(r.status == 201 && r.body == body && r.rest.is_empty(), 206);
            vs::check(r.count("x-r") == 1 && r.get("x-r") == Some(s.as_bytes()), 207);
            for h in &r.headers { vs::check(h.0 == b"x-r" || h.0 == b"content-length" || h.0 == b"connection" || h.0 == b"date" || h.0 == b"server", 208); }
        }
    }
}

/// Unknown response headers do not matter.
#[no_mangle]
pub extern "C" fn h_unknown_response() {
    let kn = vs::len(2);
    let mut h = b"x-z".to_vec();
    for _ in 0..kn { let c = vs::u8(); vs::assume(c.is_ascii_alphanumeric() || c == b'-' || c == b'_'); h.push(c); }
    h.extend_from_slice(b": v");
    let n = vs::len(vs::bound(1, 2));
    for _ in 0..n { let c = vs::u8(); vs::assume(c >= 0x20 && c != 0x7f); h.push(c); }
    h.extend_from_slice(b"\r\n");
    let fields: [&[u8]; 4] = [b"Content-Length: 2\r\n", b"X-N: 9\r\n", b"x-s: t u\r\n", b"Server: s\r\nx-zz:\r\n"];
    let at = vs::choose(5) as usize;
    let mut m = b"HTTP/1.1 200 OK\r\n".to_vec();
    for (i, f) in fields.iter().enumerate() { if at == i { m.extend_from_slice(&h); } m.extend_from_slice(f); }
    if at == 4 { m.extend_from_slice(&h); }
    m.extend_from_slice(b"\r\nzz");
    match against::<RtC, TR>(&[&m], End::Open) {
        Some(Ok(r)) => { vs::cover(1); vs::check(r == TR { status: 200, header: RH { n: 9, i: None, b: None, s: Some("t u".to_string()), m: None }, body: b"zz".to_vec() }, 209); }
        _ => vs::fail(210),
    }
}

route!(RtCp, Post, Val("c"));
route!(RtCu, Put, Val("c"));
route!(RtCd, Delete, Val("c"));
route!(RtCo, Options, Val("c"));
route!(RtCt, Trace, Val("c"));
route!(RtCa, Patch, Val("c"));
route!(RtCc, Connect, Val("c"));
/// Complete responses of every status to requests of every method: the result is what was sent,
/// and it is there as soon as the last byte is.
#[no_mangle]
pub extern "C" fn h_cli_full() {
    let x = vs::u8();
    let n = [0usize, 1, 2, 20, 300, 5000][vs::choose(6) as usize];
    let mut body: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
    if n > 0 { body[n / 2] = x; }
    let all = vs::boolean();
    let k = if all { vs::choose(2) } else { vs::choose(9) };
    let i = if all { vs::choose(CODES.len() as u64) } else { let c = [200u16, 201, 204, 205, 304, 404, 500][vs::choose(7) as usize]; match CODES.iter().position(|&d| c == d) { Some(i) => i as u64, None => { vs::fail(1); return; } } };
    vs::assume(!all || n < 20);
    let mut m = b"HTTP/1.1 ".to_vec();
    m.extend_from_slice(CODES[i as usize].to_string().as_bytes());
    let reason: &[u8] = [&b" X\r\n"[..], b" Not Quite OK\r\n"][vs::choose(2) as usize];
    m.extend_from_slice(reason);
    m.extend_from_slice(b"x-r: v\r\ncontent-length: ");
    m.extend_from_slice(n.to_string().as_bytes());
    m.extend_from_slice(b"\r\n\r\n");
    let head = k == 1;
    let want = full(i, ResHeader { r: Some("v".to_string()) }, if head { vec![] } else { body.clone() });
    let parts: [&[u8]; 2] = [&m, if head { b"" } else { &body }];
    let end = if vs::boolean() { End::Open } else { End::Close };
    let r = match k {
        0 => against::<RtC, Full>(&parts, end),
        1 => against::<RtCh, Full>(&parts, end),
        2 => against::<RtCp, Full>(&parts, end),
        3 => against::<RtCu, Full>(&parts, end),
        4 => against::<RtCd, Full>(&parts, end),
        5 => against::<RtCo, Full>(&parts, end),
        6 => against::<RtCt, Full>(&parts, end),
        7 => against::<RtCa, Full>(&parts, end),
        _ => against::<RtCc, Full>(&parts, end),
    };
    match r { Some(Ok(r)) => { vs::cover(1); vs::check(r == want, 195); } _ => vs::fail(196) }
}
