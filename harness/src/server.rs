//! The server against arbitrary bytes from the network.
use crate::args::*;
use crate::route;
use crate::vs;
use crate::world::*;
use crate::env::net;

route!(RtRoot, Get,);
route!(RtNum, Post, Val("n"), Var);
route!(RtEcho, Get, Val("q"));

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct QN { pub k: u8 }
pub type NumReq = Req<(u8,), QN, HStr>;
pub struct Srv { pub w: World, pub log: Log, pub num: Rec<NumReq, Res> }
pub fn server() -> Srv {
    let mut w = World::new();
    let log = log();
    let num = Rec::new(ok(b"num"));
    let mut b = w.builder();
    if b.register(Tag(b'r', log.clone()), proc::<RtRoot, Bare, Res>()).is_err() { vs::fail(1); }
    if b.register(Tag(b'q', log.clone()), proc::<RtEcho, Bare, Res>()).is_err() { vs::fail(1); }
    if b.register(num.clone(), proc::<RtNum, NumReq, Res>()).is_err() { vs::fail(1); }
    w.start(b);
    Srv { w, log, num }
}
/// A new connection is accepted and served correctly.
pub fn still_serving(s: &mut Srv) {
    let before = s.log.lock().unwrap().len();
    let c = s.w.raw();
    let out = s.w.exchange(c, b"GET /q HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
    match parse_http(&out, false) {
        Some(h) => vs::check(h.status == 200 && h.body == b"q" && h.rest.is_empty(), 40),
        None => vs::fail(41),
    }
    vs::check(s.log.lock().unwrap().len() == before + 1, 42);
    net().raw_close(c);
    s.w.quiesce();
    vs::check(net().live_streams == 0, 43);
}
/// Everything the server wrote is a sequence of complete HTTP responses.
fn responses(mut out: Vec<u8>, head: bool) -> Vec<Http> {
    let mut v = vec![];
    let mut first = true;
    while !out.is_empty() {
        match parse_http(&out, head && first) {
            Some(mut h) => { out = std::mem::replace(&mut h.rest, vec![]); v.push(h); }
            None => { vs::fail(44); return v; }
        }
        first = false;
    }
    v
}
fn poke(parts: &[&[u8]]) {
    let mut s = server();
    let mut m = vec![];
    for p in parts { m.extend_from_slice(p); }
    vs::note(0, &m);
    let c = s.w.raw();
    let out = s.w.exchange(c, &m);
    let rs = responses(out, m.len() > 5 && &m[..5] == b"HEAD ");
    for r in &rs {
        let known = r.status == 200 || is_problem(r, 400) || is_problem(r, 404) || is_problem(r, 405);
        vs::check(known || (m.len() > 5 && &m[..5] == b"HEAD "), 45);
        vs::cover(r.status as u32);
    }
    let inv = s.log.lock().unwrap().len() + s.num.count();
    vs::check(inv == rs.iter().filter(|r| r.status == 200).count(), 46);
    net().raw_close(c);
    s.w.quiesce();
    vs::check(net().live_streams == 0, 47);
    still_serving(&mut s);
    vs::cover(1);
}
fn sym(n: u64) -> Vec<u8> { let n = vs::len(n); vs::bytes(n) }
#[no_mangle]
pub extern "C" fn h_rob_start() { let b = sym(vs::bound(3, 4)); poke(&[&b]); }
#[no_mangle]
pub extern "C" fn h_rob_method() { let b = sym(vs::bound(3, 4)); poke(&[&b, b" / HTTP/1.1\r\n\r\n"]); }
#[no_mangle]
pub extern "C" fn h_rob_target() { let b = sym(vs::bound(2, 3)); poke(&[b"GET ", &b, b" HTTP/1.1\r\n\r\n"]); }
/// Absolute and odd request targets.
#[no_mangle]
pub extern "C" fn h_rob_target2() {
    let b = sym(vs::bound(1, 2));
    let pre: &[u8] = [&b"/q?"[..], b"/q/", b"/n/%", b"http://h", b"http:", b"//", b"/q#", b"data:", b"/%", b"http://[", b"*", b"/\xc3"][vs::choose(12) as usize];
    poke(&[b"GET ", pre, &b, b" HTTP/1.1\r\n\r\n"]);
}
#[no_mangle]
pub extern "C" fn h_rob_version() { let b = sym(vs::bound(3, 4)); poke(&[b"GET /q HTTP/", &b, b"\r\n\r\n"]); }
#[no_mangle]
pub extern "C" fn h_rob_header() { let b = sym(vs::bound(3, 4)); poke(&[b"GET /q HTTP/1.1\r\n", &b, b"\r\n\r\n"]); }
#[no_mangle]
pub extern "C" fn h_rob_value() { let b = sym(vs::bound(3, 4)); poke(&[b"POST /n/1?k=2 HTTP/1.1\r\nx-s: ", &b, b"\r\n\r\n"]); }
#[no_mangle]
pub extern "C" fn h_rob_clen() { let b = sym(vs::bound(3, 4)); poke(&[b"GET /q HTTP/1.1\r\nContent-Length:", &b, b"\r\n\r\nabc"]); }
#[no_mangle]
pub extern "C" fn h_rob_te() {
    let b = sym(vs::bound(2, 3));
    let v: &[u8] = [&b"chunked"[..], b"gzip, chunked", b"identity", b""][vs::choose(4) as usize];
    poke(&[b"GET /q HTTP/1.1\r\nTransfer-Encoding:", v, &b, b"\r\n\r\n0\r\n\r\n"]);
}
#[no_mangle]
pub extern "C" fn h_rob_chunk() {
    let b = sym(vs::bound(3, 4));
    let post: &[u8] = [&b""[..], b"\r\n\r\n", b"0\r\n\r\n", b"\r\nxyz\r\n0\r\n\r\n"][vs::choose(4) as usize];
    poke(&[b"GET /q HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", &b, post]);
}
/// Numbers of headers and sizes around the limits of the connection buffers.
#[no_mangle]
pub extern "C" fn h_rob_size() {
    let mut m = vec![];
    match vs::choose(3) {
        0 => {
            let n = [0u64, 1, 30, 31, 32, 33, 34, 64][vs::choose(8) as usize];
            m.extend_from_slice(b"GET /q HTTP/1.1\r\n");
            for i in 0..n { m.extend_from_slice(b"h"); m.extend_from_slice(i.to_string().as_bytes()); m.extend_from_slice(b": v\r\n"); }
            m.extend_from_slice(b"\r\n");
        }
        1 => {
            let n = [900usize, 1000, 1023, 1024, 1025, 2048, 8000, 8095, 8096, 8097, 9000][vs::choose(11) as usize];
            m.extend_from_slice(b"GET /q?");
            m.extend(std::iter::repeat(b'z').take(n));
            m.extend_from_slice(b" HTTP/1.1\r\n\r\n");
        }
        _ => {
            let n = [1000usize, 1024, 4000, 8096, 9000, 20000][vs::choose(6) as usize];
            m.extend_from_slice(b"GET /q HTTP/1.1\r\nContent-Length: ");
            m.extend_from_slice(n.to_string().as_bytes());
            m.extend_from_slice(b"\r\n\r\n");
            m.extend(std::iter::repeat(b'z').take(n));
        }
    }
    poke(&[&m]);
}
/// Long targets and values of non-ASCII text, with one arbitrary byte at the end.
#[no_mangle]
pub extern "C" fn h_rob_long() {
    let n = [10usize, 64, 100, 128, 256, 500, 512, 1000, 1024, 2000, 2048, 4096][vs::choose(12) as usize];
    let fill: &[u8] = ["\u{e9}", "\u{20ac}", "\u{1f600}", "%e9", "z"][vs::choose(5) as usize].as_bytes();
    let mut m: Vec<u8> = vec![b'a'; vs::choose(2) as usize];
    while m.len() < n + 8 { m.extend_from_slice(fill); }
    m.push(vs::u8());
    let (pre, post): (&[u8], &[u8]) = [(&b"GET /q?"[..], &b" HTTP/1.1\r\n\r\n"[..]), (b"GET /", b" HTTP/1.1\r\n\r\n"), (b"POST /n/", b"?k=1 HTTP/1.1\r\nx-s: v\r\n\r\n"), (b"POST /n/7?k=1 HTTP/1.1\r\nx-s: ", b"\r\n\r\n"), (b"GET /q HTTP/1.1\r\n", b": v\r\n\r\n")][vs::choose(5) as usize];
    poke(&[pre, &m, post]);
}
/// The peer disappears at any point of an exchange.
#[no_mangle]
pub extern "C" fn h_rob_cut() {
    let mut s = server();
    let kind = vs::choose(3);
    let m: &[u8] = [&b"GET /q HTTP/1.1\r\nA: b\r\nContent-Length: 3\r\n\r\nabc"[..], b"POST /n/7?k=1 HTTP/1.1\r\nx-s: v\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\n\r\n", b"GET /none HTTP/1.1\r\n\r\n"][kind as usize];
    let n = vs::len(m.len() as u64);
    let c = s.w.raw();
    net().raw_send(c, &m[..n]);
    let st = vs::choose(6);
    s.w.steps(st as usize);
    if vs::boolean() { net().raw_reset(c) } else { net().raw_close(c) }
    s.w.quiesce();
    vs::check(net().live_streams == 0, 48);
    vs::check(s.log.lock().unwrap().len() + s.num.count() <= 1, 49);
    // (the length of a chunked body is the business of the HTTP library)
    if n < m.len() && kind != 1 { vs::check(s.log.lock().unwrap().is_empty() && s.num.count() == 0, 50); }
    still_serving(&mut s);
    vs::cover(1);
}
