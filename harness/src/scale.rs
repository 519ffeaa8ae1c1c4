//! Many of something: requests on a connection, pooled calls, connections, suspended addresses;
//! half-closed connections; servers which log; long texts in embedded documents.
use crate::conc::{release, EReq, Gate, RtE};
use crate::e2e::{M0, M1, M3};
use crate::env::{advance_s, net};
use crate::route;
use crate::vs;
use crate::world::*;
use fibers::{Executor, Spawn};
use futures::{Async, Future};
use htrpc::pool::RpcClientPool;
use std::sync::{Arc, Mutex};

type P = Proc<M3, Bare, Res>;
route!(RtNone, Get, Val("none"));

/// Hundreds of requests on one connection, with one arbitrary byte in one of them.
#[no_mangle]
pub extern "C" fn h_frame_many() {
    let mut w = World::new();
    let l = log();
    let h: Rec<Bare, Res> = Rec::new(ok(b"posted"));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<M3, Bare, Res>()).is_err() { vs::fail(1); return; }
    if b.register(Tag(b'g', l.clone()), proc::<M0, Bare, Res>()).is_err() { vs::fail(1); return; }
    if b.register(Tag(b'h', l.clone()), proc::<M1, Bare, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let n = vs::bound(1030, 2100) as usize;
    let x = vs::u8();
    let at = [0usize, 256, n - 1][vs::choose(3) as usize];
    let c = w.raw();
    let (mut posts, mut tags) = (0, 0);
    for i in 0..n {
        if i == at || i % 5 == 0 {
            net().raw_send(c, b"POST /m HTTP/1.1\r\nContent-Length: 3\r\n\r\nab");
            let out = w.exchange(c, &[x]);
            match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == b"posted" && r.rest.is_empty(), 400), None => vs::fail(401) }
            vs::check(h.count() == posts + 1 && h.get(posts).body == [b'a', b'b', x], 402);
            posts += 1;
        } else {
            let (m, status, tag): (&[u8], u16, bool) = [(&b"GET /m HTTP/1.1\r\n\r\n"[..], 200, true), (b"HEAD /m HTTP/1.1\r\n\r\n", 200, true), (b"GET /none HTTP/1.1\r\n\r\n", 404, false), (b"PUT /m HTTP/1.1\r\nContent-Length: 0\r\n\r\n", 405, false)][i % 5 - 1];
            let out = w.exchange(c, m);
            match parse_http(&out, m[0] == b'H') { Some(r) => vs::check(r.status == status && r.rest.is_empty(), 403), None => vs::fail(404) }
            if tag { tags += 1; }
        }
    }
    vs::check(l.lock().unwrap().len() == tags, 405);
    net().raw_close(c);
    w.quiesce();
    vs::check(net().live_streams == 0, 406);
    vs::cover(1);
}
/// Hundreds of pooled calls in a row, all on one connection.
#[no_mangle]
pub extern "C" fn h_pool_long() {
    let mut w = World::new();
    let h: Rec<Bare, Res> = Rec::new(ok(b"posted"));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<M3, Bare, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let p = RpcClientPool::with_pool_size(1 + vs::choose(2) as usize);
    let hd = p.handle();
    w.ex.handle().spawn(p);
    let n = vs::bound(600, 600);
    let x = vs::u8();
    for i in 0..n {
        let mut m = w.ex.handle().spawn_monitor(hd.client(addr(PORT)).call::<P>(Bare { body: vec![x, i as u8] }));
        match w.wait(&mut m) { Some(Ok(r)) => vs::check(r == ok(b"posted"), 410), _ => vs::fail(411) }
        vs::check(h.count() == i as usize + 1 && h.get(i as usize).body == [x, i as u8], 412);
        if i % 7 == 0 { let s = [0u64, 1, 61, 3601, 100_000][i as usize / 7 % 5]; advance_s(s, 0); }
        w.quiesce();
        vs::check(net().connects.len() == 1, 413);
    }
    vs::cover(1);
}
/// The default pool keeps 1024 connections.
#[no_mangle]
pub extern "C" fn h_pool_1024() {
    let mut w = World::new();
    let ls = [net().raw_listen(8001), net().raw_listen(8002)];
    let p = RpcClientPool::new();
    let hd = p.handle();
    w.ex.handle().spawn(p);
    let n = 1026;
    let mut ms = vec![];
    let mut cs = vec![];
    for i in 0..n {
        let a = if i < 3 { 0 } else { 1 };
        ms.push(w.ex.handle().spawn_monitor(hd.client(addr(8001 + a)).call::<P>(Bare { body: vec![] })));
    }
    for _ in 0..8 { w.quiesce(); }
    for i in 0..2 { while let Some(c) = net().raw_accept(ls[i]) { cs.push(c); } }
    vs::check(cs.len() == n, 420);
    if cs.len() != n { return; }
    let x = vs::u8();
    for i in 0..n {
        net().raw_send(cs[i], b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\n");
        net().raw_send(cs[i], &[x]);
        // the order of the first and the last ones is known
        if i < 4 || i > n - 4 { for _ in 0..2 { w.quiesce(); } }
        if i == n - 4 { for _ in 0..8 { w.quiesce(); } }
    }
    for m in ms.iter_mut() { match m.poll() { Ok(Async::Ready(r)) => vs::check(r == ok(&[x]), 421), _ => vs::fail(422) } }
    // the two least recently used ones are gone
    for i in 0..n { vs::check(net().raw_eof(cs[i]) == (i < 2), 423); }
    vs::cover(10);
}
/// Many addresses suspended at a time.
#[no_mangle]
pub extern "C" fn h_pool_suspend_many() {
    let mut w = World::new();
    let p = RpcClientPool::with_pool_size(4);
    let hd = p.handle();
    w.ex.handle().spawn(p);
    let n = vs::bound(150, 300) as u16;
    macro_rules! call { ($i:expr) => {{
        let before = net().connects.len();
        let mut m = w.ex.handle().spawn_monitor(hd.client(addr(8100 + $i)).call::<P>(Bare { body: vec![] }));
        let r = w.wait(&mut m);
        vs::check(matches!(r, Some(Err(_))), 430);
        w.quiesce();
        net().connects.len() - before
    }} }
    for i in 0..n { vs::check(call!(i) == 1, 431); }
    let s = vs::u8() as u64;
    advance_s(s, 0);
    let at = [0u16, 1, n / 2, n - 2, n - 1][vs::choose(5) as usize];
    let second = [0u16, n / 2, n - 1][vs::choose(3) as usize];
    vs::assume(at != second);
    // (the model's clock moves a little during the calls)
    vs::assume(s < 50 || s > 60);
    let want = if s < 50 { vs::cover(1); 0 } else { vs::cover(2); 1 };
    vs::check(call!(at) == want, 432);
    vs::check(call!(second) == want, 433);
    vs::check(call!(at) == 0, 434);
    vs::check(call!(n) == 1, 435);
    vs::cover(10);
}
/// Many connections with a request in progress on each.
#[no_mangle]
pub extern "C" fn h_conc_many() {
    let mut w = World::new();
    let g = Gate(Arc::new(Mutex::new(Vec::new())));
    let l = log();
    let mut b = w.builder();
    if b.register(g.clone(), proc::<RtE, EReq, Res>()).is_err() { vs::fail(1); return; }
    if b.register(Tag(b'g', l.clone()), proc::<M0, Bare, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let n = vs::bound(250, 256) as usize;
    let x = vs::u8();
    let mut cs = vec![];
    for i in 0..n {
        let c = w.raw();
        let mut m = b"POST /e/".to_vec();
        m.extend_from_slice(i.to_string().as_bytes());
        m.extend_from_slice(b" HTTP/1.1\r\nContent-Length: 1\r\n\r\n");
        m.push(x);
        net().raw_send(c, &m);
        cs.push(c);
    }
    for _ in 0..3 { w.quiesce(); }
    // a newcomer is served while all others wait
    let d = w.raw();
    let out = w.exchange(d, b"GET /m HTTP/1.1\r\n\r\n");
    match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == b"g", 440), None => vs::fail(441) }
    let rev = vs::boolean();
    for k in 0..n {
        let i = if rev { n - 1 - k } else { k };
        vs::check(release(&g, i as u8), 442);
        let out = w.settle(cs[i]);
        match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == [i as u8, x] && r.rest.is_empty(), 443), None => vs::fail(444) }
    }
    for &c in &cs { vs::check(net().raw_take(c).is_empty() && !net().raw_eof(c), 445); net().raw_close(c); }
    net().raw_close(d);
    for _ in 0..3 { w.quiesce(); }
    vs::check(net().live_streams == 0, 446);
    vs::cover(10);
}
/// A peer which finished sending (but still reads) after a complete request gets its response.
#[no_mangle]
pub extern "C" fn h_rob_half() {
    let mut w = World::new();
    let g = Gate(Arc::new(Mutex::new(Vec::new())));
    let l = log();
    let mut b = w.builder();
    if b.register(g.clone(), proc::<RtE, EReq, Res>()).is_err() { vs::fail(1); return; }
    if b.register(Tag(b'g', l.clone()), proc::<M0, Bare, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let x = vs::u8();
    let mut m = b"POST /e/9 HTTP/1.1\r\nContent-Length: 2\r\n\r\na".to_vec();
    m.push(x);
    let c = w.raw();
    let cut = vs::len(m.len() as u64);
    vs::check(w.exchange(c, &m[..cut]).is_empty(), 450);
    net().raw_send(c, &m[cut..]);
    let st = vs::choose(4) as usize;
    w.steps(st);
    net().raw_shut(c);
    w.quiesce();
    vs::check(release(&g, 9), 451);
    let out = w.settle(c);
    match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == [9, b'a', x] && r.rest.is_empty(), 452), None => vs::fail(453) }
    vs::check(net().live_streams == 0, 454);
    let d = w.raw();
    let out = w.exchange(d, b"GET /m HTTP/1.1\r\n\r\n");
    match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == b"g", 455), None => vs::fail(456) }
    vs::cover(1);
}
/// Formats everything it is given.
pub struct Fmt(Arc<Mutex<usize>>);
impl slog::Drain for Fmt {
    type Ok = ();
    type Err = slog::Never;
    fn log(&self, r: &slog::Record, _v: &slog::OwnedKVList) -> std::result::Result<(), slog::Never> {
        let s = format!("{}", r.msg());
        *self.0.lock().unwrap_or_else(|e| e.into_inner()) += s.len();
        Ok(())
    }
}
/// A server with a logger behaves like one without.
#[no_mangle]
pub extern "C" fn h_srv_log() {
    let mut w = World::new();
    let l = log();
    let num = Rec::<crate::server::NumReq, Res>::new(ok(b"num"));
    let mut b = w.builder();
    let n = Arc::new(Mutex::new(0));
    b.set_logger(slog::Logger::root(Fmt(n.clone()), slog::o!()));
    if b.register(Tag(b'q', l.clone()), proc::<crate::server::RtEcho, Bare, Res>()).is_err() { vs::fail(1); }
    if b.register(num.clone(), proc::<crate::server::RtNum, crate::server::NumReq, Res>()).is_err() { vs::fail(1); }
    w.start(b);
    let x = vs::u8();
    let (pre, post): (&[u8], &[u8]) = [
        (&b""[..], &b" /q HTTP/1.1\r\n\r\n"[..]), (b"GET /", b" HTTP/1.1\r\n\r\n"), (b"GET /q?", b" HTTP/1.1\r\n\r\n"), (b"POST /n/", b"?k=1 HTTP/1.1\r\nx-s: v\r\n\r\n"),
        (b"POST /n/1?k=", b" HTTP/1.1\r\nx-s: v\r\n\r\n"), (b"POST /n/1?k=2 HTTP/1.1\r\nx-s: ", b"\r\n\r\n"), (b"GET /n/%f", b" HTTP/1.1\r\n\r\n"), (b"PUT /q", b" HTTP/1.1\r\n\r\n"),
        (b"GET /q HTTP/1.1\r\nContent-Length: ", b"\r\n\r\n"),
    ][vs::choose(9) as usize];
    let mut m = pre.to_vec();
    m.push(x);
    m.extend_from_slice(post);
    let c = w.raw();
    let out = w.exchange(c, &m);
    if !out.is_empty() {
        match parse_http(&out, m.starts_with(b"HEAD")) { Some(r) => { vs::check(r.rest.is_empty() && (r.status == 200) == (l.lock().unwrap().len() + num.count() == 1), 460); vs::cover(r.status as u32); } None => vs::fail(461) }
    } else { vs::cover(2); }
    if vs::boolean() { net().raw_close(c) } else { net().raw_reset(c) }
    w.quiesce();
    let d = w.raw();
    let out = w.exchange(d, b"GET /q HTTP/1.1\r\n\r\n");
    match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == b"q", 462), None => vs::fail(463) }
    vs::check(*n.lock().unwrap() > 0, 464);
    vs::cover(1);
}

// ---- embedded documents ---------------------------------------------------------------------
use crate::args::{base64_, rt, word, RtV2};
use crate::more::floats;
use std::collections::BTreeMap;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Big { pub f: f64, pub g: f32, pub s: String, pub v: Vec<i64>, pub m: BTreeMap<String, Option<u32>>, pub u: u64, pub n: (bool, Vec<String>), pub z: () }
impl PartialEq for Big {
    fn eq(&self, o: &Big) -> bool {
        self.s == o.s && self.u == o.u && self.v == o.v && self.m == o.m && self.f.to_bits() == o.f.to_bits() && self.g.to_bits() == o.g.to_bits() && self.n == o.n
    }
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct QBig { #[serde(with = "htrpc::json")] pub j: Big, #[serde(with = "htrpc::json_pretty")] pub p: Big, pub k: u8 }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct HBig { #[serde(rename = "x-j", with = "htrpc::json")] pub j: Big, #[serde(rename = "x-p")] pub k: u8 }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct PBig(#[serde(with = "htrpc::json_pretty")] pub Big, pub u8);
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct MBig { #[serde(with = "htrpc::msgpack")] pub m: Big, pub k: u8 }
fn big0() -> Big { Big { s: "t".to_string(), u: 1, v: vec![], m: BTreeMap::new(), f: 0.5, g: -0.25, n: (true, vec![]), z: () } }
fn text_of(n: usize) -> String {
    let mut t: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    let v = vs::u8();
    vs::assume(v >= 0x20 && v < 0x7f);
    if n > 0 { t[n / 2] = v; }
    String::from_utf8(t).unwrap_or_default()
}
fn near() -> u64 { base64_().wrapping_add([0, 127, 128, 129, 255][vs::choose(5) as usize]) }
fn big(json: bool) -> Big {
    let mut b = big0();
    match vs::choose(6) {
        0 => b.s = text_of([0usize, 1, 15, 16, 31, 32, 33, 127, 128, 255, 256, 257, 1000, if json { 3000 } else { 5000 }][vs::choose(14) as usize]),
        1 if json && !vs::thorough() => b.u = near(),
        2 if json && !vs::thorough() => b.v = vec![near() as i64, -1],
        1 => b.u = word(),
        2 => b.v = vec![word() as i64, -1],
        // (the JSON library may be off by one in the last of 16 or more digits)
        3 if json => { b.f = [0.0, -0.0, 1.0, 0.1, -1.5, 1e10, 123456.789, 1e-7, 1e15, 4503599627370496.0][vs::choose(10) as usize]; b.g = [0.0f32, 0.5, 16777216.0, -3.25][vs::choose(4) as usize]; }
        3 => { let (g, f) = floats(); if f.is_finite() { b.f = f; } if g.is_finite() { b.g = g; } }
        4 => { let n = [1usize, 15, 16, 17, 40][vs::choose(5) as usize]; for i in 0..n { b.v.push(i as i64 * 1000 - 1); b.n.1.push(i.to_string()); b.m.insert(format!("k{}", i), if i % 2 == 0 { None } else { Some(i as u32) }); } }
        _ => { let k = text_of(2); b.m.insert(k, Some(9)); b.m.insert("zzz".to_string(), None); b.n = (false, vec![String::new(), text_of(1)]); }
    }
    b
}
/// Long texts, all kinds of numbers, collections, in every place.
#[no_mangle]
pub extern "C" fn h_json_big() {
    let b = big(true);
    let body = vec![];
    match vs::choose(4) {
        0 => rt::<crate::args::RtQ, _, _, _>(Req { path: (), query: QBig { j: b, p: big0(), k: 7 }, header: Nil {}, body }, false),
        1 => rt::<crate::args::RtQ, _, _, _>(Req { path: (), query: QBig { j: big0(), p: b, k: 7 }, header: Nil {}, body }, false),
        2 => rt::<crate::args::RtQ, _, _, _>(Req { path: (), query: Nil {}, header: HBig { j: b, k: 7 }, body }, false),
        _ => {
            // (the pretty form has line feeds, which a path cannot carry)
            rt::<RtV2, _, _, _>(Req { path: PBig(b, 7), query: Nil {}, header: Nil {}, body }, true)
        }
    }
}
#[no_mangle]
pub extern "C" fn h_msgpack_big() {
    let p = MBig { m: big(false), k: 4 };
    match serdeconv::to_json_string(&p) {
        Ok(s) => match serdeconv::from_json_str::<MBig>(&s) {
            Ok(q) => { vs::cover(1); vs::check(q == p, 470) }
            Err(_) => vs::fail(471),
        },
        Err(_) => vs::fail(472),
    }
}

// ---- unknown fields -----------------------------------------------------------------------------
/// Many, long, or nearly known names; values which are no text.
#[no_mangle]
pub extern "C" fn h_unknown_many() {
    use crate::wire::{ht, judge, qt, setup};
    let mut t = b"/t/p?".to_vec();
    let mut hs = vec![];
    let x = vs::u8();
    vs::assume(x > 0x20 && x < 0x7f && x != b'&' && x != b'#' && x != b'%');
    let (mut q, mut hv) = (qt(), ht());
    match vs::choose(6) {
        0 => { // many parameters
            let n = [5usize, 63, 64, 128, 300][vs::choose(5) as usize];
            for i in 0..n { t.extend_from_slice(b"p"); t.extend_from_slice(i.to_string().as_bytes()); t.extend_from_slice(b"=1&"); }
            t.push(x);
            t.extend_from_slice(b"z=1&s=q&r=9");
            q.s = Some("q".to_string());
        }
        1 => { // a long name or value
            let n = [16usize, 64, 255, 256, 700][vs::choose(5) as usize];
            if vs::boolean() { t.extend_from_slice(b"v="); }
            for _ in 0..n { t.push(b'r'); }
            t.push(x);
            t.extend_from_slice(b"&r=9");
        }
        2 => { // nearly known names
            let k: &[u8] = [&b"R"[..], b"rr", b"r%20", b"+r", b"r[]", b"%00r", b"r%3D", b"path", b"query", b"%52", b"r.", b"a%62"][vs::choose(12) as usize];
            t.extend_from_slice(b"r=9&");
            t.extend_from_slice(k);
            t.push(b'=');
            t.push(x);
        }
        3 => { // values which are no text, repeated names
            let v: &[u8] = [&b"%ff"[..], b"%", b"%0", b"%c3%28", b"%00", b"=", b"==&zz=", b"1&zz=2&zz=3"][vs::choose(8) as usize];
            t.extend_from_slice(b"zz=");
            t.extend_from_slice(v);
            t.push(x);
            t.extend_from_slice(b"&r=9");
        }
        4 => { // headers: nearly known names, repeated
            let k: &[u8] = [&b"x-r2"[..], b"x-", b"-x-r", b"xr", b"x_r", b"y-r", b"x-rr", b"header", b"x-r-", b"x.r"][vs::choose(10) as usize];
            for _ in 0..vs::choose(3) + 1 { hs.extend_from_slice(k); hs.extend_from_slice(b": "); hs.push(x); hs.extend_from_slice(b"\r\n"); }
            t.extend_from_slice(b"r=9");
        }
        _ => { // headers: many, long
            let n = [1usize, 10, 25][vs::choose(3) as usize];
            for i in 0..n { hs.extend_from_slice(b"x-n"); hs.extend_from_slice(i.to_string().as_bytes()); hs.extend_from_slice(b": "); hs.push(x); hs.extend_from_slice(b"\r\n"); }
            let n = [1usize, 63, 64, 255, 256, 500, 512, 513, 1024, 2000][vs::choose(10) as usize];
            let name = vs::boolean();
            hs.extend_from_slice(b"x-l");
            if name { for _ in 0..n { hs.push(b'l'); } }
            hs.extend_from_slice(b": ");
            if !name { for _ in 0..n { hs.push(0x80 + (x & 0x3f)); } }
            hs.extend_from_slice(b"\r\nx-a: 3\r\n");
            hv.a = Some(3);
            t.extend_from_slice(b"r=9");
        }
    }
    let before = vs::boolean();
    if before { hs.splice(0..0, b"x-r: 8\r\n".iter().cloned()); } else { hs.extend_from_slice(b"x-r: 8\r\n"); }
    let (mut w, h, _) = setup::<String>();
    judge(&mut w, &h, &t, &hs, Some(Req { path: ("p".to_string(),), query: q, header: hv, body: vec![] }));
}

/// More than a thousand open connections: silent ones, and ones with a piece of a request.
#[no_mangle]
pub extern "C" fn h_conc_idle() {
    let mut w = World::new();
    let l = log();
    let mut b = w.builder();
    if b.register(Tag(b'g', l.clone()), proc::<M0, Bare, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let n = vs::bound(1100, 2100) as usize;
    let x = vs::u8();
    let part: &[u8] = [&b""[..], b"GET /m HTTP/1.1\r\n"][vs::choose(2) as usize];
    let mut cs = vec![];
    for i in 0..n {
        let c = w.raw();
        if i % 3 != 0 { net().raw_send(c, part); }
        cs.push(c);
        if i % 100 == 99 { w.quiesce(); }
    }
    w.quiesce();
    for i in [n - 1, 0, n / 2, 1, n - 2].iter().cloned() {
        if i % 3 != 0 && !part.is_empty() { net().raw_send(cs[i], b"x-u: "); net().raw_send(cs[i], &[x | 0x80]); net().raw_send(cs[i], b"\r\n\r\n"); } else { net().raw_send(cs[i], b"GET /m HTTP/1.1\r\n\r\n"); }
        let out = w.settle(cs[i]);
        match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == b"g" && r.rest.is_empty(), 475), None => vs::fail(476) }
    }
    vs::check(l.lock().unwrap().len() == 5 && net().live_streams == n, 477);
    for (i, &c) in cs.iter().enumerate() { vs::check(!net().raw_eof(c), 478); if i % 2 == 0 { net().raw_close(c) } else { net().raw_reset(c) } }
    for _ in 0..3 { w.quiesce(); }
    vs::check(net().live_streams == 0, 479);
    vs::cover(1);
}
/// Idle connections to hundreds of addresses: each one is used again for its own address.
#[no_mangle]
pub extern "C" fn h_pool_addrs() {
    let mut w = World::new();
    let n = vs::bound(150, 400) as usize;
    let size = [n, n - 1, 1000][vs::choose(3) as usize];
    let p = RpcClientPool::with_pool_size(size);
    let hd = p.handle();
    w.ex.handle().spawn(p);
    let ls: Vec<usize> = (0..n).map(|i| net().raw_listen(8001 + i as u16)).collect();
    let mut cs = vec![usize::MAX; n];
    let x = vs::u8();
    macro_rules! call { ($i:expr) => {{
        let before = net().connects.len();
        let mut m = w.ex.handle().spawn_monitor(hd.client(addr(8001 + $i as u16)).call::<P>(Bare { body: vec![x, $i as u8] }));
        for _ in 0..2 { w.quiesce(); }
        if let Some(c) = net().raw_accept(ls[$i]) { cs[$i] = c; }
        let q = net().raw_take(cs[$i]);
        vs::check(q.ends_with(&[x, $i as u8]), 480);
        net().raw_send(cs[$i], b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n");
        net().raw_send(cs[$i], &[x, $i as u8]);
        match w.wait(&mut m) { Some(Ok(r)) => vs::check(r == ok(&[x, $i as u8]), 481), _ => vs::fail(482) }
        w.quiesce();
        net().connects.len() - before
    }} }
    for i in 0..n { vs::check(call!(i) == 1, 483); }
    let rev = vs::boolean();
    // all are there, but for the least recently used one if there is no room
    for k in 0..n { vs::check(net().raw_eof(cs[k]) == (size < n && k == 0), 484); }
    for k in 1..n { let i = if rev { n - k } else { k }; vs::check(call!(i) == 0, 485); }
    vs::check(call!(0) == if size < n { 1 } else { 0 }, 486);
    let lru = if rev { n - 1 } else { 1 };
    for k in 0..n { vs::check(net().raw_eof(cs[k]) == (size < n && k == lru), 487); }
    vs::cover(1);
}
