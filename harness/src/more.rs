//! Further entries: floating point, framing headers, declared names in upper case, typed response
//! headers, foreign problems, abandoned calls, the pool against the real server, life of a server.
use crate::args::*;
use crate::conc::{release, EReq, Gate, RtE};
use crate::e2e::{M0, M1, M3, M4};
use crate::env::{net, Kind};
use crate::route;
use crate::shapes::*;
use crate::vs;
use crate::world::*;
use fibers::{Executor, Spawn};
use futures::future::Either;
use futures::{Async, Future};
use htrpc::pool::RpcClientPool;
use htrpc::rfc7807::{Problem, ProblemResponse};
use htrpc::types::{EntryPoint, HttpMethod};
use htrpc::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

fn req<P, Q, H>(path: P, query: Q, header: H) -> Req<P, Q, H> { Req { path, query, header, body: vec![] } }

// ---- floating point -------------------------------------------------------------------
fn same64(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
fn same32(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Fl { pub f: f32, pub d: f64 }
impl PartialEq for Fl { fn eq(&self, o: &Fl) -> bool { same32(self.f, o.f) && same64(self.d, o.d) } }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FlT(pub f32, pub f64);
impl PartialEq for FlT { fn eq(&self, o: &FlT) -> bool { same32(self.0, o.0) && same64(self.1, o.1) } }
pub fn floats() -> (f32, f64) {
    const F: [u32; 20] = [0, 1 << 31, 1, 0x007f_ffff, 0x0080_0000, 0x3f80_0000, 0x3dcc_cccd, 0x7f7f_ffff, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xbf80_0001,
        0x4b80_0000, 0x4b7f_ffff, 0x5015_02f9, 0x322b_cc77, 0x4049_0fdb, 0xc2f6_e979, 0x3f7f_ffff, 0x6258_d727];
    const D: [u64; 22] = [0, 1 << 63, 1, 0x000f_ffff_ffff_ffff, 0x0010_0000_0000_0000, 0x3ff0_0000_0000_0000, 0x3fb9_9999_9999_999a, 0x7fef_ffff_ffff_ffff,
        0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0xbff0_0000_0000_0001, 0x4340_0000_0000_0000, 0x433f_ffff_ffff_ffff,
        0x4202_a05f_2000_0000, 0x3e45_798e_e230_8c3a, 0x4009_21fb_5444_2d18, 0xc05e_dd2f_1a9f_be77, 0x3fef_ffff_ffff_ffff, 0x4415_af1d_78b5_8c40, 0x4480_f0cf_064d_d592, 0x3ddb_7cdf_d9d7_bdbb];
    let low = if vs::thorough() { vs::choose(8) } else { vs::choose(2) };
    if vs::boolean() { (f32::from_bits(F[vs::choose(20) as usize] ^ low as u32), -1.5) } else { (0.25, f64::from_bits(D[vs::choose(22) as usize] ^ low)) }
}
#[no_mangle]
pub extern "C" fn h_path_floats() { let (f, d) = floats(); rt::<RtV2, _, _, _>(req(FlT(f, d), Nil {}, Nil {}), false); }
#[no_mangle]
pub extern "C" fn h_query_floats() { let (f, d) = floats(); rt::<RtQ, _, _, _>(req((), Fl { f, d }, Nil {}), false); }
#[no_mangle]
pub extern "C" fn h_header_floats() { let (f, d) = floats(); rt::<RtQ, _, _, _>(req((), Nil {}, Fl { f, d }), false); }

// ---- typed response headers ---------------------------------------------------------------
macro_rules! tres {
    ($n:ident, $h:ty) => {
        #[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
        pub struct $n { pub status: u16, pub header: $h, #[serde(skip)] pub body: Vec<u8> }
        impl RpcResponse for $n {
            fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> { Box::new(std::mem::replace(&mut self.body, Vec::new())) }
            fn set_body(&mut self, b: Vec<u8>) { self.body = b; }
        }
    };
}
tres!(TN, Nums);
tres!(TF, Fl);
tres!(TO, HOpt);
tres!(TM, NoCase);
tres!(TU, HUp);
#[no_mangle]
pub extern "C" fn h_res_nums() { reply(TN { status: 200, header: nums(), body: b"b".to_vec() }, Some(200)); }
#[no_mangle]
pub extern "C" fn h_res_typed() {
    let body = vec![];
    match vs::choose(3) {
        0 => { let (f, d) = floats(); reply(TF { status: 201, header: Fl { f, d }, body }, Some(201)) }
        1 => {
            let n = vs::len(vs::bound(2, 3));
            let r = vs::bytes(n);
            let bad = bad_value(&r);
            reply(TO { status: 404, header: HOpt { a: None, m: Marker, n: Some(3), b: None, r: Some(Raw(r)) }, body }, if bad { None } else { Some(404) })
        }
        _ => {
            let a = if vs::boolean() { Some(Name(vs::string(vs::bound(1, 2)))) } else { None };
            let n = if vs::boolean() { Some(vs::u8()) } else { None };
            let b = if vs::boolean() { Some(vs::boolean()) } else { None };
            let bad = a.as_ref().map_or(false, |a| bad_value(a.0.as_bytes()));
            reply(TO { status: 200, header: HOpt { a, m: Marker, n, b, r: None }, body }, if bad { None } else { Some(200) })
        }
    }
}

// ---- declared names in upper case -----------------------------------------------------------
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct HUp {
    #[serde(rename = "X-Upper")] pub a: Option<String>, #[serde(rename = "Content-Type")] pub c: String,
    #[serde(rename = "x-low")] pub l: Option<u8>, #[serde(rename = "ETag")] pub e: Option<Marker>,
}
/// Header fields declared with capital letters arrive, too (in both directions).
#[no_mangle]
pub extern "C" fn h_header_upper() {
    let v = vs::u8();
    vs::assume(v > 0x20 && v < 0x7f);
    let s = String::from_utf8(vec![v]).unwrap_or_default();
    let h = HUp { a: if vs::boolean() { Some(s) } else { None }, c: "text/plain".to_string(), l: if vs::boolean() { Some(vs::u8()) } else { None }, e: if vs::boolean() { Some(Marker) } else { None } };
    if vs::boolean() { rt::<RtQ, _, _, _>(req((), Nil {}, h), false) } else { reply(TU { status: 200, header: h, body: b"x".to_vec() }, Some(200)) }
}
route!(RtUp, Get, Val("up"));
/// ... whatever the case of the names in the message.
#[no_mangle]
pub extern "C" fn h_header_case2() {
    let mut n = b"x-upper: V\r\ncontent-type: T\r\nx-low: 7\r\netag: Marker\r\n".to_vec();
    for &i in &[0usize, 2, 12, 20, 29, 31, 39, 40] { if vs::boolean() { n[i] = n[i].to_ascii_uppercase(); } }
    let mut m = b"GET /up HTTP/1.1\r\n".to_vec();
    m.extend_from_slice(&n);
    m.extend_from_slice(b"\r\n");
    vs::note(0, &m);
    let mut w = World::new();
    let h: Rec<Req<(), Nil, HUp>, Res> = Rec::new(ok(b"u"));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<RtUp, Req<(), Nil, HUp>, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let c = w.raw();
    let out = w.exchange(c, &m);
    match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == b"u", 300), None => vs::fail(301) }
    vs::check(h.count() == 1 && h.get(0).header == HUp { a: Some("V".to_string()), c: "T".to_string(), l: Some(7), e: Some(Marker) }, 302);
    vs::cover(1);
}

// ---- header arguments cannot change the framing of messages -------------------------------------
type FReq = Req<(), Nil, NoCase>;
route!(RtF, Post, Val("f"));
route!(RtG2, Get, Val("g"));
fn framing() -> (NoCase, bool) {
    let (k, f) = [("content-length", true), ("Content-Length", true), ("transfer-encoding", true), ("Transfer-Encoding", true), ("connection", false), ("x-content-length", false)][vs::choose(6) as usize];
    let v = match vs::choose(6) { 0 => "0".to_string(), 1 => "19".to_string(), 2 => "chunked".to_string(), 3 => "50".to_string(), 4 => "close".to_string(), _ => { let c = vs::u8(); vs::assume(c >= b'0' && c <= b'9'); String::from_utf8(vec![c]).unwrap_or_default() } };
    let mut m = BTreeMap::new();
    m.insert(k.to_string(), v);
    (NoCase(m), f)
}
#[no_mangle]
pub extern "C" fn h_header_frame() {
    let (hd, framed) = framing();
    let trap = b"GET /g HTTP/1.1\r\n\r\n".to_vec();
    let mut w = World::new();
    let l = log();
    match vs::choose(3) {
        0 => { // request, real server
            let h: Rec<FReq, Res> = Rec::new(ok(b"r"));
            let mut b = w.builder();
            if b.register(h.clone(), proc::<RtF, FReq, Res>()).is_err() { vs::fail(1); return; }
            if b.register(Tag(b'g', l.clone()), proc::<RtG2, Bare, Res>()).is_err() { vs::fail(1); return; }
            w.start(b);
            let rq = Req { path: (), query: Nil {}, header: hd, body: trap };
            match w.call::<RtF, FReq, Res>(rq.clone()) {
                None => vs::fail(303),
                Some(Err(())) => { vs::cover(2); vs::check(framed && h.count() == 0, 304); }
                Some(Ok(r)) => { vs::cover(1); vs::check(r == ok(b"r") && h.count() == 1 && h.get(0) == rq, 305); }
            }
            vs::check(l.lock().unwrap().is_empty(), 306);
        }
        1 => { // request on the wire
            let ls = net().raw_listen(PORT);
            let mut c = RpcClient::new(addr(PORT));
            let f = c.call::<Proc<RtF, FReq, Res>>(Req { path: (), query: Nil {}, header: hd, body: trap.clone() });
            let _m = w.ex.handle().spawn_monitor(f);
            w.quiesce();
            let c = match net().raw_accept(ls) { Some(c) => c, None => { vs::check(framed, 307); return; } };
            let out = net().raw_take(c);
            if out.is_empty() { vs::check(framed, 308); return; }
            match crate::client::parse_req(&out) {
                None => vs::fail(309),
                Some(r) => {
                    let cl: Vec<_> = r.headers.iter().filter(|h| h.0 == b"content-length").collect();
                    vs::check(cl.len() == 1 && cl[0].1 == b"19" && r.rest == trap && !r.headers.iter().any(|h| h.0 == b"transfer-encoding"), 310);
                }
            }
            vs::cover(3);
        }
        _ => { // response
            let rs = TM { status: 200, header: hd, body: trap };
            let h: Rec<Bare, TM> = Rec::new(rs.clone());
            let mut b = w.builder();
            if b.register(h.clone(), proc::<RtF, Bare, TM>()).is_err() { vs::fail(1); return; }
            w.start(b);
            match w.call::<RtF, Bare, TM>(Bare { body: vec![] }) {
                None => vs::fail(311),
                Some(Err(())) => { vs::cover(4); vs::check(framed, 312); }
                Some(Ok(r)) => { vs::cover(5); vs::check(r.status == 200 && r.body == rs.body && r.header == rs.header, 313); }
            }
            let c = w.raw();
            let out = w.exchange(c, b"POST /f HTTP/1.1\r\n\r\n");
            match parse_http(&out, false) {
                Some(r) => vs::check(r.status >= 500 || (r.rest.is_empty() && r.body == rs.body && r.get("transfer-encoding").is_none()), 314),
                None => vs::check(framed && out.is_empty(), 315),
            }
        }
    }
}
fn many(n: u64) -> BTreeMap<String, String> { (0..n).map(|i| (format!("k{}", i), format!("v {}", i * 7))).collect() }
/// Many header fields: all arrive, or (beyond what the server takes) the call fails.
#[no_mangle]
pub extern "C" fn h_header_many() {
    let n = [0u64, 1, 2, 8, 16, 20, 24, 27, 28, 29, 30, 31, 32, 33, 40][vs::choose(15) as usize];
    let mut m = many(n);
    let v = vs::u8();
    vs::assume(v > 0x20 && v < 0x7f);
    if n > 0 { m.insert("k0".to_string(), String::from_utf8(vec![v]).unwrap_or_default()); }
    let mut w = World::new();
    let h = Rec::new(ok(b"r"));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<RtQ, FReq, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let rq = req((), Nil {}, NoCase(m));
    match w.call::<RtQ, _, Res>(rq.clone()) {
        None => vs::fail(316),
        Some(Err(())) => { vs::cover(2); vs::check(n > 24 && h.count() == 0, 317); }
        Some(Ok(_)) => { vs::cover(1); vs::check(h.count() == 1 && h.get(0) == rq, 318); }
    }
}
#[no_mangle]
pub extern "C" fn h_query_many() {
    let n = [0u64, 1, 2, 8, 16, 31, 32, 33, 64, 100][vs::choose(10) as usize];
    let mut m = many(n);
    if n > 0 { m.insert("k0".to_string(), vs::utf8(1)); }
    rt::<RtQ, _, _, _>(req((), m, Nil {}), false);
}

// ---- problems of other servers ----------------------------------------------------------------
/// A problem document which cannot be understood is never reported as another problem.
#[no_mangle]
pub extern "C" fn h_cli_problem() {
    let b = { let n = vs::len(vs::bound(2, 3)); vs::bytes(n) };
    let plain = String::from_utf8(b.clone()).is_ok() && !b.iter().any(|&c| c < 0x20 || c == b'"');
    let k = vs::choose(8);
    if k == 0 { for &c in &b { vs::assume(c != b'\\'); } }
    let (pre, post): (&[u8], &[u8]) = [
        (&b"{\"type\":\"about:blank\",\"title\":\""[..], &b"\",\"status\":404}"[..]),
        (b"", b""),
        (b"{\"type\":\"about:blank\",\"title\":\"t\",\"status\":40", b"}"),
        (b"{\"type\":\"about:blank\",\"title\":\"t\"}", b""),
        (b"{\"type\":\"https://example.com/other\",\"title\":\"t\",\"status\":404}", b""),
        (b"{\"title\":\"t\",\"status\":404}", b""),
        (b"{\"type\":\"about:blank\",\"title\":\"t\",\"status\":404", b""),
        (b"{\"type\":\"about:blank\",\"title\":\"t\",\"status\":404,\"extra\":[", b"]}"),
    ][k as usize];
    // (no floating point)
    if k > 0 { for &c in &b { vs::assume(c != b'.' && c != b'-' && c != b'e' && c != b'E'); } }
    let mut doc = pre.to_vec();
    doc.extend_from_slice(&b);
    doc.extend_from_slice(post);
    let mut m = b"HTTP/1.1 404 Not Found\r\nContent-Type: application/problem+json\r\nContent-Length: ".to_vec();
    m.extend_from_slice(doc.len().to_string().as_bytes());
    m.extend_from_slice(b"\r\n\r\n");
    m.extend_from_slice(&doc);
    match crate::client::against::<crate::client::RtC, ProblemResponse>(&[&m], crate::client::End::Open) {
        None => vs::fail(320),
        Some(Err(())) => vs::check(k != 0 || !plain, 321),
        Some(Ok(r)) => {
            vs::cover(1);
            match *r.problem() {
                Problem::AboutBlank(ref p) => {
                    // (the status member may say something else than the status line: cases 2, 6)
                    vs::check(p.status == 404 || k == 2 || k == 6, 322);
                    if k == 0 && plain { vs::cover(2); vs::check(p.title.as_bytes() == &b[..], 323); }
                }
                _ => vs::fail(324),
            }
        }
    }
}

// ---- abandoned calls ----------------------------------------------------------------------------
/// Giving up a call at any moment closes its connection and disturbs nobody.
#[no_mangle]
pub extern "C" fn h_cli_abandon() {
    let mut w = World::new();
    let h: Rec<Bare, Res> = Rec::new(ok(b"r"));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<M3, Bare, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let caps = [1usize, 16, usize::MAX][vs::choose(3) as usize];
    net().wcap = caps;
    let (tx, rx) = fibers::sync::oneshot::channel::<()>();
    let mut c = RpcClient::new(addr(PORT));
    let f = c.call::<Proc<M3, Bare, Res>>(Bare { body: b"GET / HTTP/1.1\r\n\r\n".to_vec() });
    let f = f.select2(rx).then(|r| match r { Ok(Either::A((v, _))) => Ok(Some(v)), Ok(Either::B((_, call))) => { drop(call); Ok(None) } _ => Err(()) });
    let mut m = w.ex.handle().spawn_monitor(f);
    let n = vs::choose(vs::bound(16, 60)) as usize;
    w.steps(n);
    let _ = tx.send(());
    net().wcap = usize::MAX;
    match w.wait(&mut m) {
        Some(Ok(Some(r))) => { vs::cover(1); vs::check(r == ok(b"r"), 330); }
        Some(Ok(None)) => vs::cover(2),
        _ => vs::fail(331),
    }
    w.quiesce();
    vs::check(net().live_streams == 0 && h.count() <= 1, 332);
    let before = h.count();
    match w.call::<M3, Bare, Res>(Bare { body: vec![] }) { Some(Ok(r)) => vs::check(r == ok(b"r") && h.count() == before + 1, 333), _ => vs::fail(334) }
    w.quiesce();
    vs::check(net().live_streams == 0, 335);
}
// ---- blocked writes -----------------------------------------------------------------------------
/// One direction of the connection accepts no more bytes after any number of them, for a while.
#[no_mangle]
pub extern "C" fn h_e2e_block() {
    let mut w = World::new();
    let rep = Res::Created { header: ResHeader { r: Some("v w".to_string()) }, body: b"0123456789".to_vec() };
    let h: Rec<Bare, Res> = Rec::new(rep.clone());
    let l = log();
    let mut b = w.builder();
    if b.register(h.clone(), proc::<M3, Bare, Res>()).is_err() { vs::fail(1); return; }
    if b.register(Tag(b'g', l.clone()), proc::<RtG2, Bare, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let mut c = RpcClient::new(addr(PORT));
    let f = c.call::<Proc<M3, Bare, Res>>(Bare { body: b"abcdefgh".to_vec() });
    let mut m = w.ex.handle().spawn_monitor(f);
    let server_side = vs::boolean();
    let cut = vs::choose(120) as usize;
    let mut idle = 0;
    while idle < IDLE {
        let n = net();
        let before = n.acts;
        for i in 0..n.fds.len() {
            if let Kind::Stream(ref mut s) = n.fds[i] { if !s.raw && (s.local == PORT) == server_side && s.wgate == usize::MAX { s.wgate = cut; } }
        }
        w.steps(1);
        idle = if net().acts == before { idle + 1 } else { 0 };
    }
    // meanwhile others are served
    let d = w.raw();
    let out = w.exchange(d, b"GET /g HTTP/1.1\r\n\r\n");
    match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == b"g", 336), None => vs::fail(337) }
    let n = net();
    for i in 0..n.fds.len() { if let Kind::Stream(ref mut s) = n.fds[i] { s.wgate = usize::MAX; } }
    match w.wait(&mut m) { Some(Ok(r)) => vs::check(r == rep, 338), _ => vs::fail(339) }
    vs::check(h.count() == 1 && h.get(0).body == b"abcdefgh", 340);
    vs::cover(if server_side { 1 } else { 2 });
}

// ---- the pool against the real server -------------------------------------------------------------
route!(RtV8, Get, Val("v"), Var);
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct PV<T> { pub path: (T,), #[serde(skip)] pub body: Vec<u8> }
impl<T: Arg> RpcRequest for PV<T> {
    fn body(&mut self) -> Vec<u8> { std::mem::replace(&mut self.body, Vec::new()) }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        Box::new(body.read_all_bytes().map(move |(b, v)| { self.body = v; (b, self) }).map_err(Error::from))
    }
}
/// Calls of all outcomes, one after the other: each gets its own answer, all on one connection.
#[no_mangle]
pub extern "C" fn h_pool_server() {
    let mut w = World::new();
    let l = log();
    let h: Rec<Bare, Res> = Rec::new(Res::Created { header: ResHeader { r: Some("x".to_string()) }, body: b"posted".to_vec() });
    let v: Rec<PV<u8>, Res> = Rec::new(ok(b"vee"));
    let mut b = w.builder();
    if b.register(Tag(b'g', l.clone()), proc::<M0, Bare, Res>()).is_err() { vs::fail(1); return; }
    if b.register(Tag(b'h', l.clone()), proc::<M1, Bare, Res>()).is_err() { vs::fail(1); return; }
    if b.register(h.clone(), proc::<M3, Bare, Res>()).is_err() { vs::fail(1); return; }
    if b.register(v.clone(), proc::<RtV8, PV<u8>, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let p = RpcClientPool::with_pool_size(1);
    let hd = p.handle();
    w.ex.handle().spawn(p);
    let mut posts = vec![];
    let mut tags = vec![];
    let mut vees = 0;
    for _ in 0..vs::bound(3, 4) {
        macro_rules! call { ($p:ty, $rq:expr) => {{ let f = hd.client(addr(PORT)).call::<$p>($rq); let mut m = w.ex.handle().spawn_monitor(f); w.wait(&mut m) }} }
        let body = b"GET /m HTTP/1.1\r\n\r\n".to_vec();
        let (r, want) = match vs::choose(7) {
            0 => { tags.push(b'g'); (call!(Proc<M0, Bare, Res>, Bare { body: vec![] }), ok(b"g")) }
            1 => { tags.push(b'h'); (call!(Proc<M1, Bare, Res>, Bare { body }), ok(b"")) }
            2 => { let b = vec![vs::u8(), b'\n']; posts.push(b.clone()); (call!(Proc<M3, Bare, Res>, Bare { body: b }), h.reply.clone()) }
            3 => (call!(Proc<M4, Bare, Res>, Bare { body }), Res::MethodNotAllowed),
            4 => (call!(Proc<RtUp, Bare, Res>, Bare { body }), Res::NotFound),
            5 => (call!(Proc<RtV8, PV<u16>, Res>, PV { path: (256 + vs::u8() as u16,), body }), Res::BadRequest),
            _ => { vees += 1; (call!(Proc<RtV8, PV<u16>, Res>, PV { path: (200,), body }), ok(b"vee")) }
        };
        match r { Some(Ok(r)) => vs::check(r == want, 341), Some(Err(_)) => vs::fail(342), None => vs::fail(343) }
        w.quiesce();
    }
    vs::check(net().connects.len() == 1, 344);
    vs::check(*l.lock().unwrap() == tags && h.count() == posts.len() && v.count() == vees, 345);
    for i in 0..posts.len() { vs::check(h.get(i).body == posts[i], 346); }
    vs::cover(1);
}
/// Calls of a pool which is gone, or goes away meanwhile.
#[no_mangle]
pub extern "C" fn h_pool_gone() {
    let mut w = World::new();
    let ls = net().raw_listen(PORT);
    let p = RpcClientPool::with_pool_size(1);
    let hd = p.handle();
    type P = Proc<M3, Bare, Res>;
    let (tx, rx) = fibers::sync::oneshot::channel::<()>();
    w.ex.handle().spawn(p.select2(rx).then(|_| Ok(())));
    let mut m = w.ex.handle().spawn_monitor(hd.client(addr(PORT)).call::<P>(Bare { body: b"1".to_vec() }));
    let early = vs::choose(4) as usize;
    w.steps(early);
    if vs::boolean() { w.quiesce(); }
    let _ = tx.send(());
    w.quiesce();
    match net().raw_accept(ls) {
        Some(c) => {
            // a call in progress is not affected
            vs::cover(1);
            vs::check(!net().raw_take(c).is_empty(), 350);
            net().raw_send(c, b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\na");
            match w.wait(&mut m) { Some(Ok(r)) => vs::check(r == ok(b"a"), 351), _ => vs::fail(352) }
        }
        None => { vs::cover(2); match w.wait(&mut m) { Some(Err(_)) => {} _ => vs::fail(353) } }
    }
    let before = net().connects.len();
    let mut m = w.ex.handle().spawn_monitor(hd.client(addr(PORT)).call::<P>(Bare { body: vec![] }));
    match w.wait(&mut m) { Some(Err(_)) => {} _ => vs::fail(354) }
    w.quiesce();
    vs::check(net().connects.len() == before && net().live_streams == 0, 355);
    vs::cover(10);
}

// ---- life of a server -------------------------------------------------------------------------------
/// A server which cannot listen says so; two servers do not mix; a dropped one stops accepting, but
/// finishes what it has begun.
#[no_mangle]
pub extern "C" fn h_srv_life() {
    let mut w = World::new();
    let l = log();
    let g = Gate(Arc::new(Mutex::new(Vec::new())));
    match vs::choose(3) {
        0 => {
            let _ = net().raw_listen(PORT);
            let mut b = w.builder();
            if b.register(Tag(b'g', l.clone()), proc::<RtG2, Bare, Res>()).is_err() { vs::fail(1); return; }
            let s = b.start(w.ex.handle());
            let mut m = w.ex.handle().spawn_monitor(s);
            match w.wait(&mut m) { Some(Err(_)) => vs::cover(1), _ => vs::fail(360) }
        }
        1 => {
            let mut b = w.builder();
            if b.register(Tag(b'1', l.clone()), proc::<RtG2, Bare, Res>()).is_err() { vs::fail(1); return; }
            let mut b2 = RpcServerBuilder::new(addr(PORT + 1));
            let both = vs::boolean();
            if both && b2.register(Tag(b'2', l.clone()), proc::<RtG2, Bare, Res>()).is_err() { vs::fail(1); return; }
            w.start(b);
            w.start(b2);
            let c = [w.raw(), match net().raw_connect(PORT + 1) { Some(c) => c, None => { vs::fail(361); return; } }];
            let first = vs::choose(2) as usize;
            for k in 0..2 {
                let i = (first + k) % 2;
                let out = w.exchange(c[i], b"GET /g HTTP/1.1\r\n\r\n");
                match parse_http(&out, false) {
                    Some(r) => vs::check(if i == 0 { r.status == 200 && r.body == b"1" } else if both { r.status == 200 && r.body == b"2" } else { is_problem(&r, 404) }, 362),
                    None => vs::fail(363),
                }
            }
            vs::cover(2);
        }
        _ => {
            let mut b = w.builder();
            if b.register(g.clone(), proc::<RtE, EReq, Res>()).is_err() { vs::fail(1); return; }
            let (tx, rx) = fibers::sync::oneshot::channel::<()>();
            let s = b.start(w.ex.handle());
            w.ex.handle().spawn(s.select2(rx).then(|_| Ok(())));
            w.quiesce();
            let c = w.raw();
            let m = b"POST /e/7 HTTP/1.1\r\nContent-Length: 2\r\n\r\nab";
            let cut = vs::len(m.len() as u64);
            vs::check(w.exchange(c, &m[..cut]).is_empty(), 364);
            let _ = tx.send(());
            w.quiesce();
            vs::check(net().raw_connect(PORT).is_none(), 365);
            vs::check(w.exchange(c, &m[cut..]).is_empty(), 366);
            vs::check(release(&g, 7), 367);
            let out = w.settle(c);
            match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == [7, b'a', b'b'], 368), None => vs::fail(369) }
            net().raw_close(c);
            w.quiesce();
            vs::check(net().live_streams == 0, 370);
            vs::cover(3);
        }
    }
}

// ---- declared body lengths ------------------------------------------------------------------------
route!(RtL, Post, Val("l"));
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Len { #[serde(skip)] pub body: Vec<u8>, #[serde(skip)] pub len: Option<u64> }
impl RpcRequest for Len {
    fn body(&mut self) -> Vec<u8> { std::mem::replace(&mut self.body, Vec::new()) }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        self.len = content_length(&body);
        Box::new(body.read_all_bytes().map(move |(b, v)| { self.body = v; (b, self) }).map_err(Error::from))
    }
}
/// Requests can see the length of their body before reading it.
#[no_mangle]
pub extern "C" fn h_content_length() {
    let mut w = World::new();
    let h: Rec<Len, Res> = Rec::new(ok(b"l"));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<RtL, Len, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let n = [0usize, 1, 2, 9, 10, 99, 100, 1000, 1024, 4096][vs::choose(10) as usize];
    let mut body: Vec<u8> = (0..n).map(|i| (i * 11 % 253) as u8).collect();
    if n > 0 { body[n / 2] = vs::u8(); }
    if vs::boolean() {
        match w.call::<RtL, Len, Res>(Len { body: body.clone(), len: None }) { Some(Ok(r)) => vs::check(r == ok(b"l"), 371), _ => vs::fail(372) }
    } else {
        let c = w.raw();
        let mut m = b"POST /l HTTP/1.1\r\n".to_vec();
        if n > 0 || vs::boolean() { m.extend_from_slice(b"content-LENGTH: "); m.extend_from_slice(n.to_string().as_bytes()); m.extend_from_slice(b"\r\n"); }
        m.extend_from_slice(b"\r\n");
        let mut out = w.exchange(c, &m);
        out.extend(w.exchange(c, &body));
        match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == b"l", 373), None => vs::fail(374) }
    }
    vs::check(h.count() == 1 && h.get(0) == Len { body, len: Some(n as u64) }, 375);
    vs::cover(1);
}

// ---- entry points with many segments -------------------------------------------------------------
macro_rules! deep {
    ($n:ident, $m:ident, $rq:ty, $e:expr) => {
        pub struct $n;
        impl Procedure for $n {
            type Request = $rq;
            type Response = Res;
            fn method() -> HttpMethod { HttpMethod::$m }
            fn entry_point() -> EntryPoint { $e }
        }
        impl HandleRpc<$n> for Rec<$rq, Res> {
            type Future = Later<Res>;
            fn handle_rpc(self, r: $rq) -> Later<Res> { self.seen.lock().unwrap().push(r); later(self.reply) }
        }
    };
}
type D5 = Req<(u8, String, bool, i16, String), Nil, Nil>;
type D3 = Req<(String, u8, String), Nil, Nil>;
deep!(Deep1, Get, D5, htrpc_entry_point!["d", _, "e", _, "f", _, "g", _, "h", _]);
deep!(Deep2, Get, D3, htrpc_entry_point!["d", "1", "e", _, "f", "true", "g", _, "h", _]);
deep!(Deep0, Post, Bare, htrpc_entry_point![]);
/// Many segments, made with the macro: arguments arrive in order; constants are preferred.
#[no_mangle]
pub extern "C" fn h_route_deep() {
    let mut w = World::new();
    let (h1, h2) = (Rec::<D5, Res>::new(ok(b"1")), Rec::<D3, Res>::new(ok(b"2")));
    let h0 = Rec::<Bare, Res>::new(ok(b"0"));
    let mut b = w.builder();
    let (r1, r2) = [(true, true), (true, false), (false, true)][vs::choose(3) as usize];
    if r1 && b.register(h1.clone(), Deep1).is_err() { vs::fail(1); return; }
    if r2 && b.register(h2.clone(), Deep2).is_err() { vs::fail(1); return; }
    if b.register(h0.clone(), Deep0).is_err() { vs::fail(1); return; }
    w.start(b);
    let mut s = ["a/b".to_string(), "".to_string()];
    let mut n = (1u8, 300i16);
    let mut t = true;
    match vs::choose(5) {
        0 => { let v = vs::u8(); vs::assume(v > 0x20 && v < 0x7f && v != b'.'); s[0] = String::from_utf8(vec![v]).unwrap_or_default(); }
        1 => { let v = vs::u8(); vs::assume(v > 0x20 && v < 0x7f && v != b'.'); s[1] = String::from_utf8(vec![v]).unwrap_or_default(); }
        2 => n.0 = vs::u8(),
        3 => n.1 = -128 + vs::u8() as i16,
        _ => t = vs::boolean(),
    }
    let rq = req((n.0, s[0].clone(), t, n.1, s[1].clone()), Nil {}, Nil {});
    let mut c = RpcClient::new(addr(PORT));
    let f = c.call::<Deep1>(rq.clone());
    let mut m = w.ex.handle().spawn_monitor(f);
    let r = w.wait(&mut m);
    let second = r2 && n.0 == 1 && t;
    if second && n.1 >= 0 && n.1 < 256 {
        vs::cover(2);
        match r { Some(Ok(r)) => vs::check(r == ok(b"2"), 380), _ => vs::fail(381) }
        vs::check(h1.count() == 0 && h2.count() == 1 && h2.get(0).path == (s[0].clone(), n.1 as u8, s[1].clone()), 382);
    } else if second {
        match r { Some(Ok(r)) => vs::check(r == Res::BadRequest, 383), _ => vs::fail(384) }
        vs::check(h1.count() == 0 && h2.count() == 0, 385);
    } else if r1 {
        vs::cover(1);
        match r { Some(Ok(r)) => vs::check(r == ok(b"1"), 386), _ => vs::fail(387) }
        vs::check(h1.count() == 1 && h2.count() == 0 && h1.get(0) == rq, 388);
    } else {
        vs::cover(3);
        match r { Some(Ok(r)) => vs::check(r == Res::NotFound, 389), _ => vs::fail(390) }
    }
    let f = c.call::<Deep0>(Bare { body: vec![] });
    let mut m = w.ex.handle().spawn_monitor(f);
    match w.wait(&mut m) { Some(Ok(r)) => vs::check(r == ok(b"0") && h0.count() == 1, 391), _ => vs::fail(392) }
    if let Ok(Async::NotReady) = m.poll() {}
}
