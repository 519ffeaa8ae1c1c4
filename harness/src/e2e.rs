//! Delivery between the real client and the real server.
use crate::args::*;
use crate::env::net;
use crate::route;
use crate::vs;
use crate::world::*;
use fibers::Executor;
use futures::Future;
use htrpc::*;

route!(M0, Get, Val("m"));
route!(M1, Head, Val("m"));
route!(M2, Put, Val("m"));
route!(M3, Post, Val("m"));
route!(M4, Delete, Val("m"));
route!(M5, Options, Val("m"));
route!(M6, Patch, Val("m"));
route!(M7, Trace, Val("m"));
route!(M8, Connect, Val("m"));

type R = Req<(), Nil, Nil>;
fn body(b: Vec<u8>) -> R { Req { path: (), query: Nil {}, header: Nil {}, body: b } }
fn go<Rt: Route>(head: bool, reply: Res, b: Vec<u8>, bad: bool) {
    let mut w = World::new();
    let h = Rec::new(reply.clone());
    let mut sb = w.builder();
    if sb.register(h.clone(), proc::<Rt, R, Res>()).is_err() { vs::fail(1); return; }
    w.start(sb);
    let mut c = RpcClient::new(addr(PORT));
    let f = c.call::<Proc<Rt, R, Res>>(body(b.clone()));
    let mut m = fibers::Spawn::spawn_monitor(&w.ex.handle(), f);
    match w.wait(&mut m) {
        None => vs::fail(90),
        Some(Err(_)) => { vs::cover(2); vs::check(bad, 91); vs::check(h.count() == 1, 92); }
        Some(Ok(r)) => {
            vs::cover(1);
            vs::check(!bad, 93);
            vs::check(h.count() == 1 && h.get(0).body == b, 94);
            let want = if head {
                match reply { Res::Ok { header, .. } => Res::Ok { header, body: vec![] }, Res::Created { header, .. } => Res::Created { header, body: vec![] }, r => r }
            } else { reply };
            vs::check(r == want, 95);
        }
    }
    w.quiesce();
    vs::check(net().live_streams == 0, 96);
}
fn go_m(reply: Res, b: Vec<u8>, bad: bool) {
    match vs::choose(9) {
        0 => go::<M0>(false, reply, b, bad),
        1 => go::<M1>(true, reply, b, bad),
        2 => go::<M2>(false, reply, b, bad),
        3 => go::<M3>(false, reply, b, bad),
        4 => go::<M4>(false, reply, b, bad),
        5 => go::<M5>(false, reply, b, bad),
        6 => go::<M6>(false, reply, b, bad),
        7 => go::<M7>(false, reply, b, bad),
        _ => go::<M8>(false, reply, b, bad),
    }
}
fn hdr(r: Option<String>) -> ResHeader { ResHeader { r } }
/// Any method, request body, reply variant, reply body.
#[no_mangle]
pub extern "C" fn h_e2e_body() {
    let n = vs::len(vs::bound(2, 3));
    let b = vs::bytes(n);
    let n = vs::len(vs::bound(2, 3));
    let rb = vs::bytes(n);
    let reply = match vs::choose(4) {
        0 => Res::Ok { header: hdr(None), body: rb },
        1 => Res::Created { header: hdr(Some("h".to_string())), body: rb },
        2 => Res::NotFound,
        _ => Res::BadRequest,
    };
    go_m(reply, b, false);
}
/// Response headers: delivered exactly, or the call fails; never something else.
#[no_mangle]
pub extern "C" fn h_e2e_resheader() {
    let s = vs::string(vs::bound(3, 4));
    vs::note(0, s.as_bytes());
    let bad = bad_value(s.as_bytes());
    go::<M3>(false, Res::Ok { header: hdr(Some(s)), body: b"b".to_vec() }, vec![], bad);
}
/// The same with long values.
#[no_mangle]
pub extern "C" fn h_resheader_long() {
    let s = crate::args::long_text(2048);
    let bad = bad_value(s.as_bytes());
    go::<M3>(false, Res::Created { header: hdr(Some(s)), body: b"b".to_vec() }, vec![], bad);
}
fn pattern(n: usize) -> Vec<u8> { (0..n).map(|i| (i * 7 % 251) as u8).collect() }
/// Sizes around the buffer limits, however the transport splits the bytes.
#[no_mangle]
pub extern "C" fn h_e2e_frag() {
    let sizes = [0usize, 1, 100, 1023, 1025, 3000, 9000];
    let k = vs::choose(9);
    let (n, m) = if k < 7 { (sizes[k as usize], 10) } else { (10, sizes[k as usize - 2]) };
    let caps = [1usize, 2, 3, 17, 500, usize::MAX];
    let wc = caps[vs::choose(6) as usize];
    let rc = caps[vs::choose(6) as usize];
    let big = n.max(m);
    // keep the number of steps small: byte-wise transport only for the small messages
    vs::assume(big <= 100 || (wc >= 500 && rc >= 500) || vs::thorough());
    net().wcap = wc;
    net().rcap = rc;
    let mut b = pattern(n);
    let mut rb = pattern(m);
    let i = n / 2;
    if n > 0 { b[i] = vs::u8(); }
    if m > 0 { rb[0] = vs::u8(); }
    go::<M3>(false, Res::Ok { header: hdr(Some("zz".to_string())), body: rb }, b, false);
}
/// The response arrives in two pieces, split at any byte; the request in two pieces, split at any byte.
#[no_mangle]
pub extern "C" fn h_e2e_split() {
    let mut w = World::new();
    let h = Rec::new(Res::Created { header: hdr(Some("v w".to_string())), body: b"0123456789".to_vec() });
    let mut sb = w.builder();
    if sb.register(h.clone(), proc::<M3, R, Res>()).is_err() { vs::fail(1); return; }
    w.start(sb);
    let mut c = RpcClient::new(addr(PORT));
    let f = c.call::<Proc<M3, R, Res>>(body(b"abcdefgh".to_vec()));
    let mut m = fibers::Spawn::spawn_monitor(&w.ex.handle(), f);
    let server_side = vs::boolean();
    let cut = vs::u8() as usize;
    let cut = vs::pick(cut as u64) as usize;
    vs::assume(cut < 120);
    // find the program's two stream ends: the connecting one first
    // hold the flow at `cut` bytes until everything waits, then let it go
    let mut idle = 0;
    while idle < IDLE {
        let n = net();
        let before = n.acts;
        for i in 0..n.fds.len() {
            if let crate::env::Kind::Stream(ref mut s) = n.fds[i] {
                if (s.local == PORT) == server_side && s.gate == usize::MAX { s.gate = cut; }
            }
        }
        w.steps(1);
        idle = if net().acts == before { idle + 1 } else { 0 };
    }
    let n = net();
    for i in 0..n.fds.len() { if let crate::env::Kind::Stream(ref mut s) = n.fds[i] { s.gate = usize::MAX; } }
    let done = match w.wait(&mut m) {
        Some(Err(_)) => { vs::fail(97); return; }
        Some(Ok(v)) => Some(v),
        None => None,
    };
    match done {
        None => vs::fail(98),
        Some(r) => vs::check(r == Res::Created { header: hdr(Some("v w".to_string())), body: b"0123456789".to_vec() }, 99),
    }
    vs::check(h.count() == 1 && h.get(0).body == b"abcdefgh", 100);
    vs::cover(if server_side { 1 } else { 2 });
}

/// Large bodies in either direction.
#[no_mangle]
pub extern "C" fn h_e2e_size() {
    let n = [8095usize, 8096, 8097, 16384, 32768, 65535, 65536, 70000, 131073, 1048577, 4194305][vs::choose(11) as usize];
    let pattern = |n: usize| {
        if n < 100_000 { return pattern(n); }
        // few distinct places, the rest all the same
        let mut v = vec![0x5a; n];
        let mut i = 1;
        while i < n { v[i] = i as u8 ^ 0x33; i = i * 3 / 2 + 1; }
        v
    };
    let (mut b, mut rb) = if vs::boolean() { (pattern(n), vec![1]) } else { (vec![1], pattern(n)) };
    let i = b.len() - 1;
    b[i] = vs::u8();
    let i = rb.len() - 1;
    rb[i] = vs::u8();
    go::<M3>(false, Res::Ok { header: hdr(Some("zz".to_string())), body: rb }, b, false);
}
