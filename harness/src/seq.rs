//! Several calls or requests one after the other: nothing of one shows in the next.
use crate::e2e::M0;
use crate::env::net;
use crate::route;
use crate::routing;
use crate::shapes::{Plain, CODES};
use crate::vs;
use crate::world::*;
use fibers::{Executor, Spawn};
use htrpc::pool::RpcClientPool;
use htrpc::*;
use std::sync::{Arc, Mutex};

/// Three requests with any two of the paths and methods, the first one repeated at the end.
#[no_mangle]
pub extern "C" fn h_route_seq() {
    let mut w = World::new();
    let l = log();
    let mut b = w.builder();
    let reg = [true; routing::N];
    for i in 0..routing::N { if !routing::register(&mut b, i, i as u8 + 1, &l) { vs::fail(50); } }
    w.start(b);
    let x = vs::u8();
    vs::assume((x >= b'a' && x <= b'z') || (x >= b'A' && x <= b'Z') || x == b'-' || x == b'%');
    let pick = || {
        let m: &[u8] = [&b"GET"[..], b"POST", b"PUT"][vs::choose(3) as usize];
        (m, routing::split([&b"a"[..], b"a/b", b"a/x", b"y/c", b"", b"y/b/c"][vs::choose(6) as usize]))
    };
    let (m0, p0) = pick();
    let (m1, mut p1) = pick();
    // one arbitrary character in the second one
    let n = p1.len() - 1;
    if !p1[n].is_empty() { p1[n][0] = x; }
    let one = vs::boolean();
    let c = w.raw();
    let mut ran = vec![];
    for &(m, p) in [(m0, &p0), (m1, &p1), (m0, &p0), (m0, &p1), (m1, &p0)].iter() {
        let mut t = m.to_vec();
        t.push(b' ');
        for s in p.iter() { t.push(b'/'); for &b in s { if b == b'%' { t.extend_from_slice(b"%25") } else { t.push(b) } } }
        t.extend_from_slice(b" HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
        let c = if one { c } else { w.raw() };
        let out = w.exchange(c, &t);
        let h = match parse_http(&out, false) { Some(h) => h, None => { vs::fail(51); return; } };
        vs::check(h.rest.is_empty(), 52);
        match routing::expected(&reg, m, p) {
            Ok(i) => { vs::cover(1); ran.push(i as u8 + 1); vs::check(h.status == 200 && h.body == [i as u8 + 1], 53); }
            Err(s) => { vs::cover(s as u32); vs::check(h.status == s && is_problem(&h, s), 54); }
        }
        vs::check(*l.lock().unwrap() == ran, 55);
    }
}

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct SQ { a: Option<String>, b: i32 }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct SH { #[serde(rename = "x-h")] h: Option<String>, #[serde(rename = "x-n")] n: Option<u16> }
pub type SReq = Req<(String, u8), SQ, SH>;
route!(RtSeq, Post, Val("s"), Var, Var);
/// Keeps what it gets and answers with the body, and with the header as header.
#[derive(Clone)]
struct Echo(Arc<Mutex<Vec<SReq>>>);
fn answer(r: &SReq) -> Plain { Plain { status: if r.path.1 < 10 { 200 } else { 201 }, header: ResHeader { r: r.header.h.clone() }, body: r.body.clone() } }
impl HandleRpc<Proc<RtSeq, SReq, Plain>> for Echo {
    type Future = Later<Plain>;
    fn handle_rpc(self, r: SReq) -> Later<Plain> { let a = answer(&r); self.0.lock().unwrap().push(r); later(a) }
}
fn value(k: u64, c: &str) -> SReq {
    let s = |t: &str| Some(format!("{}{}", t, c));
    match k {
        0 => SReq { path: (format!("p{}", c), 7), query: SQ { a: s("v&"), b: -5 }, header: SH { h: s("h"), n: Some(80) }, body: b"long body here".to_vec() },
        1 => SReq { path: (format!("{}/%", c), 200), query: SQ { a: None, b: 0 }, header: SH { h: None, n: None }, body: vec![] },
        2 => SReq { path: ("p".to_string(), 8), query: SQ { a: Some("".to_string()), b: 2_000_000_000 }, header: SH { h: Some("".to_string()), n: Some(65535) }, body: c.as_bytes().to_vec() },
        _ => SReq { path: (format!("{}", c), 7), query: SQ { a: s("="), b: 1 }, header: SH { h: None, n: Some(0) }, body: vec![0] },
    }
}
/// Four calls of one procedure with changing arguments, with one client, several, or pooled.
#[no_mangle]
pub extern "C" fn h_args_seq() {
    let mut w = World::new();
    let h = Echo(Arc::new(Mutex::new(vec![])));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<RtSeq, SReq, Plain>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let pool = RpcClientPool::new();
    let hd = pool.handle();
    w.ex.handle().spawn(pool);
    let mode = vs::choose(3);
    let x = vs::u8();
    vs::assume(x > 0x20 && x < 0x7f && x != b'.');
    let c = String::from_utf8(vec![x]).unwrap_or_default();
    let i = vs::choose(4);
    let j = vs::choose(4);
    let mut client = RpcClient::new(addr(PORT));
    for (n, rq) in [value(i, &c), value(j, "z"), value(i, &c), value(j, &c)].iter().enumerate() {
        let mut m = match mode {
            0 => w.ex.handle().spawn_monitor(client.call::<Proc<RtSeq, SReq, Plain>>(rq.clone())),
            1 => w.ex.handle().spawn_monitor(RpcClient::new(addr(PORT)).call::<Proc<RtSeq, SReq, Plain>>(rq.clone())),
            _ => w.ex.handle().spawn_monitor(hd.client(addr(PORT)).call::<Proc<RtSeq, SReq, Plain>>(rq.clone())),
        };
        match w.wait(&mut m) { Some(Ok(r)) => vs::check(r == answer(rq), 60), _ => vs::fail(61) }
        let seen = h.0.lock().unwrap();
        vs::check(seen.len() == n + 1 && seen[n] == *rq, 62);
    }
    vs::cover(1);
}
route!(RtFs, Post, Val("st"));
/// Handlers answering with any status: the connection serves on.
#[no_mangle]
pub extern "C" fn h_frame_status() {
    let mut w = World::new();
    let code = CODES[vs::choose(CODES.len() as u64) as usize];
    let x = vs::u8();
    let body = [vec![], vec![x], vec![x; 40]][vs::choose(3) as usize].clone();
    let h: Rec<Bare, Plain> = Rec::new(Plain { status: code, header: ResHeader { r: Some("q".to_string()) }, body: body.clone() });
    let l = log();
    let mut b = w.builder();
    if b.register(h.clone(), proc::<RtFs, Bare, Plain>()).is_err() { vs::fail(1); return; }
    if b.register(Tag(7, l.clone()), proc::<M0, Bare, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let c = w.raw();
    for n in 0..2 {
        net().raw_send(c, b"POST /st HTTP/1.1\r\nContent-Length: 1\r\n\r\n");
        let out = w.exchange(c, &[x]);
        match parse_http(&out, false) {
            Some(r) => {
                vs::check(r.status == code && r.body == body && r.rest.is_empty(), 65);
                vs::check(r.get("x-r") == Some(&b"q"[..]) && r.count("content-length") == 1, 66);
            }
            None => vs::fail(67),
        }
        vs::check(h.count() == n + 1 && h.get(n).body == [x] && !net().raw_eof(c), 68);
        let out = w.exchange(c, b"GET /m HTTP/1.1\r\n\r\n");
        match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == [7] && r.rest.is_empty() && l.lock().unwrap().len() == n + 1, 69), None => vs::fail(70) }
    }
    net().raw_close(c);
    w.quiesce();
    vs::check(net().live_streams == 0, 71);
    vs::cover(1);
}

route!(RtLa, Get, Val("g"));
route!(RtLb, Get, Val("h"));
/// Two servers started, asked and stopped in any order: each one serves what was registered for
/// it, while it runs; what was begun is finished; addresses can be used again.
#[no_mangle]
pub extern "C" fn h_srv_again() {
    let mut w = World::new();
    let l = log();
    let mut gen = 0u8;
    // (tag of the running server, its second procedure is there, how to stop it)
    let mut run: [Option<(u8, bool, fibers::sync::oneshot::Sender<()>)>; 2] = [None, None];
    macro_rules! start { ($i:expr) => {{
        gen += 1;
        let both = gen % 2 == 0;
        let mut b = RpcServerBuilder::new(addr(PORT + $i as u16));
        if b.register(Tag(gen, l.clone()), proc::<RtLa, Bare, Res>()).is_err() { vs::fail(1); return; }
        if both && b.register(Tag(100 + gen, l.clone()), proc::<RtLb, Bare, Res>()).is_err() { vs::fail(1); return; }
        let (tx, rx) = fibers::sync::oneshot::channel::<()>();
        let s = b.start(w.ex.handle());
        w.ex.handle().spawn(futures::Future::then(futures::Future::select2(s, rx), |_| Ok(())));
        w.quiesce();
        run[$i] = Some((gen, both, tx));
    }} }
    start!(0);
    start!(1);
    let open = [w.raw(), match net().raw_connect(PORT + 1) { Some(c) => c, None => { vs::fail(72); return; } }];
    for &c in &open { vs::check(w.exchange(c, b"GET /g HT").is_empty(), 73); }
    for _ in 0..vs::bound(4, 6) {
        let i = vs::choose(2) as usize;
        match vs::choose(3) {
            0 => match net().raw_connect(PORT + i as u16) {
                None => { vs::cover(1); vs::check(run[i].is_none(), 74); }
                Some(c) => match run[i] {
                    None => vs::fail(75),
                    Some((tag, both, _)) => {
                        vs::cover(2);
                        let x = vs::u8();
                        vs::assume(x == b'g' || x == b'h' || x == b'G' || x == b'q');
                        net().raw_send(c, b"GET /");
                        net().raw_send(c, &[x]);
                        let out = w.exchange(c, b" HTTP/1.1\r\n\r\n");
                        match parse_http(&out, false) {
                            Some(r) => vs::check(if x == b'g' { r.status == 200 && r.body == [tag] } else if both && x == b'h' { r.status == 200 && r.body == [100 + tag] } else { is_problem(&r, 404) }, 76),
                            None => vs::fail(77),
                        }
                        net().raw_close(c);
                    }
                },
            },
            1 => match run[i].take() { Some((_, _, tx)) => { vs::cover(3); let _ = tx.send(()); w.quiesce(); } None => vs::assume(false) },
            _ => { vs::assume(run[i].is_none()); vs::cover(4); start!(i); }
        }
    }
    for i in 0..2 {
        let out = w.exchange(open[i], b"TP/1.1\r\n\r\n");
        match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == [i as u8 + 1] && r.rest.is_empty(), 78), None => vs::fail(79) }
        net().raw_close(open[i]);
    }
    w.quiesce();
    vs::check(net().live_streams == 0, 80);
    vs::cover(10);
}
/// Hundreds of connections one after the other, good ones and bad ones.
#[no_mangle]
pub extern "C" fn h_srv_many() {
    let mut w = World::new();
    let l = log();
    let mut b = w.builder();
    if b.register(Tag(7, l.clone()), proc::<RtLa, Bare, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let n = vs::bound(1100, 2100) as usize;
    let x = vs::u8();
    let mode = vs::choose(3);
    let mut kept = vec![];
    for i in 0..n {
        let c = match net().raw_connect(PORT) { Some(c) => c, None => { vs::fail(81); return; } };
        match i % 8 {
            1 => { net().raw_send(c, &[x, 1, 2]); net().raw_send(c, b"\r\n\r\n"); w.quiesce(); }
            3 => { net().raw_send(c, b"GET /g"); w.quiesce(); net().raw_reset(c); w.quiesce(); continue; }
            5 => {}
            _ => {
                let out = w.exchange(c, b"GET /g HTTP/1.1\r\n\r\n");
                match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == [7] && r.rest.is_empty(), 82), None => vs::fail(83) }
            }
        }
        // closed at once, or later
        if mode == 0 || (mode == 1 && i % 16 != 0) { net().raw_close(c); } else { kept.push(c); if kept.len() > 40 { net().raw_close(kept.remove(0)); } }
    }
    for &c in &kept { net().raw_close(c); }
    for _ in 0..3 { w.quiesce(); }
    vs::check(net().live_streams == 0, 84);
    vs::cover(1);
}

route!(RtXg, Get, Val("g"));
route!(RtXh, Head, Val("g"));
route!(RtXp, Post, Val("g"));
/// Requests with long targets and many headers between short ones: the framing does not depend on it.
#[no_mangle]
pub extern "C" fn h_frame_long() {
    let mut w = World::new();
    let l = log();
    let h: Rec<Bare, Res> = Rec::new(ok(b"posted"));
    let mut b = w.builder();
    if b.register(Tag(b'g', l.clone()), proc::<RtXg, Bare, Res>()).is_err() { vs::fail(1); return; }
    if b.register(Tag(b'h', l.clone()), proc::<RtXh, Bare, Res>()).is_err() { vs::fail(1); return; }
    if b.register(h.clone(), proc::<RtXp, Bare, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let c = w.raw();
    let x = vs::u8();
    vs::assume(x > 0x20 && x < 0x7f && x != b'#');
    let n = [0usize, 120, 200, 255, 256, 500, 1023, 1024, 2000, 5000][vs::choose(10) as usize];
    let hs = [0usize, 5, 20][vs::choose(3) as usize];
    let at = vs::choose(2) as usize;
    let (mut tags, mut posts) = (vec![], 0);
    for i in 0..4 {
        let k = if i < 3 { vs::choose(4) as usize } else { 0 };
        let mut m = [&b"GET /g"[..], b"HEAD /g", b"POST /g", b"HEAD /none"][k].to_vec();
        if i == at {
            m.push(b'?');
            for _ in 0..n { m.push(b'q'); }
            m.push(x);
        }
        m.extend_from_slice(b" HTTP/1.1\r\nContent-Length: 2\r\n");
        if i == at {
            for j in 0..hs { m.extend_from_slice(b"x-"); m.extend_from_slice(j.to_string().as_bytes()); m.extend_from_slice(b": some value "); m.push(x); m.extend_from_slice(b"\r\n"); }
        }
        m.extend_from_slice(b"\r\n\r\n");
        let out = w.exchange(c, &m);
        match parse_http(&out, k % 2 == 1) {
            Some(r) => vs::check(r.status == if k == 3 { 404 } else { 200 } && r.rest.is_empty() && r.body == [&b"g"[..], b"", b"posted", b""][k], 85),
            None => vs::fail(86),
        }
        match k { 0 => tags.push(b'g'), 1 => tags.push(b'h'), 2 => posts += 1, _ => {} }
        vs::check(*l.lock().unwrap() == tags && h.count() == posts && !net().raw_eof(c), 87);
    }
    vs::cover(1);
}
