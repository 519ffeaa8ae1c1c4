//! Several connections at once; bodies which handlers do not read.
use crate::env::net;
use crate::route;
use crate::vs;
use crate::world::*;
use fibers::sync::oneshot;
use fibers::{Executor, Spawn};
use futures::{Async, Future, Poll};
use htrpc::types::NeverFail;
use htrpc::*;
use std::sync::{Arc, Mutex};

route!(RtE, Post, Val("e"), Var);
route!(RtG, Get, Val("g"));
pub type EReq = Req<(u8,), Nil, Nil>;
/// Echoes path and body, but only when the harness says so.
#[derive(Clone)]
pub struct Gate(pub Arc<Mutex<Vec<(u8, oneshot::Sender<()>)>>>);
pub struct Gated(oneshot::Receiver<()>, Option<Res>);
impl Future for Gated {
    type Item = Res;
    type Error = NeverFail;
    fn poll(&mut self) -> Poll<Res, NeverFail> {
        match self.0.poll() {
            Ok(Async::NotReady) => Ok(Async::NotReady),
            _ => match self.1.take() { Some(r) => Ok(Async::Ready(r)), None => { vs::fail(260); Ok(Async::NotReady) } },
        }
    }
}
impl HandleRpc<Proc<RtE, EReq, Res>> for Gate {
    type Future = Gated;
    fn handle_rpc(self, r: EReq) -> Gated {
        let (tx, rx) = oneshot::channel();
        self.0.lock().unwrap().push((r.path.0, tx));
        let mut b = vec![r.path.0];
        b.extend_from_slice(&r.body);
        Gated(rx, Some(ok(&b)))
    }
}
pub fn release(g: &Gate, id: u8) -> bool {
    let mut v = g.0.lock().unwrap();
    for i in 0..v.len() { if v[i].0 == id { let (_, tx) = v.remove(i); let _ = tx.send(()); return true; } }
    false
}
/// Interleaved connections: each gets exactly its own answers, whatever the others do.
#[no_mangle]
pub extern "C" fn h_conc_raw() {
    let mut w = World::new();
    let g = Gate(Arc::new(Mutex::new(Vec::new())));
    let l = log();
    let mut b = w.builder();
    if b.register(g.clone(), proc::<RtE, EReq, Res>()).is_err() { vs::fail(1); return; }
    if b.register(Tag(b'g', l.clone()), proc::<RtG, Bare, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let x = vs::u8();
    // two slow callers, each message in two pieces, and a bad neighbour
    let mut m = [b"POST /e/1 HTTP/1.1\r\nContent-Length: 2\r\n\r\na?".to_vec(), b"POST /e/2 HTTP/1.1\r\nContent-Length: 2\r\n\r\nb?".to_vec()];
    for m in m.iter_mut() { let n = m.len(); m[n - 1] = x; }
    let c = [w.raw(), w.raw(), w.raw()];
    let mut at = [0usize; 2];
    let mut released = [false; 2];
    let mut bad = 0;
    let mut answered = [false; 2];
    for _ in 0..vs::bound(6, 8) {
        match vs::choose(5) {
            k if k < 2 => { // next piece of a message
                let k = k as usize;
                vs::assume(at[k] < m[k].len());
                let to = if at[k] == 0 { 30 } else { m[k].len() };
                net().raw_send(c[k], &m[k][at[k]..to]);
                at[k] = to;
            }
            k if k < 4 => { // the handler finishes
                let k = k as usize - 2;
                vs::assume(at[k] == m[k].len() && !released[k]);
                vs::check(release(&g, k as u8 + 1), 261);
                released[k] = true;
            }
            _ => { // the neighbour does something bad
                vs::assume(bad < 2);
                match (vs::choose(3), bad) {
                    (0, _) => net().raw_send(c[2], b"GET /g HT"),
                    (1, 0) => net().raw_send(c[2], b"\0\0 bad\r\n\r\n"),
                    (2, 0) => { net().raw_reset(c[2]); bad = 2; }
                    _ => vs::assume(false),
                }
                bad += 1;
            }
        }
        w.quiesce();
        for k in 0..2 {
            let out = net().raw_take(c[k]);
            if released[k] && !answered[k] {
                answered[k] = true;
                vs::cover(k as u32 + 1);
                match parse_http(&out, false) {
                    Some(r) => vs::check(r.status == 200 && r.rest.is_empty() && r.body == [k as u8 + 1, m[k][m[k].len() - 2], x], 262),
                    None => vs::fail(263),
                }
            } else { vs::check(out.is_empty(), 264); }
        }
    }
    // and new connections are served at once
    let d = w.raw();
    let out = w.exchange(d, b"GET /g HTTP/1.1\r\n\r\n");
    match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == b"g", 265), None => vs::fail(266) }
    vs::cover(10);
}
/// Several real clients at once, answered in any order.
#[no_mangle]
pub extern "C" fn h_conc_clients() {
    let mut w = World::new();
    let g = Gate(Arc::new(Mutex::new(Vec::new())));
    let mut b = w.builder();
    if b.register(g.clone(), proc::<RtE, EReq, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let n = vs::bound(3, 4) as usize;
    let mut cl = RpcClient::new(addr(PORT));
    let mut ms = vec![];
    let mut bodies = vec![];
    for i in 0..n {
        let body = vec![vs::u8(), i as u8];
        bodies.push(body.clone());
        let f = cl.call::<Proc<RtE, EReq, Res>>(Req { path: (i as u8,), query: Nil {}, header: Nil {}, body });
        ms.push(Some(w.ex.handle().spawn_monitor(f)));
        let s = vs::choose(2) as usize * 3;
        w.steps(s);
    }
    w.quiesce();
    let mut left: Vec<usize> = (0..n).collect();
    while !left.is_empty() {
        let k = vs::choose(left.len() as u64) as usize;
        let k = left.remove(k);
        vs::check(release(&g, k as u8), 267);
        w.quiesce();
        for i in 0..n {
            let mut m = match ms[i].take() { Some(m) => m, None => continue };
            match m.poll() {
                Ok(Async::NotReady) => { vs::check(i != k, 268); ms[i] = Some(m); }
                Ok(Async::Ready(r)) => {
                    let mut want = vec![k as u8];
                    want.extend_from_slice(&bodies[k]);
                    vs::check(i == k && r == ok(&want), 269);
                }
                Err(_) => vs::fail(270),
            }
        }
    }
    w.quiesce();
    vs::check(net().live_streams == 0, 271);
    vs::cover(10);
}

// ---- bodies which are not read ----------------------------------------------------------
route!(RtU, Post, Val("u"), Var);
/// Reads at most `path.0` bytes of the body.
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Lazy { pub path: (u8,), #[serde(skip)] pub body: Vec<u8> }
impl RpcRequest for Lazy {
    fn body(&mut self) -> Vec<u8> { std::mem::replace(&mut self.body, Vec::new()) }
    fn read_body(self, body: BodyReader) -> ReadBody<Self> {
        let n = self.path.0 as usize;
        Box::new(Part(Some((body, self)), n))
    }
}
pub struct Part(Option<(BodyReader, Lazy)>, usize);
impl Future for Part {
    type Item = (BodyReader, Lazy);
    type Error = Error;
    fn poll(&mut self) -> Poll<Self::Item, Error> {
        use std::io::Read;
        let (mut b, mut q) = match self.0.take() { Some(v) => v, None => { vs::fail(272); return Ok(Async::NotReady); } };
        while q.body.len() < self.1 {
            let mut c = [0u8];
            match b.read(&mut c) {
                Ok(0) => break,
                Ok(_) => q.body.push(c[0]),
                Err(ref e) if e.kind() == std::io::ErrorKind::WouldBlock => { self.0 = Some((b, q)); return Ok(Async::NotReady); }
                Err(_) => { vs::fail(273); break; }
            }
        }
        Ok(Async::Ready((b, q)))
    }
}
#[no_mangle]
pub extern "C" fn h_frame_unread() {
    let mut w = World::new();
    let h: Rec<Lazy, Res> = Rec::new(ok(b"u"));
    let l = log();
    let mut b = w.builder();
    if b.register(h.clone(), proc::<RtU, Lazy, Res>()).is_err() { vs::fail(1); return; }
    if b.register(Tag(b'g', l.clone()), proc::<RtG, Bare, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let k = [0u8, 1, 5, 18, 19, 20, 200][vs::choose(7) as usize];
    let mut m = b"POST /u/".to_vec();
    m.extend_from_slice(k.to_string().as_bytes());
    m.extend_from_slice(b" HTTP/1.1\r\nContent-Length: 19\r\n\r\nGET /g HTTP/1.1\r\n\r");
    let x = vs::u8();
    m.push(x);
    let cut = [m.len(), m.len() - 1, m.len() - 10, m.len() - 19, 12][vs::choose(5) as usize];
    let c = w.raw();
    let mut out = w.exchange(c, &m[..cut]);
    out.extend(w.exchange(c, &m[cut..]));
    match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == b"u" && r.rest.is_empty(), 274), None => vs::fail(275) }
    vs::check(h.count() == 1 && h.get(0).body == m[m.len() - 19..m.len() - 19 + (k as usize).min(19)].to_vec(), 276);
    vs::check(l.lock().unwrap().is_empty(), 277);
    let out = w.exchange(c, b"GET /g HTTP/1.1\r\n\r\n");
    match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == b"g" && r.rest.is_empty(), 278), None => vs::fail(279) }
    vs::cover(1);
}

// ---- requests of different kinds at the same time -------------------------------------------
route!(MxGet, Get, Val("x"), Var);
route!(MxHead, Head, Val("x"), Var);
route!(MxPost, Post, Val("x"), Var);
route!(MxDelete, Delete, Val("x"), Var);
/// Holds every request until the harness says so; the answer depends on the method.
#[derive(Clone)]
pub struct Hold(u8, Arc<Mutex<Vec<(u8, oneshot::Sender<()>)>>>);
fn held(kind: u8, id: u8, body: &[u8]) -> Res {
    let mut b = vec![kind, id];
    b.extend_from_slice(body);
    match kind {
        0 => Res::Ok { header: ResHeader { r: None }, body: b },
        1 => Res::Ok { header: ResHeader { r: Some("head".to_string()) }, body: b },
        2 => Res::Created { header: ResHeader { r: Some("post".to_string()) }, body: b },
        _ => Res::NotFound,
    }
}
impl<Rt: Route> HandleRpc<Proc<Rt, EReq, Res>> for Hold {
    type Future = Gated;
    fn handle_rpc(self, r: EReq) -> Gated {
        let (tx, rx) = oneshot::channel();
        self.1.lock().unwrap().push((r.path.0, tx));
        Gated(rx, Some(held(self.0, r.path.0, &r.body)))
    }
}
const KINDS: u64 = 9;
/// The request with the given number, and whether it waits for the harness.
fn mixed(kind: u64, id: u8, x: u8) -> (Vec<u8>, bool) {
    let m = match kind {
        0 => format!("GET /x/{} HTTP/1.1\r\n\r\n", id),
        1 => format!("HEAD /x/{} HTTP/1.1\r\n\r\n", id),
        2 => format!("POST /x/{} HTTP/1.1\r\nContent-Length: 1\r\n\r\n", id),
        3 => format!("DELETE /x/{} HTTP/1.1\r\n\r\n", id),
        4 => format!("GET /y/{} HTTP/1.1\r\n\r\n", id),
        5 => format!("PUT /x/{} HTTP/1.1\r\nContent-Length: 1\r\n\r\n", id),
        6 => format!("GET /x/{}? HTTP/1.1\r\n\r\n", 256 + id as u32),
        7 => "HEAD /y HTTP/1.1\r\n\r\n".to_string(),
        _ => "GET /x/%zz%ff HTTP/1.1\r\n\r\n".to_string(),
    };
    let mut m = m.into_bytes();
    if kind == 2 || kind == 5 { m.push(x); }
    (m, kind < 4)
}
fn mixed_ok(kind: u64, id: u8, x: u8, out: &[u8]) -> bool {
    let h = match parse_http(out, kind == 1 || kind == 7) { Some(h) => h, None => return false };
    if !h.rest.is_empty() || h.count("content-length") != 1 { return false; }
    let r = h.get("x-r");
    match kind {
        0 => h.status == 200 && r == None && h.body == [0, id],
        1 => h.status == 200 && r == Some(b"head") && h.get("content-length") == Some(b"2"),
        2 => h.status == 201 && r == Some(b"post") && h.body == [2, id, x],
        3 => h.status == 404 && r == None && h.body.is_empty(),
        4 => is_problem(&h, 404),
        5 => is_problem(&h, 405),
        7 => h.status == 404,
        _ => is_problem(&h, 400),
    }
}
/// Two connections with requests of any kinds, in any interleaving of their pieces: each gets
/// what it would get alone, and can go on afterwards.
#[no_mangle]
pub extern "C" fn h_conc_mix() {
    let mut w = World::new();
    let g = Gate(Arc::new(Mutex::new(Vec::new())));
    let mut b = w.builder();
    let l = log();
    let mut good = b.register(Hold(0, g.0.clone()), proc::<MxGet, EReq, Res>()).is_ok();
    good &= b.register(Hold(1, g.0.clone()), proc::<MxHead, EReq, Res>()).is_ok();
    good &= b.register(Hold(2, g.0.clone()), proc::<MxPost, EReq, Res>()).is_ok();
    good &= b.register(Hold(3, g.0.clone()), proc::<MxDelete, EReq, Res>()).is_ok();
    good &= b.register(Tag(b'g', l.clone()), proc::<RtG, Bare, Res>()).is_ok();
    if !good { vs::fail(1); return; }
    w.start(b);
    let x = vs::u8();
    let kinds = [vs::choose(KINDS), vs::choose(KINDS)];
    let m = [mixed(kinds[0], 1, x), mixed(kinds[1], 2, x)];
    let c = [w.raw(), w.raw()];
    let mut stage = [0; 2];
    while stage[0] < 3 || stage[1] < 3 {
        let k = if stage[0] == 3 { 1 } else if stage[1] == 3 { 0 } else { vs::choose(2) as usize };
        let (ref t, waits) = m[k];
        match stage[k] {
            0 => net().raw_send(c[k], &t[..9]),
            1 => net().raw_send(c[k], &t[9..]),
            _ => if waits { vs::check(release(&g, k as u8 + 1), 280) },
        }
        stage[k] += 1;
        w.quiesce();
        for i in 0..2 {
            let out = net().raw_take(c[i]);
            if i == k && stage[k] == if waits { 3 } else { 2 } {
                vs::cover(kinds[k] as u32 + 1);
                vs::check(mixed_ok(kinds[k], k as u8 + 1, x, &out), 281);
            } else { vs::check(out.is_empty(), 282); }
        }
    }
    for i in 0..2 {
        let out = w.exchange(c[i], b"GET /g HTTP/1.1\r\n\r\n");
        match parse_http(&out, false) { Some(r) => vs::check(r.status == 200 && r.body == b"g" && r.rest.is_empty(), 283), None => vs::fail(284) }
    }
    vs::cover(10);
}
fn start_call(w: &mut World, c: Option<htrpc::pool::RpcClientPoolHandle>, kind: u64, rq: EReq) -> fibers::sync::oneshot::Monitor<Res, Error> {
    macro_rules! go { ($rt:ty) => { match c {
        None => w.ex.handle().spawn_monitor(RpcClient::new(addr(PORT)).call::<Proc<$rt, EReq, Res>>(rq)),
        Some(h) => w.ex.handle().spawn_monitor(h.client(addr(PORT)).call::<Proc<$rt, EReq, Res>>(rq)),
    } } }
    match kind { 0 => go!(MxGet), 1 => go!(MxHead), 2 => go!(MxPost), _ => go!(MxDelete) }
}
/// Two (thorough three) calls of any kinds at the same time, direct or pooled: each gets the
/// answer of its own handler, as soon as that has finished.
#[no_mangle]
pub extern "C" fn h_conc_calls() {
    let mut w = World::new();
    let g = Gate(Arc::new(Mutex::new(Vec::new())));
    let mut b = w.builder();
    let mut good = b.register(Hold(0, g.0.clone()), proc::<MxGet, EReq, Res>()).is_ok();
    good &= b.register(Hold(1, g.0.clone()), proc::<MxHead, EReq, Res>()).is_ok();
    good &= b.register(Hold(2, g.0.clone()), proc::<MxPost, EReq, Res>()).is_ok();
    good &= b.register(Hold(3, g.0.clone()), proc::<MxDelete, EReq, Res>()).is_ok();
    if !good { vs::fail(1); return; }
    w.start(b);
    let pool = htrpc::pool::RpcClientPool::new();
    let hd = pool.handle();
    w.ex.handle().spawn(pool);
    let x = vs::u8();
    let n = vs::bound(2, 3) as usize;
    let pooled = vs::choose(2) == 1;
    let again = vs::choose(2) == 1; // the connections of the pool have been used before
    if again {
        vs::assume(pooled);
        let mut ms = vec![];
        for i in 0..n {
            ms.push(start_call(&mut w, Some(hd.clone()), 1 + (i as u64 & 1), Req { path: (100 + i as u8,), query: Nil {}, header: Nil {}, body: vec![] }));
            w.quiesce();
        }
        for i in 0..n { vs::check(release(&g, 100 + i as u8), 285); }
        w.quiesce();
        for m in ms.iter_mut() { match m.poll() { Ok(Async::Ready(_)) => {} _ => vs::fail(286) } }
    }
    let kinds: Vec<u64> = (0..n).map(|_| vs::choose(4)).collect();
    let mut stage = vec![0; n];
    let mut ms: Vec<Option<_>> = (0..n).map(|_| None).collect();
    for _ in 0..2 * n {
        let k = vs::choose(n as u64) as usize;
        vs::assume(stage[k] < 2);
        if stage[k] == 0 {
            let body = if kinds[k] == 2 { vec![x, k as u8] } else { vec![] };
            let h = if pooled { Some(hd.clone()) } else { None };
            ms[k] = Some(start_call(&mut w, h, kinds[k], Req { path: (k as u8,), query: Nil {}, header: Nil {}, body }));
        } else { vs::check(release(&g, k as u8), 287); }
        stage[k] += 1;
        w.quiesce();
        for i in 0..n {
            let mut m = match ms[i].take() { Some(m) => m, None => continue };
            match m.poll() {
                Ok(Async::NotReady) => { vs::check(stage[i] == 1, 288); ms[i] = Some(m); }
                Ok(Async::Ready(r)) => {
                    vs::cover(kinds[i] as u32 + 1);
                    let want = held(kinds[i] as u8, i as u8, &[]);
                    let want = match want {
                        Res::Ok { header, body } => Res::Ok { header, body: if kinds[i] == 1 { vec![] } else { body } },
                        Res::Created { header, mut body } => { body.push(x); body.push(i as u8); Res::Created { header, body } }
                        r => r,
                    };
                    vs::check(stage[i] == 2 && r == want, 289);
                }
                Err(_) => vs::fail(290),
            }
        }
    }
    w.quiesce();
    if !pooled { vs::check(net().live_streams == 0, 291); }
    vs::cover(10);
}
