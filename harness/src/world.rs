//! Building blocks shared by the harnesses: an executor on the modelled OS,
//! generic procedures, recording handlers and an independent HTTP reader.
use crate::env::{self, net};
use crate::vs;
use fibers::{Executor, InPlaceExecutor, Spawn};
use futures::{Async, Future, Poll};
use htrpc::types::{EntryPoint, HttpMethod, NeverFail, PathSegment};
use htrpc::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::marker::PhantomData;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};

pub const PORT: u16 = 8000;
/// Rounds of the executor (each runs one fiber and one poll of the OS) without any effect
/// after which the program is taken to be waiting for something from outside.
pub const IDLE: usize = 8;
const CAP: usize = 2000;

pub trait Arg: Serialize + DeserializeOwned + Clone + PartialEq + Send + 'static {}
impl<T: Serialize + DeserializeOwned + Clone + PartialEq + Send + 'static> Arg for T {}

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Nil {}

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Req<P, Q, H> {
    pub path: P,
    pub query: Q,
    pub header: H,
    #[serde(skip)]
    pub body: Vec<u8>,
}
impl<P: Arg, Q: Arg, H: Arg> RpcRequest for Req<P, Q, H> {
    fn body(&mut self) -> Vec<u8> { std::mem::replace(&mut self.body, Vec::new()) }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        Box::new(body.read_all_bytes().map(move |(b, v)| { self.body = v; (b, self) }).map_err(Error::from))
    }
}

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct ResHeader {
    #[serde(rename = "x-r")]
    pub r: Option<String>,
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub enum Res {
    Ok { header: ResHeader, #[serde(skip)] body: Vec<u8> },
    Created { header: ResHeader, #[serde(skip)] body: Vec<u8> },
    NotFound,
    BadRequest,
    MethodNotAllowed,
}
impl RpcResponse for Res {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        match *self {
            Res::Ok { ref mut body, .. } | Res::Created { ref mut body, .. } => Box::new(std::mem::replace(body, Vec::new())),
            _ => Box::new(Vec::new()),
        }
    }
    fn set_body(&mut self, b: Vec<u8>) {
        match *self {
            Res::Ok { ref mut body, .. } | Res::Created { ref mut body, .. } => *body = b,
            _ => {}
        }
    }
}
pub fn ok(body: &[u8]) -> Res { Res::Ok { header: ResHeader { r: None }, body: body.to_vec() } }

/// Method and entry point of a procedure.
pub trait Route: Send + 'static {
    fn method() -> HttpMethod;
    fn segs() -> &'static [PathSegment];
}
#[macro_export]
macro_rules! route {
    ($n:ident, $m:ident, $($s:expr),*) => {
        pub struct $n;
        impl $crate::world::Route for $n {
            fn method() -> htrpc::types::HttpMethod { htrpc::types::HttpMethod::$m }
            fn segs() -> &'static [htrpc::types::PathSegment] {
                #[allow(unused_imports)]
                use htrpc::types::PathSegment::{Val, Var};
                static S: &[htrpc::types::PathSegment] = &[$($s),*];
                S
            }
        }
    };
}
pub struct Proc<Rt, Rq, Rs>(pub PhantomData<(Rt, Rq, Rs)>);
pub fn proc<Rt, Rq, Rs>() -> Proc<Rt, Rq, Rs> { Proc(PhantomData) }
impl<Rt: Route, Rq: RpcRequest, Rs: RpcResponse> Procedure for Proc<Rt, Rq, Rs> {
    type Request = Rq;
    type Response = Rs;
    fn method() -> HttpMethod { Rt::method() }
    fn entry_point() -> EntryPoint { EntryPoint::new(Rt::segs()) }
}

/// Records what it receives and answers with a fixed reply after `delay` polls.
pub struct Rec<Rq, Rs> {
    pub seen: Arc<Mutex<Vec<Rq>>>,
    pub reply: Rs,
    pub delay: u32,
}
impl<Rq, Rs: Clone> Clone for Rec<Rq, Rs> {
    fn clone(&self) -> Self { Rec { seen: self.seen.clone(), reply: self.reply.clone(), delay: self.delay } }
}
impl<Rq: Clone, Rs: Clone> Rec<Rq, Rs> {
    pub fn new(reply: Rs) -> Self { Rec { seen: Arc::new(Mutex::new(Vec::new())), reply, delay: 0 } }
    pub fn count(&self) -> usize { self.seen.lock().unwrap().len() }
    pub fn get(&self, i: usize) -> Rq { self.seen.lock().unwrap()[i].clone() }
}
pub struct Later<T>(u32, Option<T>);
pub fn later<T>(v: T) -> Later<T> { Later(0, Some(v)) }
impl<T> Future for Later<T> {
    type Item = T;
    type Error = NeverFail;
    fn poll(&mut self) -> Poll<T, NeverFail> {
        if self.0 == 0 { Ok(Async::Ready(self.1.take().expect("polled twice"))) } else {
            self.0 -= 1;
            fibers::fiber::with_current_context(|mut c| { let _ = c.park(); });
            Ok(Async::NotReady)
        }
    }
}
impl<Rt, Rq, Rs> HandleRpc<Proc<Rt, Rq, Rs>> for Rec<Rq, Rs>
where Rt: Route, Rq: RpcRequest, Rs: RpcResponse + Clone + Send + 'static {
    type Future = Later<Rs>;
    fn handle_rpc(self, r: Rq) -> Later<Rs> {
        self.seen.lock().unwrap().push(r);
        Later(0, Some(self.reply))
    }
}

pub fn addr(port: u16) -> SocketAddr {
    SocketAddr::V4(std::net::SocketAddrV4::new(std::net::Ipv4Addr::new(127, 0, 0, 1), port))
}

pub struct World { pub ex: InPlaceExecutor }
impl World {
    pub fn new() -> World {
        match InPlaceExecutor::new() { Ok(ex) => World { ex }, Err(_) => panic!("executor") }
    }
    pub fn builder(&self) -> RpcServerBuilder { RpcServerBuilder::new(addr(PORT)) }
    pub fn start(&mut self, b: RpcServerBuilder) {
        let s = b.start(self.ex.handle());
        self.ex.spawn(s.map_err(|_| ()));
        self.quiesce();
    }
    pub fn steps(&mut self, n: usize) {
        for _ in 0..n { if self.ex.run_once().is_err() { panic!("executor failed"); } }
    }
    /// Runs until nothing happens any more (no system call with an effect for `IDLE` rounds).
    pub fn quiesce(&mut self) {
        let mut idle = 0;
        let mut left = CAP;
        while idle < IDLE && left > 0 { idle = self.step(idle); left -= 1; }
    }
    fn step(&mut self, idle: usize) -> usize {
        let before = net().acts;
        self.steps(1);
        if net().acts == before { idle + 1 } else { 0 }
    }
    /// Runs until `f` is finished, or nothing happens any more.
    pub fn wait<F: Future>(&mut self, f: &mut F) -> Option<std::result::Result<F::Item, F::Error>> {
        let mut idle = 0;
        for _ in 0..CAP {
            match f.poll() {
                Ok(Async::Ready(v)) => return Some(Ok(v)),
                Err(e) => return Some(Err(e)),
                Ok(Async::NotReady) => {}
            }
            if idle == IDLE { return None; }
            idle = self.step(idle);
        }
        None
    }
    pub fn call<Rt: Route, Rq: RpcRequest, Rs: RpcResponse + Send + 'static>(&mut self, rq: Rq) -> Option<std::result::Result<Rs, ()>> {
        let mut c = RpcClient::new(addr(PORT));
        let f = c.call::<Proc<Rt, Rq, Rs>>(rq);
        let mut m = self.ex.spawn_monitor(f);
        self.wait(&mut m).map(|r| r.map_err(|_| ()))
    }
    pub fn raw(&mut self) -> usize {
        match env::net().raw_connect(PORT) { Some(c) => c, None => panic!("server is not listening") }
    }
    /// Sends bytes on a raw connection, lets the server work, returns what it wrote.
    pub fn exchange(&mut self, c: usize, data: &[u8]) -> Vec<u8> {
        env::net().raw_send(c, data);
        self.settle(c)
    }
    pub fn settle(&mut self, c: usize) -> Vec<u8> {
        self.quiesce();
        env::net().raw_take(c)
    }
}

/// An HTTP response read by an independent parser.
pub struct Http { pub status: u16, pub headers: Vec<(Vec<u8>, Vec<u8>)>, pub body: Vec<u8>, pub rest: Vec<u8> }
impl Http {
    pub fn get(&self, name: &str) -> Option<&[u8]> {
        for h in &self.headers { if h.0 == name.as_bytes() { return Some(&h.1); } }
        None
    }
    pub fn count(&self, name: &str) -> usize { self.headers.iter().filter(|h| h.0 == name.as_bytes()).count() }
}
fn line(b: &[u8], at: usize) -> Option<usize> {
    let mut i = at;
    while i + 1 < b.len() { if b[i] == b'\r' && b[i + 1] == b'\n' { return Some(i); } i += 1; }
    None
}
pub fn num(b: &[u8]) -> Option<u64> {
    if b.is_empty() { return None; }
    let mut n = 0u64;
    for &c in b { if c < b'0' || c > b'9' { return None; } n = n * 10 + (c - b'0') as u64; }
    Some(n)
}
/// Parses one response with exactly one Content-Length (body omitted if `head`).
pub fn parse_http(b: &[u8], head: bool) -> Option<Http> {
    let e = line(b, 0)?;
    let l = &b[..e];
    if l.len() < 12 || (&l[..9] != b"HTTP/1.1 " && &l[..9] != b"HTTP/1.0 ") { return None; }
    let status = num(&l[9..12])? as u16;
    let mut at = e + 2;
    let mut headers = Vec::new();
    loop {
        let e = line(b, at)?;
        if e == at { at += 2; break; }
        let l = &b[at..e];
        let mut c = 0;
        while c < l.len() && l[c] != b':' { c += 1; }
        if c == l.len() || c == 0 { return None; }
        let mut v = &l[c + 1..];
        while !v.is_empty() && v[0] == b' ' { v = &v[1..]; }
        let name: Vec<u8> = l[..c].iter().map(|x| x.to_ascii_lowercase()).collect();
        headers.push((name, v.to_vec()));
        at = e + 2;
    }
    let mut h = Http { status, headers, body: Vec::new(), rest: Vec::new() };
    if h.count("content-length") != 1 { return None; }
    let n = num(h.get("content-length")?)? as usize;
    if !head {
        if b.len() < at + n { return None; }
        h.body = b[at..at + n].to_vec();
        at += n;
    }
    h.rest = b[at..].to_vec();
    Some(h)
}

/// A request type which accepts anything that is routed to it.
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Bare { #[serde(skip)] pub body: Vec<u8> }
impl RpcRequest for Bare {
    fn body(&mut self) -> Vec<u8> { std::mem::replace(&mut self.body, Vec::new()) }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        Box::new(body.read_all_bytes().map(move |(b, v)| { self.body = v; (b, self) }).map_err(Error::from))
    }
}
/// Answers with its own tag and logs each invocation.
#[derive(Clone)]
pub struct Tag(pub u8, pub Arc<Mutex<Vec<u8>>>);
impl<Rt: Route> HandleRpc<Proc<Rt, Bare, Res>> for Tag {
    type Future = Later<Res>;
    fn handle_rpc(self, _r: Bare) -> Later<Res> {
        self.1.lock().unwrap().push(self.0);
        Later(0, Some(ok(&[self.0])))
    }
}
pub type Log = Arc<Mutex<Vec<u8>>>;
pub fn log() -> Log { Arc::new(Mutex::new(Vec::new())) }
pub fn contains(h: &[u8], n: &[u8]) -> bool {
    if n.len() > h.len() { return false; }
    (0..h.len() - n.len() + 1).any(|i| &h[i..i + n.len()] == n)
}
/// Is this a problem response: JSON content type, body status = HTTP status?
pub fn is_problem(h: &Http, status: u16) -> bool {
    let mut want = Vec::from(&b"\"status\":"[..]);
    want.extend_from_slice(status.to_string().as_bytes());
    let key = b"\"status\"";
    // whatever the white space of the JSON document
    let mut at = None;
    if h.body.len() >= key.len() { for i in 0..h.body.len() - key.len() + 1 { if &h.body[i..i + key.len()] == key { at = Some(i); break; } } }
    let tail: Vec<u8> = match at { Some(i) => h.body[i..].iter().cloned().filter(|c| *c != b' ' && *c != b'\n' && *c != b'\r' && *c != b'\t').take(want.len() + 1).collect(), None => return false };
    h.status == status && h.get("content-type") == Some(b"application/problem+json")
        && tail.len() == want.len() + 1 && tail[..want.len()] == want[..] && (tail[want.len()] == b',' || tail[want.len()] == b'}')
}
