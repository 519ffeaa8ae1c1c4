// Helpers of the demonstrations: a real server and real clients over loopback.

extern crate fibers;
extern crate futures;
extern crate htrpc;
extern crate serde;
#[macro_use]
extern crate serde_derive;

use fibers::{Executor, InPlaceExecutor, Spawn, ThreadPoolExecutor};
use futures::Future;
use htrpc::types::*;
use htrpc::*;
use std::io::{Read, Write};
use std::marker::PhantomData;
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Nil {}

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Req<P, Q, H> {
    pub path: P,
    pub query: Q,
    pub header: H,
    #[serde(skip)]
    pub body: Vec<u8>,
}
pub trait Arg: serde::Serialize + serde::de::DeserializeOwned + Send + 'static {}
impl<T: serde::Serialize + serde::de::DeserializeOwned + Send + 'static> Arg for T {}
impl<P: Arg, Q: Arg, H: Arg> RpcRequest for Req<P, Q, H> {
    fn body(&mut self) -> Vec<u8> {
        std::mem::replace(&mut self.body, Vec::new())
    }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        Box::new(body.read_all_bytes().map(move |(b, v)| { self.body = v; (b, self) }).map_err(Error::from))
    }
}
pub fn req<P, Q, H>(path: P, query: Q, header: H) -> Req<P, Q, H> {
    Req { path, query, header, body: Vec::new() }
}

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub enum Res {
    Ok { #[serde(skip)] body: Vec<u8> },
    NoContent { #[serde(skip)] body: Vec<u8> },
    BadRequest,
    NotFound,
    MethodNotAllowed,
}
impl RpcResponse for Res {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        match *self {
            Res::Ok { ref mut body } | Res::NoContent { ref mut body } => Box::new(std::mem::replace(body, Vec::new())),
            _ => Box::new(Vec::new()),
        }
    }
    fn set_body(&mut self, b: Vec<u8>) {
        match *self {
            Res::Ok { ref mut body } | Res::NoContent { ref mut body } => *body = b,
            _ => {}
        }
    }
}
pub fn ok(b: &[u8]) -> Res { Res::Ok { body: b.to_vec() } }

pub trait Route: Send + 'static {
    fn method() -> HttpMethod;
    fn entry() -> EntryPoint;
}
#[macro_export]
macro_rules! route {
    ($n:ident, $m:ident, $($s:expr),*) => {
        pub struct $n;
        impl Route for $n {
            fn method() -> HttpMethod { HttpMethod::$m }
            fn entry() -> EntryPoint {
                #[allow(unused_imports)]
                use htrpc::types::PathSegment::{Val, Var};
                static S: &'static [PathSegment] = &[$($s),*];
                EntryPoint::new(S)
            }
        }
    };
}
pub struct Proc<Rt, Rq, Rs>(pub PhantomData<(Rt, Rq, Rs)>);
pub fn procedure<Rt, Rq, Rs>() -> Proc<Rt, Rq, Rs> { Proc(PhantomData) }
impl<Rt: Route, Rq: RpcRequest, Rs: RpcResponse> Procedure for Proc<Rt, Rq, Rs> {
    type Request = Rq;
    type Response = Rs;
    fn method() -> HttpMethod { Rt::method() }
    fn entry_point() -> EntryPoint { Rt::entry() }
}
/// A handler: records the requests and answers with what the function makes of them.
pub struct H<Rq, Rs> {
    pub seen: Arc<Mutex<Vec<Rq>>>,
    pub f: fn(&Rq) -> Rs,
}
impl<Rq, Rs> Clone for H<Rq, Rs> {
    fn clone(&self) -> Self { H { seen: self.seen.clone(), f: self.f } }
}
impl<Rq, Rs> H<Rq, Rs> {
    pub fn new(f: fn(&Rq) -> Rs) -> Self { H { seen: Arc::new(Mutex::new(Vec::new())), f } }
    pub fn count(&self) -> usize { self.seen.lock().unwrap().len() }
}
impl<Rt: Route, Rq: RpcRequest + Send, Rs: RpcResponse + Send + 'static> HandleRpc<Proc<Rt, Rq, Rs>> for H<Rq, Rs> {
    type Future = futures::Finished<Rs, NeverFail>;
    fn handle_rpc(self, r: Rq) -> Self::Future {
        let s = (self.f)(&r);
        self.seen.lock().unwrap().push(r);
        futures::finished(s)
    }
}

pub fn free_addr() -> SocketAddr { TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap() }
/// Starts a server with the given registrations.
pub fn serve<F: FnOnce(&mut RpcServerBuilder)>(f: F) -> SocketAddr {
    let addr = free_addr();
    let mut b = RpcServerBuilder::new(addr);
    f(&mut b);
    let ex = ThreadPoolExecutor::with_thread_count(2).unwrap();
    let s = b.start(ex.handle());
    ex.spawn(s.map_err(|e| panic!("server stopped: {}", e)));
    std::thread::spawn(move || { let _ = ex.run(); });
    for _ in 0..100 {
        if TcpStream::connect(addr).is_ok() { return addr; }
        std::thread::sleep(Duration::from_millis(50));
    }
    panic!("the server does not listen");
}
/// Runs a future to its end; an error if it takes longer than ten seconds.
pub fn run<F>(f: F) -> std::result::Result<F::Item, String>
where F: Future + Send + 'static, F::Item: Send + 'static, F::Error: std::fmt::Display + Send + 'static {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut ex = InPlaceExecutor::new().unwrap();
        let m = ex.spawn_monitor(f.map_err(|e| e.to_string()));
        let r = match ex.run_fiber(m) { Ok(r) => r.map_err(|e| format!("{:?}", e)), Err(e) => Err(e.to_string()) };
        let _ = tx.send(r);
    });
    rx.recv_timeout(Duration::from_secs(10)).unwrap_or_else(|_| Err("timeout".to_string()))
}
pub fn call<Rt: Route, Rq: RpcRequest + Send, Rs: RpcResponse + Send + 'static>(addr: SocketAddr, rq: Rq) -> std::result::Result<Rs, String> {
    run(futures::lazy(move || RpcClient::new(addr).call::<Proc<Rt, Rq, Rs>>(rq)))
}
/// Sends bytes and reads until nothing has come for a while.
pub fn raw(s: &mut TcpStream, data: &[u8]) -> Vec<u8> {
    s.write_all(data).unwrap();
    receive(s)
}
pub fn receive(s: &mut TcpStream) -> Vec<u8> {
    s.set_read_timeout(Some(Duration::from_millis(700))).unwrap();
    let mut out = Vec::new();
    let mut b = [0; 4096];
    while let Ok(n) = s.read(&mut b) {
        if n == 0 { break; }
        out.extend_from_slice(&b[..n]);
    }
    out
}
pub fn text(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }
pub fn expect(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {}", what);
        std::process::exit(1);
    }
}

/// A pool running in its own thread; its calls run there, too.
pub struct Pool { pub handle: htrpc::pool::RpcClientPoolHandle, spawner: fibers::BoxSpawn }
pub fn pool(p: htrpc::pool::RpcClientPool) -> Pool {
    let handle = p.handle();
    let ex = ThreadPoolExecutor::with_thread_count(1).unwrap();
    ex.spawn(p);
    let spawner = ex.handle().boxed();
    std::thread::spawn(move || { let _ = ex.run(); });
    Pool { handle, spawner }
}
pub fn pcall<Rt: Route, Rq: RpcRequest + Send, Rs: RpcResponse + Send + 'static>(p: &Pool, addr: SocketAddr, rq: Rq) -> std::result::Result<Rs, String> {
    let (tx, rx) = std::sync::mpsc::channel();
    let h = p.handle.clone();
    p.spawner.spawn(futures::lazy(move || h.client(addr).call::<Proc<Rt, Rq, Rs>>(rq)).then(move |r| {
        let _ = tx.send(r.map_err(|e| e.to_string()));
        Ok(())
    }));
    let r = rx.recv_timeout(Duration::from_secs(10)).unwrap_or_else(|_| Err("timeout".to_string()));
    std::thread::sleep(Duration::from_millis(100)); // lets the pool take the connection back
    r
}
/// A server which counts the connections it accepts and answers each request with 200 and `body`.
pub struct Peer { pub addr: SocketAddr, pub accepted: Arc<Mutex<usize>>, pub open: Arc<Mutex<isize>> }
pub fn peer(body: &'static [u8]) -> Peer {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    peer_on(l, body)
}
pub fn peer_on(l: TcpListener, body: &'static [u8]) -> Peer {
    let addr = l.local_addr().unwrap();
    let accepted = Arc::new(Mutex::new(0));
    let open = Arc::new(Mutex::new(0));
    let (a, o) = (accepted.clone(), open.clone());
    std::thread::spawn(move || for s in l.incoming() {
        let mut s = s.unwrap();
        *a.lock().unwrap() += 1;
        *o.lock().unwrap() += 1;
        let o = o.clone();
        std::thread::spawn(move || {
            let mut buf = Vec::new();
            let mut b = [0; 4096];
            while let Ok(n) = s.read(&mut b) {
                if n == 0 { break; }
                buf.extend_from_slice(&b[..n]);
                if buf.ends_with(b"\r\n\r\n") {
                    buf.clear();
                    let mut r = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes();
                    r.extend_from_slice(body);
                    if s.write_all(&r).is_err() { break; }
                }
            }
            *o.lock().unwrap() -= 1;
        });
    });
    Peer { addr, accepted, open }
}
