//! The connection pool against a reference model, over symbolic histories.
use crate::env::{advance_s, later, net, NoListener};
use crate::route;
use crate::shapes::{Plain, CODES};
use crate::vs;
use crate::world::*;
use fibers::{Executor, Spawn};
use futures::future::Either;
use futures::{Async, Future};
use htrpc::pool::{RpcClientPool, RpcClientPoolHandle};
use std::time::Duration;

route!(RtP, Post, Val("p"));
/// 8001 and 9001 have the same port on different hosts.
fn paddr(key: u16) -> std::net::SocketAddr {
    if key >= 20000 { return std::net::SocketAddr::V6(std::net::SocketAddrV6::new(std::net::Ipv6Addr::new(0, 0, 0, 0, 0, 0, 0, 1), 8000 + key % 1000, 0, (key / 1000 - 20) as u32)); }
    if key >= 9000 { std::net::SocketAddr::V4(std::net::SocketAddrV4::new(std::net::Ipv4Addr::new(127, 0, 0, 2), key - 1000)) } else { addr(key) }
}
type P = Proc<RtP, Bare, Plain>;
fn plain(status: u16, body: &[u8]) -> Plain { Plain { status, header: ResHeader { r: None }, body: body.to_vec() } }

#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Busy(usize), Idle(u32), Stale(u32), Gone }
struct Conn { fd: usize, port: u16, st: St }
enum Out { Resp(Plain), Cancelled }
type Mon = fibers::sync::oneshot::Monitor<Out, ()>;
struct Call { mon: Option<Mon>, cancel: Option<fibers::sync::oneshot::Sender<()>>, conn: usize, tag: u8 }
struct Pool {
    w: World,
    h: RpcClientPoolHandle,
    ls: Vec<usize>,
    ports: Vec<u16>,
    conns: Vec<Conn>,
    calls: Vec<Call>,
    size: usize,
    clock: u32,
}
fn make(size: usize, ports: &[u16], f: &dyn Fn(&mut RpcClientPool)) -> Pool {
    let w = World::new();
    let mut p = RpcClientPool::with_pool_size(size);
    f(&mut p);
    let h = p.handle();
    w.ex.handle().spawn(p);
    let ls = ports.iter().map(|&p| net().raw_listen(p)).collect();
    Pool { w, h, ls, ports: ports.to_vec(), conns: vec![], calls: vec![], size, clock: 0 }
}
impl Pool {
    fn spawn(&mut self, port: u16, tag: u8) -> (Mon, fibers::sync::oneshot::Sender<()>) {
        let (tx, rx) = fibers::sync::oneshot::channel::<()>();
        let f = self.h.client(paddr(port)).call::<P>(Bare { body: vec![tag] });
        let f = f.select2(rx).then(|r| match r {
            Ok(Either::A((v, _))) => Ok(Out::Resp(v)),
            Ok(Either::B(_)) => Ok(Out::Cancelled),
            Err(Either::A(_)) => Err(()),
            Err(Either::B((_, call))) => { drop(call); Ok(Out::Cancelled) }
        });
        (self.w.ex.handle().spawn_monitor(f), tx)
    }
    /// A new call to server `a`: it must use an idle connection to that server if there is
    /// one, else a new connection; and nothing else.
    fn call(&mut self, a: usize) {
        let id = self.calls.len();
        let tag = b'A' + id as u8;
        let port = self.ports[a];
        let before = net().connects.len();
        let (mut mon, tx) = self.spawn(port, tag);
        self.w.quiesce();
        for i in 0..self.ls.len() {
            while let Some(fd) = net().raw_accept(self.ls[i]) {
                vs::check(i == a, 220);
                self.conns.push(Conn { fd, port, st: St::Gone });
            }
        }
        let idle = self.conns.iter().any(|c| c.port == port && matches!(c.st, St::Idle(_)));
        let stale = self.conns.iter().any(|c| c.port == port && matches!(c.st, St::Stale(_)));
        let opened = net().connects.len() - before;
        let mut got = None;
        for i in 0..self.conns.len() {
            if self.conns[i].fd == usize::MAX { continue; }
            let b = net().raw_take(self.conns[i].fd);
            if b.is_empty() { continue; }
            vs::check(got.is_none(), 221);
            got = Some(i);
            vs::check(self.conns[i].port == port && b[b.len() - 1] == tag && b.starts_with(b"POST /p HTTP/1.1\r\n"), 222);
        }
        match got {
            Some(i) => {
                let fresh = opened == 1 && i == self.conns.len() - 1;
                if fresh { vs::cover(1); vs::check(!idle, 223); } else { vs::cover(2); vs::check(opened == 0 && matches!(self.conns[i].st, St::Idle(_)), 224); }
                self.conns[i].st = St::Busy(id);
                self.calls.push(Call { mon: Some(mon), cancel: Some(tx), conn: i, tag });
            }
            None => {
                // the only excuse: a pooled connection which the server had closed
                vs::cover(3);
                vs::check(stale && opened == 0, 225);
                match mon.poll() { Err(_) => {}, _ => vs::fail(226) }
                // that connection is given up
                self.drop_one_stale(port);
                self.calls.push(Call { mon: None, cancel: None, conn: usize::MAX, tag });
            }
        }
        self.audit();
    }
    fn drop_one_stale(&mut self, port: u16) {
        // which of several stale connections was used cannot be observed from outside;
        // histories have at most one per server
        for c in self.conns.iter_mut() { if c.port == port && matches!(c.st, St::Stale(_)) { c.st = St::Gone; return; } }
    }
    /// Bound and eviction order of the pool; closed connections are really closed.
    fn audit(&mut self) {
        let idle = self.conns.iter().filter(|c| matches!(c.st, St::Idle(_)) || matches!(c.st, St::Stale(_))).count();
        vs::check(idle <= self.size, 227);
        for c in &self.conns {
            if c.fd == usize::MAX { continue; }
            match c.st {
                St::Busy(_) | St::Idle(_) => vs::check(!net().raw_eof(c.fd), 228),
                St::Gone => vs::check(net().raw_eof(c.fd), 229),
                St::Stale(_) => {}
            }
        }
    }
    fn busy(&self) -> Option<usize> { self.calls.iter().position(|c| c.mon.is_some()) }
    fn finish(&mut self, id: usize) -> std::result::Result<Async<Out>, ()> {
        let mut mon = match self.calls[id].mon.take() { Some(m) => m, None => return Err(()) };
        mon.poll().map_err(|_| ())
    }
    /// The server answers call `id` completely.
    fn answer(&mut self, id: usize) {
        let c = self.calls[id].conn;
        let x = vs::u8();
        // (statuses make no difference)
        let code = [200, 404, 503, 304, 500, 201, 400, 100, 302, 204][id % 10];
        let mut m = format!("HTTP/1.1 {} Text\r\nContent-Length: 2\r\n\r\n", code).into_bytes();
        m.push(self.calls[id].tag);
        m.push(x);
        net().raw_send(self.conns[c].fd, &m);
        self.w.quiesce();
        match self.finish(id) {
            Ok(Async::Ready(Out::Resp(r))) => vs::check(r == plain(code, &[self.calls[id].tag, x]), 230),
            _ => vs::fail(231),
        }
        self.clock += 1;
        self.conns[c].st = St::Idle(self.clock);
        // the least recently used connections make room
        loop {
            let mut n = 0;
            let mut min = (u32::MAX, 0);
            for i in 0..self.conns.len() {
                let t = match self.conns[i].st { St::Idle(t) | St::Stale(t) => t, _ => continue };
                n += 1;
                if t < min.0 { min = (t, i); }
            }
            if n <= self.size { break; }
            vs::cover(4);
            self.conns[min.1].st = St::Gone;
        }
        self.audit();
    }
    /// The call fails while in progress: the connection is never used again.
    fn fail(&mut self, id: usize, how: u64) {
        let c = self.calls[id].conn;
        let fd = self.conns[c].fd;
        match how {
            0 => { net().raw_send(fd, b"HTTP/1.1 200 OK\r\nContent-Length: 9\r\n\r\nabc"); net().raw_close(fd); self.conns[c].fd = usize::MAX; }
            1 => { net().raw_send(fd, b"nonsense\r\n\r\n"); }
            2 => { net().raw_send(fd, b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\nx-r: \xff\r\n\r\n"); }
            3 => { net().raw_reset(fd); self.conns[c].fd = usize::MAX; }
            _ => { if let Some(tx) = self.calls[id].cancel.take() { let _ = tx.send(()); } }
        }
        self.w.quiesce();
        match (self.finish(id), how) {
            (Ok(Async::Ready(Out::Cancelled)), 4) => {}
            (Err(()), h) if h < 4 => {}
            _ => vs::fail(232),
        }
        self.conns[c].st = St::Gone;
        vs::cover(5);
        self.audit();
    }
    /// The server closes an idle connection.
    fn stale(&mut self, a: usize) {
        let port = self.ports[a];
        let one = self.conns.iter().any(|c| c.port == port && matches!(c.st, St::Stale(_)));
        let mut k = usize::MAX;
        for i in 0..self.conns.len() { if self.conns[i].port == port && matches!(self.conns[i].st, St::Idle(_)) { k = i; break; } }
        vs::assume(!one && k != usize::MAX);
        if let St::Idle(t) = self.conns[k].st { self.conns[k].st = St::Stale(t); }
        net().raw_close(self.conns[k].fd);
        self.conns[k].fd = usize::MAX;
        self.w.quiesce();
        self.audit();
    }
}
fn history(n: u64, kinds: u64) {
    let size = vs::choose(3) as usize;
    // servers which differ in the port, or in the host
    let other = if vs::boolean() { 8002 } else { 9001 };
    let mut p = make(size, &[8001, other], &|_| {});
    p.call(0);
    for _ in 0..n {
        match vs::choose(kinds) {
            0 => { let a = vs::choose(2) as usize; p.call(a) }
            1 => { // any call in progress is answered
                let k = vs::choose(3) as usize;
                let ids: Vec<usize> = (0..p.calls.len()).filter(|&i| p.calls[i].mon.is_some()).collect();
                vs::assume(k < ids.len());
                p.answer(ids[k])
            }
            2 => { vs::assume(p.busy().is_some()); let id = p.busy().unwrap_or(0); let how = vs::choose(5); p.fail(id, how) }
            _ => { let a = vs::choose(2) as usize; p.stale(a) }
        }
    }
    vs::cover(10);
}
/// Calls and answers in any order.
#[no_mangle]
pub extern "C" fn h_pool_hist() { history(vs::bound(5, 7), 2); }
/// Histories with failures, cancellations and closed connections.
#[no_mangle]
pub extern "C" fn h_pool_fail() { history(vs::bound(4, 5), 4); }
/// Eviction order among many idle connections.
#[no_mangle]
pub extern "C" fn h_pool_lru() {
    let size = vs::choose(4) as usize;
    let mut p = make(size, &[8001, 9001, 8000], &|_| {});
    for a in 0..3 { p.call(a); }
    p.call(0);
    // answered in any order
    for left in (1..5).rev() {
        let k = vs::choose(left) as usize;
        let ids: Vec<usize> = (0..p.calls.len()).filter(|&i| p.calls[i].mon.is_some()).collect();
        p.answer(ids[k]);
    }
    // and reused in any order
    for _ in 0..vs::bound(1, 2) {
        let a = vs::choose(3) as usize;
        p.call(a);
        let id = p.busy().unwrap_or(0);
        p.answer(id);
    }
    vs::cover(10);
}

// ---- suspension of unreachable addresses --------------------------------------------
/// One call to `port`; reports whether a connection attempt was made, and success.
fn attempt(p: &mut Pool, port: u16, l: Option<usize>) -> (bool, bool) {
    let before = net().connects.len();
    let (mut mon, _tx) = p.spawn(port, b'x');
    p.w.quiesce();
    if let Some(l) = l {
        if let Some(c) = net().raw_accept(l) {
            net().raw_send(c, b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\nx-r: 1\r\n\r\nz");
            p.w.quiesce();
            net().raw_close(c); // (not kept: each attempt needs a connection of its own)
        }
    }
    let tried = net().connects.len() > before;
    vs::check(net().connects.len() <= before + 1, 240);
    match mon.poll() {
        Ok(Async::Ready(_)) => (tried, true),
        Err(_) => (tried, false),
        Ok(Async::NotReady) => { vs::fail(241); (tried, false) }
    }
}
/// After a failed connect the address is left alone for the configured time, and only that address.
#[no_mangle]
pub extern "C" fn h_pool_suspend() {
    // configured suspension; None = default (60 s)
    let (set, dur, sub): (bool, u64, u64) = [(false, 60, 0), (true, 0, 0), (true, 1, 0), (true, 3600, 0), (true, u64::MAX, 999_999_999), (true, 1, 500_000_000), (true, 0, 700_000_000)][vs::choose(7) as usize];
    let other = [8002, 9001, 20001][vs::choose(3) as usize];
    let mut p = make(0, &[other], &|p| if set { p.set_suspended_duration(Duration::new(dur, sub as u32)) });
    let begin = net().real;
    let (tried, okay) = attempt(&mut p, 8001, None);
    vs::check(tried && !okay, 242);
    let end = net().real;
    // the server comes up; later (any time later) another call is made
    let l = net().raw_listen(8001);
    let s = vs::u16() as u64;
    let ns = [0u64, 1, 30_000_000, 250_000_000, 500_000_000, 999_999_999][vs::choose(6) as usize];
    advance_s(s, ns);
    let t1 = net().real;
    let (tried, okay) = attempt(&mut p, 8001, Some(l));
    let t2 = net().real;
    // the suspension began between `begin` and `end`, the second call was decided between t1 and t2
    if dur == u64::MAX || t2 < later(begin, dur, sub) { vs::cover(1); vs::check(!tried && !okay, 243); }
    else if t1 >= later(end, dur, sub) { vs::cover(2); vs::check(tried && okay, 244); }
    else { vs::cover(3); vs::check(tried == okay, 245); }
    // other addresses are not affected
    let l2 = p.ls[0];
    let (tried, okay) = attempt(&mut p, other, Some(l2));
    vs::check(tried && okay, 246);
}
/// A connect which gets no answer fails after the timeout, not before.
#[no_mangle]
pub extern "C" fn h_pool_timeout() {
    // configured timeout; None = default (1 s)
    let (set, dur, sub): (bool, u64, u64) = [(false, 1, 0), (true, 0, 0), (true, 2, 0), (true, 300, 0), (true, 1, 500_000_000), (true, 0, 250_000_000), (true, 90_000, 0)][vs::choose(7) as usize];
    net().no_listener = NoListener::Hang;
    let mut p = make(1, &[8002], &|p| if set { p.set_connect_timeout(Duration::new(dur, sub as u32)) });
    let begin = net().mono;
    let (mut mon, _tx) = p.spawn(8001, b'x');
    p.w.quiesce();
    let end = net().mono;
    let mut r = mon.poll();
    if let Ok(Async::NotReady) = r {
        let s = vs::u16() as u64;
        let ns = [0u64, 1, 30_000_000, 250_000_000, 500_000_000, 999_999_999][vs::choose(6) as usize];
        advance_s(s, ns);
        let t = net().mono;
        p.w.quiesce();
        r = mon.poll();
        // (timers may be late by 20 ms)
        if let Ok(Async::NotReady) = r { vs::cover(1); vs::check(t < later(end, dur, sub + 20_000_000), 251); }
    }
    match r {
        Ok(Async::NotReady) => {}
        Ok(Async::Ready(_)) => vs::fail(252),
        Err(_) => {
            vs::cover(2);
            vs::check(net().mono >= later(begin, dur, sub), 253);
            vs::check(net().live_streams == 0, 254);
            // and the address is suspended
            let (tried, okay) = attempt(&mut p, 8001, None);
            vs::check(!tried && !okay, 255);
        }
    }
    if dur == 0 && sub == 0 { return; } // (then every connect may time out)
    let l2 = p.ls[0];
    let (tried, okay) = attempt(&mut p, 8002, Some(l2));
    vs::check(tried && okay, 256);
}
/// Two connection attempts which are answered late, by acceptance or refusal, or not at all.
#[no_mangle]
pub extern "C" fn h_pool_late() {
    let (dur, sub): (u64, u64) = [(1, 0), (2, 0), (300, 0), (0, 250_000_000), (90_000, 0)][vs::choose(5) as usize];
    net().no_listener = NoListener::Hang;
    let mut p = make(2, &[8002], &|p| p.set_connect_timeout(Duration::new(dur, sub as u32)));
    let accept = vs::choose(2) == 0;
    let again = vs::choose(2) == 0;
    let begin = net().mono;
    let (mut mon, _tx) = p.spawn(8001, b'x');
    let (mut mon2, _tx2) = p.spawn(8001, b'y');
    p.w.quiesce();
    let end = net().mono;
    vs::check(net().connects.len() == 2, 280);
    let s = vs::u16() as u64;
    let ns = [0u64, 1, 30_000_000, 240_000_000, 500_000_000, 999_999_999][vs::choose(6) as usize];
    advance_s(s, ns);
    if again { p.w.quiesce(); }
    let t = net().mono;
    let l = if accept { Some(net().raw_listen(8001)) } else { None };
    let k = net().settle(8001);
    if k > 0 && t >= later(end, dur, sub + 20_000_000) { vs::check(!again, 281); }
    let early = t < later(begin, dur, sub);
    if early { vs::check(k == 2, 282); }
    p.w.quiesce();
    let mut okays = 0;
    if let Some(l) = l {
        while let Some(c) = net().raw_accept(l) {
            if net().raw_eof(c) { vs::check(!early, 283); continue; }
            okays += 1;
            let b = net().raw_take(c);
            vs::check(!b.is_empty(), 284);
            let tag = b[b.len() - 1];
            net().raw_send(c, b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\n");
            net().raw_send(c, &[tag]);
            p.w.quiesce();
        }
    }
    let mut n = 0;
    for (m, tag) in vec![(&mut mon, b'x'), (&mut mon2, b'y')] {
        match m.poll() {
            Ok(Async::Ready(Out::Resp(r))) => { n += 1; vs::check(r == plain(200, &[tag]), 285); }
            Ok(_) => vs::fail(286),
            Err(_) => {}
        }
    }
    vs::check(n == okays, 287);
    vs::check(net().live_streams == okays, 288);
    if early { vs::cover(if accept { 1 } else { 2 }); vs::check(okays == if accept { 2 } else { 0 }, 289); }
    else if !accept { vs::cover(3); vs::check(okays == 0, 290); }
    else { vs::cover(4); }
    // suspended exactly if an attempt failed
    if okays == 0 { let (tried, okay) = attempt(&mut p, 8001, l); vs::check(!tried && !okay, 291); }
    let l2 = p.ls[0];
    let (tried, okay) = attempt(&mut p, 8002, Some(l2));
    vs::check(tried && okay, 292);
}
/// Only failures to connect suspend an address; failures of a call do not.
#[no_mangle]
pub extern "C" fn h_pool_nosuspend() {
    let mut p = make(1, &[8001], &|_| {});
    p.call(0);
    let how = vs::choose(5);
    p.fail(0, how);
    p.call(0);
    p.answer(1);
    p.call(0);
    vs::cover(10);
}

/// Several calls in progress at a time, some of which fail, twice in a row.
#[no_mangle]
pub extern "C" fn h_pool_many() {
    let n = vs::bound(3, 4);
    let size = vs::choose(n + 1) as usize;
    let mut p = make(size, &[8001, 8002], &|_| {});
    for round in 0..2 {
        for i in 0..n { let a = if i == 0 { 0 } else { vs::choose(2) as usize }; p.call(a); }
        if round == 1 { break; }
        while let Some(id) = p.busy() {
            if vs::boolean() { p.answer(id) } else { p.fail(id, [0u64, 4][id % 2]) }
        }
    }
    vs::cover(10);
}
/// The default pool keeps many connections.
#[no_mangle]
pub extern "C" fn h_pool_default() {
    let mut p = make(1024, &[8001, 8002], &|p| *p = RpcClientPool::new());
    let n = vs::bound(12, 24);
    for i in 0..n { p.call(i as usize % 2); }
    while let Some(id) = p.busy() { p.answer(id); }
    for i in 0..n { p.call(i as usize % 2); }
    vs::cover(10);
}
#[derive(Clone, Copy)]
struct Susp { from: (u64, u64), to: (u64, u64) }
/// Several suspended addresses, several attempts: each address has its own suspension,
/// which begins with its last failed attempt.
#[no_mangle]
pub extern "C" fn h_pool_suspend2() {
    let keys = [[8001u16, 8002, 9001], [20001, 21001, 8001]][vs::choose(2) as usize];
    let dur = [60u64, 20][vs::choose(2) as usize];
    let mut p = make(0, &[], &|p| if dur != 60 { p.set_suspended_duration(Duration::from_secs(dur)) });
    let mut up: [Option<usize>; 3] = [None, None, None];
    let mut susp: [Option<Susp>; 3] = [None, None, None];
    let n = vs::bound(4, 5);
    let starts = vs::choose(n);
    for k in 0..n {
        if k == starts { for i in 0..3 { up[i] = Some(net().raw_listen(keys[i])); } }
        let i = if k == 0 { 0 } else { vs::choose(3) as usize };
        if k > 0 { let s = vs::u8() as u64; advance_s(s, 0); }
        let t1 = net().real;
        let (tried, okay) = attempt(&mut p, keys[i], up[i]);
        let t2 = net().real;
        let (mut must, mut may) = (true, true);
        if let Some(s) = susp[i] {
            must = t1 >= later(s.to, dur, 0);
            may = t2 >= later(s.from, dur, 0);
        }
        if must { vs::cover(2); vs::check(tried, 247); }
        if !may { vs::cover(1); vs::check(!tried, 248); }
        vs::check(okay == (tried && up[i].is_some()), 249);
        if tried { susp[i] = if okay { None } else { Some(Susp { from: t1, to: t2 }) }; }
    }
    vs::cover(10);
}
/// Addresses which differ in their family or scope only.
#[no_mangle]
pub extern "C" fn h_pool_addr() {
    let size = vs::choose(3) as usize;
    let mut p = make(size, &[8001, 20001, 21001], &|_| {});
    for _ in 0..vs::bound(2, 3) { let a = vs::choose(3) as usize; p.call(a); }
    while let Some(first) = p.busy() {
        let last = p.calls.iter().rposition(|c| c.mon.is_some()).unwrap_or(first);
        let id = if first != last && vs::boolean() { last } else { first };
        p.answer(id);
    }
    for _ in 0..2 { let a = vs::choose(3) as usize; p.call(a); }
    vs::cover(10);
}

/// A connection which ends with its response (so the server says, or so it was) is not pooled.
#[no_mangle]
pub extern "C" fn h_pool_close() {
    let mut p = make(2, &[8001], &|_| {});
    p.call(0);
    let x = vs::u8();
    let code = CODES[vs::choose(CODES.len() as u64) as usize];
    let (version, head, ends, close): (&str, &str, bool, bool) = [
        ("HTTP/1.1", "Content-Length: 2\r\nConnection: close\r\n", true, false),
        ("HTTP/1.1", "Content-Length: 2\r\nconnection: Close\r\n", true, false),
        ("HTTP/1.1", "CONNECTION: x-y, close\r\nContent-Length: 2\r\n", true, false),
        ("HTTP/1.1", "Connection: close, x-y\r\nContent-Length: 2\r\n", true, false),
        ("HTTP/1.1", "Connection: x-y\r\nContent-Length: 2\r\nConnection:close\r\n", true, false),
        ("HTTP/1.1", "x-z: close\r\n", true, true),
        ("HTTP/1.0", "", true, true),
        ("HTTP/1.0", "Content-Length: 2\r\n", true, false),
        ("HTTP/1.0", "Content-Length: 2\r\nConnection: close\r\n", true, false),
        ("HTTP/1.1", "Content-Length: 2\r\nConnection: keep-alive\r\n", false, false),
        ("HTTP/1.1", "Content-Length: 2\r\nx-connection: close\r\n", false, false),
        ("HTTP/1.1", "Content-Length: 2\r\nConnection: disclose\r\n", false, false),
    ][vs::choose(12) as usize];
    let fd = p.conns[0].fd;
    net().raw_send(fd, format!("{} {} Text\r\n{}\r\nA", version, code, head).as_bytes());
    net().raw_send(fd, &[x]);
    if close { net().raw_close(fd); p.conns[0].fd = usize::MAX; }
    p.w.quiesce();
    match p.finish(0) {
        Ok(Async::Ready(Out::Resp(r))) => vs::check(r == plain(code, &[b'A', x]), 240),
        _ => vs::fail(241),
    }
    p.conns[0].st = if ends { St::Gone } else { St::Idle(1) };
    p.clock = 1;
    p.audit();
    p.call(0);
    p.answer(1);
    if ends { vs::cover(11); }
    vs::cover(10);
}

/// A call is abandoned after any number of steps, with or without an idle connection at its
/// start, or while its connection attempt gets no answer: nothing stays behind.
#[no_mangle]
pub extern "C" fn h_pool_cancel() {
    let size = 1 + vs::choose(2) as usize;
    let mut p = make(size, &[8001], &|_| {});
    let kind = vs::choose(3);
    if kind == 1 { p.call(0); p.answer(0); }
    let port = if kind == 2 { net().no_listener = NoListener::Hang; 8002 } else { 8001 };
    let (mut mon, tx) = p.spawn(port, b'x');
    let k = vs::choose(vs::bound(24, 48)) as usize;
    p.w.steps(k);
    let _ = tx.send(());
    p.w.quiesce();
    match mon.poll() { Ok(Async::Ready(Out::Cancelled)) => {} _ => vs::fail(270) }
    // what the server has seen of it is over
    let mut seen = false;
    while let Some(fd) = net().raw_accept(p.ls[0]) { seen = true; vs::check(net().raw_eof(fd), 271); }
    if kind == 1 {
        let fd = p.conns[0].fd;
        if net().raw_eof(fd) { vs::cover(2); net().raw_take(fd); p.conns[0].st = St::Gone; } else { vs::cover(3); vs::check(net().raw_take(fd).is_empty(), 272); }
        vs::check(net().live_streams == if p.conns[0].st == St::Gone { 0 } else { 1 }, 273);
    } else { vs::check(net().live_streams == 0, 274); }
    if seen { vs::cover(1); }
    // and the address is not suspended
    if kind == 2 {
        let l = net().raw_listen(8002);
        let (tried, okay) = attempt(&mut p, 8002, Some(l));
        vs::check(tried && okay, 275);
    }
    p.call(0);
    let id = p.busy().unwrap_or(0);
    p.answer(id);
    vs::cover(10);
}

/// An address is suspended although there are, or will be, connections to it: calls fail until
/// the time has passed, and then use the idle connections again.
#[no_mangle]
pub extern "C" fn h_pool_mixed() {
    let a = [8001u16, 20001][vs::choose(2) as usize];
    let mut p = make(2, &[a, 8002], &|_| {});
    p.call(0);
    p.call(1);
    // there may be idle connections to the other address
    let idle = vs::choose(3);
    if idle > 0 { p.answer(1); }
    if idle == 2 { p.call(1); p.call(1); p.answer(2); p.answer(3); }
    let l = p.ls[0];
    net().raw_unlisten(l);
    let begin = net().real;
    let (tried, okay) = attempt(&mut p, a, None);
    vs::check(tried && !okay, 257);
    let end = net().real;
    p.ls[0] = net().raw_listen(a);
    // the calls in progress are answered, before or after the time has passed, or not at all
    let order = vs::choose(3);
    if order == 0 { p.answer(0); if idle == 0 { p.answer(1); } }
    let s = vs::u8() as u64;
    advance_s(s, 0);
    if order == 1 { p.answer(0); }
    for _ in 0..2 {
        let t1 = net().real;
        if t1 < later(begin, 60, 0) {
            let (tried, okay) = attempt(&mut p, a, None);
            if net().real >= later(begin, 60, 0) { return; }
            vs::cover(1);
            vs::check(!tried && !okay, 258);
        } else if t1 >= later(end, 60, 0) {
            vs::cover(2);
            p.call(0);
            let id = p.calls.len() - 1;
            p.answer(id);
        }
        p.audit();
        p.call(1);
    }
    vs::cover(10);
}

route!(RtPH, Head, Val("p"));
/// A response to HEAD has no body, whatever its header says: its connection is idle afterwards
/// unless the server ends it.
#[no_mangle]
pub extern "C" fn h_pool_head() {
    let mut w = World::new();
    let pool = RpcClientPool::with_pool_size(1 + vs::choose(2) as usize);
    let h = pool.handle();
    w.ex.handle().spawn(pool);
    let l = net().raw_listen(8001);
    let code = CODES[vs::choose(CODES.len() as u64) as usize];
    let (version, head, ends) = [
        ("1.1", "", false), ("1.1", "Content-Length: 0\r\n", false), ("1.1", "Content-Length: 77\r\n", false), ("1.1", "x-y: close\r\n", false),
        ("1.1", "Connection: close\r\n", true), ("1.1", "Content-Length: 5\r\nconnection: CLOSE\r\n", true), ("1.0", "Content-Length: 5\r\n", true), ("1.1", "Connection: keep-alive\r\n", false),
    ][vs::choose(8) as usize];
    macro_rules! call { ($rt:ty) => { w.ex.handle().spawn_monitor(h.client(addr(8001)).call::<Proc<$rt, Bare, Plain>>(Bare { body: vec![] })) } }
    let mut m = call!(RtPH);
    w.quiesce();
    let c = match net().raw_accept(l) { Some(c) => c, None => { vs::fail(280); return; } };
    vs::check(net().raw_take(c).starts_with(b"HEAD /p HTTP/1.1\r\n"), 281);
    net().raw_send(c, format!("HTTP/{} {} Text\r\n{}\r\n", version, code, head).as_bytes());
    w.quiesce();
    match m.poll() { Ok(Async::Ready(r)) => vs::check(r == plain(code, b""), 282), _ => vs::fail(283) }
    vs::check(net().raw_eof(c) == ends, 284);
    let second = vs::boolean();
    let mut m = if second { call!(RtPH) } else { call!(RtP) };
    w.quiesce();
    let d = match net().raw_accept(l) { Some(d) => { vs::cover(1); vs::check(ends, 285); d } None => { vs::cover(2); vs::check(!ends, 286); c } };
    vs::check(net().raw_take(d).starts_with(if second { b"HEAD /p HTTP/1.1\r\n" } else { b"POST /p HTTP/1.1\r\n" }), 287);
    net().raw_send(d, b"HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\n");
    let x = vs::u8();
    if !second { net().raw_send(d, &[x]); }
    w.quiesce();
    match m.poll() { Ok(Async::Ready(r)) => vs::check(r == if second { plain(200, b"") } else { plain(200, &[x]) }, 288), _ => vs::fail(289) }
    vs::cover(10);
}
