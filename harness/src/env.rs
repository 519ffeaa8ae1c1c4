//! Environment model: a deterministic in-memory operating system (TCP sockets,
//! epoll, pipes, clocks) that replaces the libc calls made by std, mio and
//! fibers.  The same code runs under the symbolic executor and in the native
//! replay build; fds below `BASE` are passed to the kernel when native.
#![allow(static_mut_refs)]
use std::collections::VecDeque;

pub const BASE: i32 = 1000;
const EAGAIN: i32 = 11;
const EBADF: i32 = 9;
const EINVAL: i32 = 22;
const EINPROGRESS: i32 = 115;
const ECONNREFUSED: i32 = 111;
const ECONNRESET: i32 = 104;
const ENOTCONN: i32 = 107;
const EPIPE: i32 = 32;
const ENOENT: i32 = 2;
const EEXIST: i32 = 17;
const EADDRINUSE: i32 = 98;

const EPOLLIN: u32 = 1;
const EPOLLOUT: u32 = 4;
const EPOLLERR: u32 = 8;
const EPOLLHUP: u32 = 16;
const EPOLLRDHUP: u32 = 0x2000;
const EPOLLET: u32 = 1 << 31;
const EPOLLONESHOT: u32 = 1 << 30;

pub struct Stream {
    pub rx: VecDeque<u8>,
    /// bytes that may be read before the reader sees EAGAIN (flow control by the harness)
    pub gate: usize,
    /// bytes that may be written before the writer sees EAGAIN
    pub wgate: usize,
    pub peer: usize, // index of the other end; usize::MAX if gone
    pub eof: bool,   // peer finished writing
    pub reset: bool,
    pub connecting: bool,
    pub refused: bool,
    pub closed: bool,
    pub raw: bool, // harness-owned end
    pub local: u16,
    pub remote: u16,
    /// at most this many bytes accepted by one send
    pub wcap: usize,
    pub rcap: usize,
}

pub enum Kind {
    Free,
    Sock,
    Epoll(Vec<Reg>),
    Pipe { rx: VecDeque<u8>, peer: usize },
    Listener { port: u16, backlog: VecDeque<usize>, raw: bool },
    Stream(Stream),
}
pub struct Reg { fd: usize, ev: u32, data: u64, armed: bool, seen: u32 }

/// What a connect() to an address with no listener does.
#[derive(Clone, Copy, PartialEq)]
pub enum NoListener { Refuse, Hang }

pub struct Net {
    pub fds: Vec<Kind>,
    pub bound: Vec<u16>,
    /// clocks as (seconds, nanoseconds): no division of symbolic times
    pub mono: (u64, u64),
    pub real: (u64, u64),
    pub no_listener: NoListener,
    pub next_port: u16,
    pub connects: Vec<u16>,
    pub wcap: usize,
    pub rcap: usize,
    pub live_streams: usize,
    /// system calls which show that something is going on
    pub acts: u64,
}

static mut NET: Option<Box<Net>> = None;

#[inline(never)]
pub fn net() -> &'static mut Net {
    unsafe {
        if NET.is_none() {
            NET = Some(Box::new(Net {
                fds: Vec::new(), bound: Vec::new(), mono: (1_000, 0), real: (1_700_000_000, 0),
                no_listener: NoListener::Refuse, next_port: 40000, connects: Vec::new(),
                wcap: usize::MAX, rcap: usize::MAX, live_streams: 0, acts: 0,
            }));
        }
        match NET { Some(ref mut n) => n, None => loop {} }
    }
}

extern "C" { fn __errno_location() -> *mut i32; }
fn err(e: i32) -> i32 { unsafe { *__errno_location() = e; } -1 }

impl Net {
    fn add(&mut self, k: Kind) -> usize {
        for i in 0..self.fds.len() {
            if let Kind::Free = self.fds[i] { self.fds[i] = k; self.bound[i] = 0; return i; }
        }
        self.fds.push(k);
        self.bound.push(0);
        self.fds.len() - 1
    }
    fn new_stream(&self, local: u16, remote: u16, raw: bool) -> Stream {
        Stream { rx: VecDeque::with_capacity(if raw { 1024 } else { 256 }), gate: usize::MAX, wgate: usize::MAX, peer: usize::MAX, eof: false, reset: false,
            connecting: false, refused: false, closed: false, raw, local, remote, wcap: self.wcap, rcap: self.rcap }
    }
    pub fn stream(&mut self, i: usize) -> &mut Stream {
        match self.fds[i] { Kind::Stream(ref mut s) => s, _ => panic!("not a stream") }
    }
    fn listener(&self, p: u16) -> Option<usize> {
        for (i, k) in self.fds.iter().enumerate() {
            if let Kind::Listener { port, .. } = *k { if port == p { return Some(i); } }
        }
        None
    }
    fn ready(&self, i: usize) -> u32 {
        match self.fds[i] {
            Kind::Stream(ref s) => {
                if s.connecting { return 0; }
                let mut r = 0;
                if s.refused { return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP; }
                if s.reset { return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP; }
                if !s.rx.is_empty() && s.gate > 0 { r |= EPOLLIN; }
                if s.eof && s.rx.is_empty() { r |= EPOLLIN | EPOLLRDHUP; }
                if s.wgate > 0 { r |= EPOLLOUT; }
                r
            }
            Kind::Listener { ref backlog, .. } => if backlog.is_empty() { 0 } else { EPOLLIN },
            Kind::Pipe { ref rx, .. } => (if rx.is_empty() { 0 } else { EPOLLIN }) | EPOLLOUT,
            Kind::Sock => EPOLLOUT | EPOLLHUP,
            _ => 0,
        }
    }
    // ---- harness side -------------------------------------------------
    /// A listener owned by the harness (a scripted server).
    pub fn raw_listen(&mut self, port: u16) -> usize {
        self.add(Kind::Listener { port, backlog: VecDeque::new(), raw: true })
    }
    pub fn raw_accept(&mut self, l: usize) -> Option<usize> {
        if let Kind::Listener { ref mut backlog, .. } = self.fds[l] { backlog.pop_front() } else { None }
    }
    /// The network decides the connection attempts to `port` which had no answer so far.
    pub fn settle(&mut self, port: u16) -> usize {
        let mut k = 0;
        for i in 0..self.fds.len() {
            match self.fds[i] { Kind::Stream(ref s) if s.connecting && s.remote == port => {} _ => continue }
            k += 1;
            let p = self.stream(i).local;
            self.stream(i).connecting = false;
            match self.listener(port) {
                None => self.stream(i).refused = true,
                Some(l) => {
                    let raw = match self.fds[l] { Kind::Listener { raw, .. } => raw, _ => false };
                    let mut t = self.new_stream(port, p, raw);
                    t.peer = i;
                    if !raw { self.live_streams += 1; }
                    let j = self.add(Kind::Stream(t));
                    self.stream(i).peer = j;
                    if let Kind::Listener { ref mut backlog, .. } = self.fds[l] { backlog.push_back(j); }
                }
            }
        }
        k
    }
    pub fn raw_unlisten(&mut self, l: usize) { self.fds[l] = Kind::Free; }
    /// A connection opened by the harness to a listener of the program.
    pub fn raw_connect(&mut self, port: u16) -> Option<usize> {
        let l = match self.listener(port) { Some(l) => l, None => return None };
        let p = self.next_port; self.next_port += 1;
        let a = self.new_stream(p, port, true);
        let b = self.new_stream(port, p, false);
        let a = self.add(Kind::Stream(a));
        let b = self.add(Kind::Stream(b));
        self.stream(a).peer = b;
        self.stream(b).peer = a;
        self.live_streams += 1;
        if let Kind::Listener { ref mut backlog, .. } = self.fds[l] { backlog.push_back(b); }
        Some(a)
    }
    pub fn raw_send(&mut self, c: usize, data: &[u8]) {
        let p = self.stream(c).peer;
        if p == usize::MAX { return; }
        self.stream(p).rx.extend(data);
    }
    pub fn raw_take(&mut self, c: usize) -> Vec<u8> {
        let s = self.stream(c);
        let mut v = Vec::with_capacity(s.rx.len());
        { let (a, b) = s.rx.as_slices(); v.extend_from_slice(a); v.extend_from_slice(b); }
        s.rx.clear();
        v
    }
    /// The harness's end will send no more, but still reads.
    pub fn raw_shut(&mut self, c: usize) {
        let p = self.stream(c).peer;
        if p != usize::MAX { self.stream(p).eof = true; }
    }
    pub fn raw_close(&mut self, c: usize) { self.close(c); }
    /// Abortive close: the peer sees ECONNRESET.
    pub fn raw_reset(&mut self, c: usize) {
        let p = self.stream(c).peer;
        if p != usize::MAX { let s = self.stream(p); s.reset = true; s.rx.clear(); }
        self.close(c);
    }
    /// Did the program close its end?
    pub fn raw_eof(&mut self, c: usize) -> bool { let s = self.stream(c); s.eof || s.peer == usize::MAX }
    fn close(&mut self, i: usize) {
        self.acts += 1;
        match self.fds[i] {
            Kind::Stream(ref s) => {
                let p = s.peer;
                let unread = !s.rx.is_empty();
                if p != usize::MAX {
                    let q = self.stream(p);
                    q.eof = true;
                    q.peer = usize::MAX;
                    // closing with unread input resets the connection
                    if unread && !q.raw { q.reset = true; }
                }
                if !matches!(self.fds[i], Kind::Stream(ref s) if s.raw) { self.live_streams -= 1; }
            }
            Kind::Listener { .. } => {}
            _ => {}
        }
        self.fds[i] = Kind::Free;
        for k in self.fds.iter_mut() {
            if let Kind::Epoll(ref mut r) = *k { r.retain(|x| x.fd != i); }
        }
    }
}

fn ix(fd: i32) -> Option<usize> {
    if fd < BASE { return None; }
    let i = (fd - BASE) as usize;
    let n = net();
    if i >= n.fds.len() { return None; }
    if let Kind::Free = n.fds[i] { return None; }
    Some(i)
}

#[cfg(feature = "replay")]
unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        in("r8") 0i64, in("r9") 0i64, lateout("rcx") _, lateout("r11") _);
    if r < 0 { *__errno_location() = -r as i32; -1 } else { r }
}
#[cfg(not(feature = "replay"))]
unsafe fn sys(_n: i64, _a: i64, _b: i64, c: i64, _d: i64) -> i64 { c }

#[repr(C)] pub struct SockIn { fam: u16, port: u16, addr: u32, zero: [u8; 8] }
#[repr(C)] pub struct IoVec { p: *mut u8, n: usize }
#[repr(C, packed)] pub struct EpEvent { ev: u32, data: u64 }
#[repr(C)] pub struct TimeSpec { s: i64, ns: i64 }

#[no_mangle] pub unsafe extern "C" fn socket(_d: i32, _t: i32, _p: i32) -> i32 { BASE + net().add(Kind::Sock) as i32 }
/// Listeners are identified by one number: 127.0.0.k:p is p + 1000 * (k - 1).
/// [::1%s]:p is p + 12000 + 1000 * s.
unsafe fn key(a: *const SockIn) -> u16 {
    if (*a).fam == 10 {
        let scope = *((a as *const u8).add(24) as *const u32);
        return u16::from_be((*a).port).wrapping_add(12000).wrapping_add(1000 * (scope & 0xf) as u16);
    }
    let k = (*a).addr.to_be() & 0xff;
    u16::from_be((*a).port).wrapping_add(1000 * (k.wrapping_sub(1) & 0xf) as u16)
}
#[no_mangle] pub unsafe extern "C" fn bind(fd: i32, a: *const SockIn, _l: u32) -> i32 {
    let i = match ix(fd) { Some(i) => i, None => return err(EBADF) };
    let p = key(a);
    if net().listener(p).is_some() { return err(EADDRINUSE); }
    net().bound[i] = p;
    0
}
#[no_mangle] pub unsafe extern "C" fn listen(fd: i32, _n: i32) -> i32 {
    let i = match ix(fd) { Some(i) => i, None => return err(EBADF) };
    let port = net().bound[i];
    net().fds[i] = Kind::Listener { port, backlog: VecDeque::new(), raw: false };
    0
}
unsafe fn put_addr(a: *mut SockIn, l: *mut u32, port: u16) {
    if a.is_null() { return; }
    (*a).fam = 2; (*a).port = port.to_be(); (*a).addr = 0x0100_007f; (*a).zero = [0; 8];
    if !l.is_null() { *l = 16; }
}
#[no_mangle] pub unsafe extern "C" fn accept(fd: i32, a: *mut SockIn, l: *mut u32) -> i32 { accept4(fd, a, l, 0) }
#[no_mangle] pub unsafe extern "C" fn accept4(fd: i32, a: *mut SockIn, l: *mut u32, _f: i32) -> i32 {
    let i = match ix(fd) { Some(i) => i, None => return err(EBADF) };
    let c = match net().fds[i] {
        Kind::Listener { ref mut backlog, .. } => backlog.pop_front(),
        _ => return err(EINVAL),
    };
    match c {
        None => err(EAGAIN),
        Some(c) => { let r = net().stream(c).remote; put_addr(a, l, r); BASE + c as i32 }
    }
}
#[no_mangle] pub unsafe extern "C" fn connect(fd: i32, a: *const SockIn, _l: u32) -> i32 {
    let i = match ix(fd) { Some(i) => i, None => return err(EBADF) };
    let port = key(a);
    let n = net();
    if let Kind::Stream(_) = n.fds[i] { return 0; }
    n.acts += 1;
    n.connects.push(port);
    let p = n.next_port; n.next_port += 1;
    match n.listener(port) {
        None => {
            let mut s = n.new_stream(p, port, false);
            if n.no_listener == NoListener::Refuse { s.refused = true; } else { s.connecting = true; }
            n.live_streams += 1;
            n.fds[i] = Kind::Stream(s);
        }
        Some(l) => {
            let raw = match n.fds[l] { Kind::Listener { raw, .. } => raw, _ => false };
            let mut s = n.new_stream(p, port, false);
            let mut t = n.new_stream(port, p, raw);
            t.peer = i;
            if !raw { n.live_streams += 1; }
            n.live_streams += 1;
            let j = n.add(Kind::Stream(t));
            s.peer = j;
            n.fds[i] = Kind::Stream(s);
            if let Kind::Listener { ref mut backlog, .. } = n.fds[l] { backlog.push_back(j); }
        }
    }
    err(EINPROGRESS)
}
#[no_mangle] pub unsafe extern "C" fn getsockopt(fd: i32, _l: i32, o: i32, v: *mut i32, n: *mut u32) -> i32 {
    let i = match ix(fd) { Some(i) => i, None => return err(EBADF) };
    let mut r = 0;
    if o == 4 { // SO_ERROR
        if let Kind::Stream(ref mut s) = net().fds[i] {
            if s.refused { r = ECONNREFUSED; } else if s.reset { r = ECONNRESET; }
        }
    }
    *v = r;
    if !n.is_null() { *n = 4; }
    0
}
#[no_mangle] pub unsafe extern "C" fn setsockopt(_fd: i32, _l: i32, _o: i32, _v: *const u8, _n: u32) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn getsockname(fd: i32, a: *mut SockIn, l: *mut u32) -> i32 {
    let i = match ix(fd) { Some(i) => i, None => return err(EBADF) };
    let n = net();
    let b = n.bound[i];
    let p = match n.fds[i] { Kind::Listener { port, .. } => port, Kind::Stream(ref s) => s.local, _ => b };
    put_addr(a, l, p); 0
}
#[no_mangle] pub unsafe extern "C" fn getpeername(fd: i32, a: *mut SockIn, l: *mut u32) -> i32 {
    let i = match ix(fd) { Some(i) => i, None => return err(EBADF) };
    match net().fds[i] {
        Kind::Stream(ref s) if !s.connecting && !s.refused => { put_addr(a, l, s.remote); 0 }
        _ => err(ENOTCONN),
    }
}
#[no_mangle] pub unsafe extern "C" fn ioctl(_fd: i32, _r: u64, _a: *mut u8) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: i32, c: i32, _a: i64) -> i32 {
    if fd < BASE { return sys(72, fd as i64, c as i64, _a, 0) as i32; }
    0
}
unsafe fn take(rx: &mut VecDeque<u8>, p: *mut u8, k: usize) {
    {
        let (a, b) = rx.as_slices();
        let i = k.min(a.len());
        std::ptr::copy_nonoverlapping(a.as_ptr(), p, i);
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(i), k - i);
    }
    rx.drain(..k);
}
unsafe fn do_read(i: usize, p: *mut u8, n: usize) -> isize {
    net().acts += 1;
    match net().fds[i] {
        Kind::Stream(ref mut s) => {
            if s.refused { return err(ECONNREFUSED) as isize; }
            if s.reset { return err(ECONNRESET) as isize; }
            if s.connecting { return err(EAGAIN) as isize; }
            if s.rx.is_empty() { return if s.eof { 0 } else { err(EAGAIN) as isize }; }
            let k = n.min(s.rx.len()).min(s.gate).min(s.rcap);
            if k == 0 { return if n == 0 { 0 } else { err(EAGAIN) as isize }; }
            if s.gate != usize::MAX { s.gate -= k; }
            take(&mut s.rx, p, k);
            k as isize
        }
        Kind::Pipe { ref mut rx, .. } => {
            if rx.is_empty() { return err(EAGAIN) as isize; }
            let k = n.min(rx.len());
            for j in 0..k { *p.add(j) = rx.pop_front().unwrap_or(0); }
            k as isize
        }
        _ => err(ENOTCONN) as isize,
    }
}
unsafe fn do_write(i: usize, p: *const u8, n: usize) -> isize {
    let nt = net();
    nt.acts += 1;
    let peer = match nt.fds[i] {
        Kind::Stream(ref s) => {
            if s.refused { return err(ECONNREFUSED) as isize; }
            if s.connecting { return err(EAGAIN) as isize; }
            if s.reset { return err(ECONNRESET) as isize; }
            if s.peer == usize::MAX { return err(EPIPE) as isize; }
            if s.wgate == 0 && n > 0 { return err(EAGAIN) as isize; }
            s.peer
        }
        Kind::Pipe { peer, .. } => peer,
        _ => return err(ENOTCONN) as isize,
    };
    let k = match nt.fds[i] { Kind::Stream(ref mut s) => { let k = n.min(s.wcap).min(s.wgate); if s.wgate != usize::MAX { s.wgate -= k; } k } _ => n };
    match nt.fds[peer] {
        Kind::Stream(ref mut s) => s.rx.extend(std::slice::from_raw_parts(p, k)),
        Kind::Pipe { ref mut rx, .. } => rx.extend(std::slice::from_raw_parts(p, k)),
        _ => return err(EPIPE) as isize,
    }
    k as isize
}
#[no_mangle] pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    if fd < BASE { return sys(0, fd as i64, p as i64, n as i64, 0) as isize; }
    match ix(fd) { Some(i) => do_read(i, p, n), None => err(EBADF) as isize }
}
#[no_mangle] pub unsafe extern "C" fn recv(fd: i32, p: *mut u8, n: usize, _f: i32) -> isize { read(fd, p, n) }
#[no_mangle] pub unsafe extern "C" fn readv(fd: i32, v: *const IoVec, c: i32) -> isize {
    for j in 0..c as usize {
        let x = &*v.add(j);
        if x.n > 0 { return read(fd, x.p, x.n); }
    }
    0
}
#[no_mangle] pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if fd < BASE { return sys(1, fd as i64, p as i64, n as i64, 0) as isize; }
    match ix(fd) { Some(i) => do_write(i, p, n), None => err(EBADF) as isize }
}
#[no_mangle] pub unsafe extern "C" fn send(fd: i32, p: *const u8, n: usize, _f: i32) -> isize { write(fd, p, n) }
#[no_mangle] pub unsafe extern "C" fn writev(fd: i32, v: *const IoVec, c: i32) -> isize {
    for j in 0..c as usize {
        let x = &*v.add(j);
        if x.n > 0 { return write(fd, x.p, x.n); }
    }
    0
}
#[no_mangle] pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd < BASE { return sys(3, fd as i64, 0, 0, 0) as i32; }
    match ix(fd) { Some(i) => { net().close(i); 0 } None => err(EBADF) }
}
#[no_mangle] pub unsafe extern "C" fn shutdown(fd: i32, _h: i32) -> i32 {
    match ix(fd) {
        Some(i) => {
            let p = match net().fds[i] { Kind::Stream(ref s) => s.peer, _ => usize::MAX };
            if p != usize::MAX { net().stream(p).eof = true; }
            0
        }
        None => err(EBADF),
    }
}
#[no_mangle] pub unsafe extern "C" fn pipe(f: *mut i32) -> i32 {
    let a = net().add(Kind::Pipe { rx: VecDeque::new(), peer: 0 });
    let b = net().add(Kind::Pipe { rx: VecDeque::new(), peer: a });
    *f = BASE + a as i32; *f.add(1) = BASE + b as i32;
    0
}
#[no_mangle] pub unsafe extern "C" fn pipe2(f: *mut i32, _fl: i32) -> i32 { pipe(f) }
#[no_mangle] pub unsafe extern "C" fn epoll_create(_n: i32) -> i32 { BASE + net().add(Kind::Epoll(Vec::new())) as i32 }
#[no_mangle] pub unsafe extern "C" fn epoll_create1(_n: i32) -> i32 { epoll_create(0) }
#[no_mangle] pub unsafe extern "C" fn epoll_ctl(ep: i32, op: i32, fd: i32, e: *const EpEvent) -> i32 {
    let (i, j) = match (ix(ep), ix(fd)) { (Some(i), Some(j)) => (i, j), _ => return err(EBADF) };
    net().acts += 1;
    let (ev, data) = if e.is_null() { (0, 0) } else { ((*e).ev, (*e).data) };
    let regs = match net().fds[i] { Kind::Epoll(ref mut r) => r, _ => return err(EINVAL) };
    let mut at = usize::MAX;
    for k in 0..regs.len() { if regs[k].fd == j { at = k; } }
    match op {
        1 => { if at != usize::MAX { return err(EEXIST); } regs.push(Reg { fd: j, ev, data, armed: true, seen: 0 }); }
        3 => { if at == usize::MAX { return err(ENOENT); } regs[at] = Reg { fd: j, ev, data, armed: true, seen: 0 }; }
        2 => { if at == usize::MAX { return err(ENOENT); } regs.remove(at); }
        _ => return err(EINVAL),
    }
    0
}
#[no_mangle] pub unsafe extern "C" fn epoll_wait(ep: i32, out: *mut EpEvent, max: i32, timeout: i32) -> i32 {
    let i = match ix(ep) { Some(i) => i, None => return err(EBADF) };
    let n = net();
    let mut regs = match n.fds[i] { Kind::Epoll(ref mut r) => std::mem::replace(r, Vec::new()), _ => return err(EINVAL) };
    let mut k = 0;
    for r in regs.iter_mut() {
        if !r.armed || k >= max { continue; }
        let rd = n.ready(r.fd) & (r.ev | EPOLLERR | EPOLLHUP);
        let fresh = if r.ev & EPOLLET != 0 { rd & !r.seen } else { rd };
        r.seen = rd;
        if fresh != 0 {
            (*out.add(k as usize)).ev = rd;
            (*out.add(k as usize)).data = r.data;
            k += 1;
            if r.ev & EPOLLONESHOT != 0 { r.armed = false; }
        }
    }
    n.fds[i] = Kind::Epoll(regs);
    if k > 0 { n.acts += 1; }
    if k == 0 && timeout > 0 { advance(timeout as u64 * 1_000_000); }
    k
}
pub const GIGA: u64 = 1_000_000_000;
pub fn later(t: (u64, u64), s: u64, ns: u64) -> (u64, u64) {
    let n = t.1 + ns;
    if n >= GIGA { (t.0 + s + 1, n - GIGA) } else { (t.0 + s, n) }
}
pub fn advance(ns: u64) { advance_s(ns / GIGA, ns % GIGA) }
pub fn advance_s(s: u64, ns: u64) { let n = net(); n.mono = later(n.mono, s, ns); n.real = later(n.real, s, ns); }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut TimeSpec) -> i32 {
    let n = net();
    let v = if c == 0 { n.real } else { n.mono };
    (*t).s = v.0 as i64;
    (*t).ns = v.1 as i64;
    0
}
#[no_mangle] pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    for i in 0..n { *p.add(i) = 0; }
    n as isize
}
#[no_mangle] pub unsafe extern "C" fn dlsym(_h: *mut u8, _n: *const u8) -> *mut u8 { std::ptr::null_mut() }
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> i32 { 0 }
/// Messages of system errors.
#[no_mangle] pub unsafe extern "C" fn __xpg_strerror_r(_e: i32, b: *mut u8, n: usize) -> i32 {
    let m = b"error\0";
    if n < m.len() { return 34; }
    for i in 0..m.len() { *b.add(i) = m[i]; }
    0
}
