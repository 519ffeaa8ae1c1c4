//! Routing and registration.
use crate::route;
use crate::vs;
use crate::env::net;
use crate::world::*;

route!(R0, Get, Val("a"));
route!(R1, Get, Val("a"), Val("b"));
route!(R2, Get, Val("a"), Var);
route!(R3, Post, Val("a"), Val("b"));
route!(R4, Get, Var, Val("c"));
route!(R5, Put, Var, Var);
route!(R6, Get,);
route!(R7, Get, Val("a"), Val(""));
route!(R8, Get, Var, Val("b"), Val("c"));
route!(R9, Post, Val("a"), Var, Var);
route!(R10, Post, Var);

type Seg = Option<&'static [u8]>;
pub const N: usize = 11;
static TABLE: [(&[u8], &[Seg]); N] = [
    (b"GET", &[Some(b"a")]),
    (b"GET", &[Some(b"a"), Some(b"b")]),
    (b"GET", &[Some(b"a"), None]),
    (b"POST", &[Some(b"a"), Some(b"b")]),
    (b"GET", &[None, Some(b"c")]),
    (b"PUT", &[None, None]),
    (b"GET", &[Some(b"")]),
    (b"GET", &[Some(b"a"), Some(b"")]),
    (b"GET", &[None, Some(b"b"), Some(b"c")]),
    (b"POST", &[Some(b"a"), None, None]),
    (b"POST", &[None]),
];
pub fn register(b: &mut htrpc::RpcServerBuilder, i: usize, tag: u8, l: &Log) -> bool {
    let t = Tag(tag, l.clone());
    match i {
        0 => b.register(t, proc::<R0, Bare, Res>()),
        1 => b.register(t, proc::<R1, Bare, Res>()),
        2 => b.register(t, proc::<R2, Bare, Res>()),
        3 => b.register(t, proc::<R3, Bare, Res>()),
        4 => b.register(t, proc::<R4, Bare, Res>()),
        5 => b.register(t, proc::<R5, Bare, Res>()),
        6 => b.register(t, proc::<R6, Bare, Res>()),
        7 => b.register(t, proc::<R7, Bare, Res>()),
        8 => b.register(t, proc::<R8, Bare, Res>()),
        9 => b.register(t, proc::<R9, Bare, Res>()),
        _ => b.register(t, proc::<R10, Bare, Res>()),
    }.is_ok()
}
pub fn split(path: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut cur = vec![];
    for &c in path { if c == b'/' { v.push(std::mem::replace(&mut cur, vec![])); } else { cur.push(c); } }
    v.push(cur);
    v
}
fn matches(segs: &[Seg], p: &[Vec<u8>]) -> bool {
    segs.len() == p.len() && segs.iter().zip(p).all(|(s, x)| s.map_or(true, |s| s == &x[..]))
}
/// Constant segments beat variables at the first position where two matches differ.
fn better(a: &[Seg], b: &[Seg]) -> bool {
    for (x, y) in a.iter().zip(b) {
        if x.is_some() != y.is_some() { return x.is_some(); }
    }
    false
}
/// What the routing rules demand: Ok(procedure) or the error status.
pub fn expected(reg: &[bool], method: &[u8], p: &[Vec<u8>]) -> Result<usize, u16> {
    let mut best: Option<usize> = None;
    let mut any = false;
    for i in 0..N {
        if !reg[i] || !matches(TABLE[i].1, p) { continue; }
        any = true;
        if TABLE[i].0 != method { continue; }
        best = match best {
            None => Some(i),
            Some(b) => Some(if better(TABLE[i].1, TABLE[b].1) { i } else { b }),
        };
    }
    best.ok_or(if any { 405 } else { 404 })
}
fn ask(w: &mut World, method: &[u8], path: &[u8]) -> Option<Http> {
    let mut m = method.to_vec();
    m.extend_from_slice(b" /");
    m.extend_from_slice(path);
    m.extend_from_slice(b" HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
    let c = w.raw();
    let out = w.exchange(c, &m);
    crate::env::net().raw_close(c);
    parse_http(&out, false)
}
fn run(reg: &[bool], reverse: bool, method: &[u8], path: &[u8], segs: &[Vec<u8>]) {
    let mut w = World::new();
    let l = log();
    let mut b = w.builder();
    for k in 0..N {
        let i = if reverse { N - 1 - k } else { k };
        if reg[i] && !register(&mut b, i, i as u8 + 1, &l) { vs::fail(20); }
    }
    w.start(b);
    let h = match ask(&mut w, method, path) { Some(h) => h, None => { vs::fail(21); return; } };
    let inv = l.lock().unwrap().clone();
    match expected(reg, method, segs) {
        Ok(i) => {
            vs::cover(1);
            vs::check(h.status == 200, 22);
            vs::check(h.body.len() == 1 && h.body[0] == i as u8 + 1, 23);
            vs::check(inv.len() == 1 && inv[0] == i as u8 + 1, 24);
        }
        Err(s) => {
            vs::cover(s as u32);
            vs::check(h.status == s, 25);
            vs::check(is_problem(&h, s), 26);
            vs::check(inv.is_empty(), 27);
        }
    }
}
fn plain(b: u8) -> bool {
    (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z') || (b >= b'0' && b <= b'9') || b == b'-' || b == b'_' || b == b'~' || b == b'/' || b == b'!' || b == b'@' || b == b':'
        || b == b';' || b == b',' || b == b'$' || b == b'&' || b == b'\'' || b == b'(' || b == b')' || b == b'*' || b == b'+' || b == b'=' || b == b'|'
}
/// All procedures registered; any short path; several methods; both registration orders.
#[no_mangle]
pub extern "C" fn h_route_path() {
    let n = vs::len(vs::bound(3, 4));
    let mut p = vec![];
    for _ in 0..n { let b = vs::u8(); vs::assume(plain(b)); p.push(b); }
    vs::note(0, &p);
    let m: &[u8] = [&b"GET"[..], b"POST", b"PUT", b"DELETE"][vs::choose(4) as usize];
    let rev = vs::boolean();
    let segs = split(&p);
    run(&[true; N], rev, m, &p, &segs);
}
/// Any subset of the procedures, paths made of the interesting segments.
#[no_mangle]
pub extern "C" fn h_route_subset() {
    let mut reg = [false; N];
    let group: &[usize] = [&[1usize, 2, 4, 5, 8][..], &[0, 3, 6, 7, 10], &[1, 3, 5, 8, 9]][vs::choose(3) as usize];
    for &i in group { reg[i] = vs::pick(vs::boolean() as u64) == 1; }
    let m: &[u8] = [&b"GET"[..], b"POST", b"PUT"][vs::choose(3) as usize];
    let k = vs::choose(3) + 1;
    let mut p: Vec<u8> = vec![];
    let mut segs: Vec<Vec<u8>> = vec![];
    for j in 0..k {
        if j > 0 { p.push(b'/'); }
        let s: &[u8] = [&b"a"[..], b"b", b"c", b"x", b""][vs::choose(if vs::thorough() { 5 } else { 4 }) as usize];
        p.extend_from_slice(s);
        segs.push(s.to_vec());
    }
    vs::note(0, &p);
    run(&reg, false, m, &p, &segs);
}
/// A constant segment matches every percent-encoded spelling of itself and nothing else.
#[no_mangle]
pub extern "C" fn h_route_escaped() {
    let mut reg = [false; N];
    reg[0] = true; reg[2] = true; reg[10] = true;
    let two = vs::boolean();
    let x = vs::u8();
    let hex = |d: u8, up: bool| if d < 10 { b'0' + d } else if up { b'A' + d - 10 } else { b'a' + d - 10 };
    // "." and ".." are removed from URL paths even when escaped
    vs::assume(x != b'.');
    let up = vs::boolean();
    let mut p = vec![b'%', hex(x >> 4, up), hex(x & 15, up)];
    let mut segs = vec![vec![x]];
    if two { p.extend_from_slice(b"/z"); segs.push(b"z".to_vec()); }
    vs::note(0, &p);
    run(&reg, false, b"GET", &p, &segs);
}
route!(L0, Get, Val("a b"));
route!(L1, Get, Val("\u{e9}?#%"), Var);
route!(L2, Get, Val("x/y"), Val("&=+"));
route!(L3, Get, Var, Val("%41"));
route!(L4, Get, Val("a"), Val("b"), Var, Val(""));
route!(L5, Get,);
/// The client reaches the procedure it names, whatever its constant segments contain.
#[no_mangle]
pub extern "C" fn h_route_agree() {
    use crate::args::rt;
    let v = vs::u8();
    vs::assume(v > 0x20 && v < 0x7f && v != b'.');
    let s = String::from_utf8(vec![v]).unwrap_or_default();
    match vs::choose(6) {
        0 => rt::<L0, _, _, _>(Req { path: (), query: Nil {}, header: Nil {}, body: vec![1] }, false),
        1 => rt::<L1, _, _, _>(Req { path: (s,), query: Nil {}, header: Nil {}, body: vec![] }, false),
        2 => rt::<L2, _, _, _>(Req { path: (), query: Nil {}, header: Nil {}, body: vec![] }, false),
        3 => rt::<L3, _, _, _>(Req { path: (s,), query: Nil {}, header: Nil {}, body: vec![] }, false),
        4 => rt::<L4, _, _, _>(Req { path: (s,), query: Nil {}, header: Nil {}, body: vec![] }, false),
        _ => rt::<L5, _, _, _>(Req { path: (), query: Nil {}, header: Nil {}, body: vec![] }, false),
    }
}
/// Registering two procedures: a conflict is refused and the first one stays.
#[no_mangle]
pub extern "C" fn h_register_conflict() {
    let i = vs::choose(N as u64) as usize;
    let j = vs::choose(N as u64) as usize;
    let k = if vs::thorough() { vs::choose(N as u64) as usize } else { [5usize, 10, 0][vs::choose(3) as usize] };
    let mut w = World::new();
    let l = log();
    let mut b = w.builder();
    let same = |x: usize, y: usize| x == y;
    vs::check(register(&mut b, i, 1, &l), 30);
    let r2 = register(&mut b, j, 2, &l);
    vs::check(r2 != same(i, j), 31);
    let r3 = register(&mut b, k, 3, &l);
    vs::check(r3 != (same(i, k) || same(j, k)), 32);
    w.start(b);
    // every accepted procedure is reachable (paths chosen so that nothing shadows it)
    for (n, &x) in [i, j, k].iter().enumerate() {
        let own = match n { 0 => 1u8, 1 => if r2 { 2 } else { 1 }, _ => if r3 { 3 } else if same(i, k) { 1 } else if r2 { 2 } else { 1 } };
        let path: &[u8] = [&b"a"[..], b"a/b", b"a/q", b"a/b", b"q/c", b"q/q", b"", b"a/", b"q/b/c", b"a/q/q", b"q"][x];
        let h = match ask(&mut w, TABLE[x].0, path) { Some(h) => h, None => { vs::fail(33); return; } };
        vs::check(h.status == 200 && h.body == [own], 34);
    }
    if same(i, j) { vs::cover(1) } else { vs::cover(2) }
}

use crate::e2e::{M0, M1, M2, M3, M4, M5, M6, M7, M8};
static METHODS: [&[u8]; 9] = [b"GET", b"HEAD", b"PUT", b"POST", b"DELETE", b"OPTIONS", b"PATCH", b"TRACE", b"CONNECT"];
fn register_m(b: &mut htrpc::RpcServerBuilder, i: usize, tag: u8, l: &Log) -> bool {
    let t = Tag(tag, l.clone());
    match i {
        0 => b.register(t, proc::<M0, Bare, Res>()),
        1 => b.register(t, proc::<M1, Bare, Res>()),
        2 => b.register(t, proc::<M2, Bare, Res>()),
        3 => b.register(t, proc::<M3, Bare, Res>()),
        4 => b.register(t, proc::<M4, Bare, Res>()),
        5 => b.register(t, proc::<M5, Bare, Res>()),
        6 => b.register(t, proc::<M6, Bare, Res>()),
        7 => b.register(t, proc::<M7, Bare, Res>()),
        _ => b.register(t, proc::<M8, Bare, Res>()),
    }.is_ok()
}
/// Two procedures with the same entry point and any methods; requests with any method.
#[no_mangle]
pub extern "C" fn h_route_methods() {
    let i = vs::choose(9) as usize;
    let j = vs::choose(9) as usize;
    let mut w = World::new();
    let l = log();
    let mut b = w.builder();
    vs::check(register_m(&mut b, i, 1, &l), 35);
    vs::check(register_m(&mut b, j, 2, &l) != (i == j), 36);
    w.start(b);
    let k = vs::choose(9) as usize;
    let mut m = METHODS[k].to_vec();
    m.extend_from_slice(b" /m HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
    let c = w.raw();
    let out = w.exchange(c, &m);
    let h = match parse_http(&out, k == 1) { Some(h) => h, None => { vs::fail(37); return; } };
    let inv = l.lock().unwrap().clone();
    let want = if k == i { 1u8 } else if k == j { 2 } else { 0 };
    if want > 0 {
        vs::cover(1);
        vs::check(h.status == 200 && inv == [want] && (k == 1 || h.body == [want]) && h.rest.is_empty(), 38);
    } else {
        vs::cover(405);
        vs::check(h.status == 405 && inv.is_empty() && h.rest.is_empty() && (k == 1 || is_problem(&h, 405)), 39);
    }
}

use htrpc::types::{HttpMethod, PathSegment};
use std::sync::atomic::{AtomicUsize, Ordering};
/// The shape of `Long`, fixed before anything is registered: (length of a name, number of segments).
static NAME: AtomicUsize = AtomicUsize::new(0);
static DEPTH: AtomicUsize = AtomicUsize::new(0);
fn name(n: usize) -> String { (0..n).map(|i| b"aZ0-Bq_9~"[i % 9] as char).collect() }
pub struct Long;
impl Route for Long {
    fn method() -> HttpMethod { HttpMethod::Get }
    fn segs() -> &'static [PathSegment] {
        let d = DEPTH.load(Ordering::SeqCst);
        let mut v = vec![];
        for i in 0..d - 1 { v.push(if i % 3 == 1 { PathSegment::Var } else { PathSegment::Val("S") }); }
        v.push(PathSegment::Val(Box::leak(name(NAME.load(Ordering::SeqCst)).into_boxed_str())));
        Box::leak(v.into_boxed_slice())
    }
}
/// Long names and many segments: only the very same path reaches the procedure.
#[no_mangle]
pub extern "C" fn h_route_long() {
    let (n, d) = [(9usize, 1usize), (17, 1), (33, 1), (65, 1), (129, 1), (257, 1), (600, 1), (1, 5), (2, 9), (1, 17), (3, 33), (1, 65), (1, 129), (1, 260)][vs::choose(14) as usize];
    NAME.store(n, Ordering::SeqCst);
    DEPTH.store(d, Ordering::SeqCst);
    let mut w = World::new();
    let l = log();
    let mut b = w.builder();
    if b.register(Tag(1, l.clone()), proc::<Long, Bare, Res>()).is_err() { vs::fail(1); return; }
    if b.register(Tag(2, l.clone()), proc::<R10, Bare, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let mut segs: Vec<Vec<u8>> = (0..d - 1).map(|i| if i % 3 == 1 { b"v".to_vec() } else { b"S".to_vec() }).collect();
    segs.push(name(n).into_bytes());
    let same;
    match vs::choose(7) {
        // one arbitrary character somewhere
        k if k < 3 => {
            let x = vs::u8();
            vs::assume(plain(x) && x != b'/');
            if d > 1 {
                let i = [0, d / 2, d - 1][k as usize];
                same = i < d - 1 && i % 3 == 1 || segs[i][0] == x;
                segs[i][0] = x;
            } else {
                let i = [0, n / 2, n - 1][k as usize];
                same = segs[0][i] == x;
                segs[0][i] = x;
            }
        }
        3 => { segs[d - 1].pop(); same = false; }
        4 => { segs[d - 1].push(b'a'); same = false; }
        5 => { segs.push(b"v".to_vec()); same = false; }
        _ => { segs.push(vec![]); same = false; }
    }
    let mut p = vec![];
    for (i, s) in segs.iter().enumerate() { if i > 0 { p.push(b'/'); } p.extend_from_slice(s); }
    vs::note(0, &p);
    let h = match ask(&mut w, b"GET", &p) { Some(h) => h, None => { vs::fail(40); return; } };
    let inv = l.lock().unwrap().clone();
    if same {
        vs::cover(1);
        vs::check(h.status == 200 && h.body == [1] && inv == [1], 41);
    } else {
        let s = if segs.len() == 1 { 405 } else { 404 };
        vs::cover(s as u32);
        vs::check(h.status == s && is_problem(&h, s) && inv.is_empty(), 42);
    }
    // and the client gets there
    if d == 1 {
        match w.call::<Long, Bare, Res>(Bare { body: vec![] }) { Some(Ok(r)) => vs::check(r == ok(&[1]), 43), _ => vs::fail(44) }
    }
}

/// All methods on one entry point, in any rotation and either direction: all are accepted, none twice.
#[no_mangle]
pub extern "C" fn h_register_all() {
    let mut w = World::new();
    let l = log();
    let mut b = w.builder();
    let r = vs::choose(9) as usize;
    let back = vs::boolean();
    let again = vs::choose(9) as usize;
    let mut done = vec![];
    for n in 0..9 {
        let i = if back { (r + 9 - n) % 9 } else { (r + n) % 9 };
        vs::check(register_m(&mut b, i, i as u8 + 1, &l), 45);
        done.push(i);
        if n % 4 == 0 { vs::check(register_m(&mut b, again, 99, &l) != done.contains(&again), 46); if !done.contains(&again) { return; } }
    }
    w.start(b);
    for k in 0..9 {
        let mut m = METHODS[k].to_vec();
        m.extend_from_slice(b" /m HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
        let c = w.raw();
        let out = w.exchange(c, &m);
        net().raw_close(c);
        match parse_http(&out, k == 1) { Some(h) => vs::check(h.status == 200 && (k == 1 || h.body == [k as u8 + 1]) && l.lock().unwrap().len() == k + 1 && l.lock().unwrap()[k] == k as u8 + 1, 47), None => vs::fail(48) }
    }
    vs::cover(1);
}

static NEAR: AtomicUsize = AtomicUsize::new(0);
/// Like `Long`, but for one difference (0: none).
pub struct Near;
fn near(kind: usize, n: usize, d: usize) -> Vec<Option<String>> {
    let mut v: Vec<Option<String>> = (0..d - 1).map(|i| if i % 3 == 1 { None } else { Some("S".to_string()) }).collect();
    let mut last = name(n);
    match kind {
        1 => { last.pop(); last.push('!'); }
        2 => last.push('a'),
        3 => { last.remove(0); last.insert(0, 'A'); }
        _ => {}
    }
    v.push(Some(last));
    match kind {
        4 => v.push(Some("x".to_string())),
        5 => v.push(None),
        6 => { v.pop(); v.push(None); }
        7 => v[0] = if d > 1 { None } else { Some("S".to_string()) },
        8 => { v.pop(); v.push(Some("".to_string())); }
        _ => {}
    }
    v
}
impl Route for Near {
    fn method() -> HttpMethod { HttpMethod::Get }
    fn segs() -> &'static [PathSegment] {
        let v: Vec<PathSegment> = near(NEAR.load(Ordering::SeqCst), NAME.load(Ordering::SeqCst), DEPTH.load(Ordering::SeqCst)).into_iter()
            .map(|s| match s { Some(s) => PathSegment::Val(Box::leak(s.into_boxed_str())), None => PathSegment::Var }).collect();
        Box::leak(v.into_boxed_slice())
    }
}
/// Long entry points: the very same one is refused, one with any difference is not.
#[no_mangle]
pub extern "C" fn h_register_long() {
    let (n, d) = [(1usize, 1usize), (9, 1), (17, 1), (33, 1), (65, 1), (129, 1), (257, 1), (600, 1), (1, 2), (1, 3), (1, 4), (1, 5), (2, 9), (1, 17), (3, 33), (1, 65), (1, 129), (1, 260)][vs::choose(18) as usize];
    let kind = vs::choose(9) as usize;
    NAME.store(n, Ordering::SeqCst);
    DEPTH.store(d, Ordering::SeqCst);
    NEAR.store(kind, Ordering::SeqCst);
    let mut w = World::new();
    let l = log();
    let mut b = w.builder();
    let first = vs::boolean();
    let between = vs::boolean();
    if first {
        vs::check(b.register(Tag(1, l.clone()), proc::<Long, Bare, Res>()).is_ok(), 36);
        if between { vs::check(register_m(&mut b, 3, 3, &l), 36); }
        vs::check(b.register(Tag(2, l.clone()), proc::<Near, Bare, Res>()).is_ok() == (kind != 0), 37);
    } else {
        vs::check(b.register(Tag(2, l.clone()), proc::<Near, Bare, Res>()).is_ok(), 36);
        if between { vs::check(register_m(&mut b, 3, 3, &l), 36); }
        vs::check(b.register(Tag(1, l.clone()), proc::<Long, Bare, Res>()).is_ok() == (kind != 0), 37);
    }
    w.start(b);
    for &(k, t) in &[(0usize, 1u8), (kind, 2)] {
        let p: Vec<String> = near(k, n, d).into_iter().map(|s| s.unwrap_or("v".to_string())).collect();
        let h = match ask(&mut w, b"GET", p.join("/").as_bytes()) { Some(h) => h, None => { vs::fail(38); return; } };
        vs::check(h.status == 200 && h.body == [if kind != 0 { t } else if first { 1 } else { 2 }], 39);
    }
    if kind == 0 { vs::cover(1) } else { vs::cover(2) }
}

static INDEX: AtomicUsize = AtomicUsize::new(0);
pub struct Nth;
fn nth_name(i: usize) -> String { format!("k{}", i) }
impl Route for Nth {
    fn method() -> HttpMethod { if INDEX.load(Ordering::SeqCst) % 5 == 4 { HttpMethod::Put } else { HttpMethod::Get } }
    fn segs() -> &'static [PathSegment] {
        let i = INDEX.load(Ordering::SeqCst);
        let s: &'static str = Box::leak(nth_name(i).into_boxed_str());
        Box::leak(match i % 3 { 0 => vec![PathSegment::Val(s)], 1 => vec![PathSegment::Val(s), PathSegment::Var], _ => vec![PathSegment::Val("p"), PathSegment::Val(s)] }.into_boxed_slice())
    }
}
/// Hundreds of procedures: each is found under its own path and method only.
#[no_mangle]
pub extern "C" fn h_route_many() {
    let mut w = World::new();
    let l = log();
    let n = [12usize, 33, 65, 130, 257, 520][vs::choose(6) as usize];
    let mut b = w.builder();
    let rev = vs::boolean();
    for k in 0..n {
        INDEX.store(if rev { n - 1 - k } else { k }, Ordering::SeqCst);
        let i = INDEX.load(Ordering::SeqCst);
        vs::check(b.register(Tag((i % 251) as u8, l.clone()), proc::<Nth, Bare, Res>()).is_ok(), 90);
    }
    // one of them again
    let again = [0, n / 2, n - 1][vs::choose(3) as usize];
    INDEX.store(again, Ordering::SeqCst);
    vs::check(b.register(Tag(255, l.clone()), proc::<Nth, Bare, Res>()).is_err(), 91);
    w.start(b);
    let i = [0, 1, 2, n / 2, n - 3, n - 2, n - 1][vs::choose(7) as usize];
    INDEX.store(i, Ordering::SeqCst);
    let x = vs::u8();
    vs::assume(x >= b'0' && x <= b'9');
    let mut name = nth_name(i).into_bytes();
    let z = name.len() - 1;
    name[z] = x;
    let form = vs::choose(3) as usize;
    let put = vs::boolean();
    let mut m = if put { b"PUT".to_vec() } else { b"GET".to_vec() };
    m.extend_from_slice([&b" /"[..], b" /", b" /p/"][form]);
    m.extend_from_slice(&name);
    if form == 1 { m.extend_from_slice(b"/v"); }
    m.extend_from_slice(b" HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
    let j = match crate::world::num(&name[1..]) { Some(j) => j as usize, None => { vs::fail(92); return; } };
    // (leading zeros are other names)
    let canonical = name.len() == 2 || name[1] != b'0';
    let there = j < n && j % 3 == form && canonical;
    let c = w.raw();
    let out = w.exchange(c, &m);
    match parse_http(&out, false) {
        None => vs::fail(93),
        Some(r) => {
            if !there { vs::cover(404); vs::check(is_problem(&r, 404) && l.lock().unwrap().is_empty(), 94); }
            else if (j % 5 == 4) != put { vs::cover(405); vs::check(is_problem(&r, 405) && l.lock().unwrap().is_empty(), 95); }
            else { vs::cover(1); vs::check(r.status == 200 && r.body == [(j % 251) as u8] && *l.lock().unwrap() == [(j % 251) as u8], 96); }
        }
    }
}
