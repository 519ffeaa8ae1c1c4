//! Request and response shapes, arity of path arguments, statuses, problems, codecs.
use crate::args::*;
use crate::route;
use crate::vs;
use crate::world::*;
use futures::Future;
use htrpc::rfc7807::{AboutBlankProblem, Problem, ProblemResponse, TrackableProblem};
use htrpc::*;
use std::collections::BTreeMap;

// ---- C14: any subset of path, query and header --------------------------------
macro_rules! body {
    ($n:ident) => {
        impl RpcRequest for $n {
            fn body(&mut self) -> Vec<u8> { std::mem::replace(&mut self.body, Vec::new()) }
            fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
                Box::new(body.read_all_bytes().map(move |(b, v)| { self.body = v; (b, self) }).map_err(Error::from))
            }
        }
    };
}
macro_rules! shape {
    ($n:ident { $($f:ident : $t:ty),* }) => {
        #[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
        pub struct $n { $(pub $f: $t,)* #[serde(skip)] pub body: Vec<u8> }
        body!($n);
    };
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Q2 { pub k: u8, pub o: Option<String> }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct H2 { #[serde(rename = "x-k")] pub k: u8, #[serde(rename = "x-o")] pub o: Option<String> }
type P2 = (String, u8);
shape!(S0 {});
shape!(SP { path: P2 });
shape!(SQ { query: Q2 });
shape!(SH { header: H2 });
shape!(SPQ { path: P2, query: Q2 });
shape!(SPH { path: P2, header: H2 });
shape!(SQH { query: Q2, header: H2 });
shape!(SPQH { path: P2, query: Q2, header: H2 });
shape!(SU { path: (), query: (), header: () });
shape!(SM { query: BTreeMap<String, u8>, header: BTreeMap<String, String> });
// fields in an unusual order, parts written twice
shape!(SHP { header: H2, path: P2 });
shape!(SQP { query: Q2, path: P2 });
shape!(SHQ { header: H2, query: Q2 });
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct SN(pub SPQH);
impl RpcRequest for SN {
    fn body(&mut self) -> Vec<u8> { std::mem::replace(&mut self.0.body, Vec::new()) }
    fn read_body(mut self, body: BodyReader) -> ReadBody<Self> {
        Box::new(body.read_all_bytes().map(move |(b, v)| { self.0.body = v; (b, self) }).map_err(Error::from))
    }
}
route!(Rt0, Put, Val("s"), Val("t"));
route!(Rt2, Put, Val("s"), Var, Var);
/// Calls; the request must arrive as it was sent (or, where allowed, be refused before the handler runs).
fn deliver<Rt: Route, Rq: RpcRequest + Clone + PartialEq>(rq: Rq, may_fail: bool) {
    let mut w = World::new();
    let h = Rec::new(ok(b"r"));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<Rt, Rq, Res>()).is_err() { vs::fail(110); return; }
    w.start(b);
    match w.call::<Rt, Rq, Res>(rq.clone()) {
        None => vs::fail(111),
        Some(Err(())) => { vs::cover(2); vs::check(may_fail && h.count() == 0, 112); }
        Some(Ok(r)) => {
            vs::cover(1);
            vs::check(r == ok(b"r"), 113);
            vs::check(h.count() == 1, 114);
            vs::check(h.get(0) == rq, 115);
        }
    }
}
#[no_mangle]
pub extern "C" fn h_shapes() {
    // one part is symbolic at a time
    let part = vs::choose(5);
    let sym8 = |p: u64, d: u8| if part == p { vs::u8() } else { d };
    let body = if part == 0 { vec![vs::u8()] } else { vec![] };
    let path = (if part == 1 { vs::string(1) } else { "p q".to_string() }, sym8(2, 77));
    vs::assume(path.0 != "." && path.0 != "\t" && path.0 != "\r" && path.0 != "\n");
    let o = match vs::choose(3) { 0 => None, 1 => Some(String::new()), _ => Some("x y".to_string()) };
    let query = Q2 { k: sym8(3, 0), o: o.clone() };
    let header = H2 { k: sym8(4, 255), o };
    match vs::choose(14) {
        0 => deliver::<Rt0, _>(S0 { body }, false),
        1 => deliver::<Rt2, _>(SP { path, body }, false),
        2 => deliver::<Rt0, _>(SQ { query, body }, false),
        3 => deliver::<Rt0, _>(SH { header, body }, false),
        4 => deliver::<Rt2, _>(SPQ { path, query, body }, false),
        5 => deliver::<Rt2, _>(SPH { path, header, body }, false),
        6 => deliver::<Rt0, _>(SQH { query, header, body }, false),
        7 => deliver::<Rt2, _>(SPQH { path, query, header, body }, false),
        8 => deliver::<Rt2, _>(SN(SPQH { path, query, header, body }), false),
        9 => deliver::<Rt0, _>(SU { path: (), query: (), header: (), body }, true),
        10 => {
            let mut q = BTreeMap::new();
            q.insert("a".to_string(), query.k);
            q.insert(path.0, 7);
            let mut h = BTreeMap::new();
            h.insert("x-h".to_string(), "v".to_string());
            // (a map of headers also receives the headers of the transport)
            deliver::<Rt0, _>(SQ3 { query: q, header: SubMap(h), body }, false)
        }
        11 => deliver::<Rt2, _>(SHP { header, path, body }, true),
        12 => deliver::<Rt2, _>(SQP { query, path, body }, true),
        _ => deliver::<Rt0, _>(SHQ { header, query, body }, true),
    }
}
/// A header map: equal if the received one contains what was sent.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SubMap(pub BTreeMap<String, String>);
impl PartialEq for SubMap {
    fn eq(&self, sent: &SubMap) -> bool { sent.0.iter().all(|(k, v)| self.0.get(k) == Some(v)) }
}
shape!(SQ3 { query: BTreeMap<String, u8>, header: SubMap });

// ---- C15: arity ---------------------------------------------------------------
shape!(A0 { path: () });
shape!(A1 { path: (String,) });
shape!(A2 { path: (String, String) });
shape!(A3 { path: (String, String, String) });
shape!(AS { path: String });
shape!(AN { path: Name });
shape!(AM { path: BTreeMap<String, String> });
shape!(AQ { path: Q2 });
shape!(AV { path: Vec<String> });
shape!(AO { path: (Option<String>, String) });
shape!(AT { path: ((String,), String) });
route!(E0, Put, Val("e"));
route!(E1, Put, Val("e"), Var);
route!(E2, Put, Var, Val("e"), Var);
route!(E3, Put, Var, Var, Var);
fn arity<Rt: Route>(vars: usize) {
    let s = |c: &str| c.to_string();
    let body = vec![];
    match vs::choose(11) {
        0 => deliver::<Rt, _>(A0 { path: (), body }, vars != 0),
        1 => deliver::<Rt, _>(A1 { path: (s("a"),), body }, vars != 1),
        2 => deliver::<Rt, _>(A2 { path: (s("a"), s("b")), body }, vars != 2),
        3 => deliver::<Rt, _>(A3 { path: (s("a"), s("b"), s("c")), body }, vars != 3),
        4 => deliver::<Rt, _>(AS { path: s("a"), body }, true),
        5 => deliver::<Rt, _>(AN { path: Name(s("a")), body }, true),
        6 => deliver::<Rt, _>(AM { path: BTreeMap::new(), body }, true),
        7 => deliver::<Rt, _>(AQ { path: Q2 { k: 1, o: None }, body }, true),
        8 => deliver::<Rt, _>(AV { path: vec![s("a"), s("b")], body }, true),
        9 => deliver::<Rt, _>(AO { path: (if vs::boolean() { Some(s("a")) } else { None }, s("b")), body }, true),
        _ => deliver::<Rt, _>(AT { path: ((s("a"),), s("b")), body }, true),
    }
}
#[no_mangle]
pub extern "C" fn h_arity_client() {
    match vs::choose(4) { 0 => arity::<E0>(0), 1 => arity::<E1>(1), 2 => arity::<E2>(2), _ => arity::<E3>(3) }
}
fn arity_raw<Rt: Route, Rq: RpcRequest + Clone + PartialEq>(vars: usize, takes: Option<usize>) {
    let mut w = World::new();
    let h: Rec<Rq, Res> = Rec::new(ok(b"r"));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<Rt, Rq, Res>()).is_err() { vs::fail(120); return; }
    w.start(b);
    let c = w.raw();
    let t: &[u8] = [&b"PUT /e"[..], b"PUT /e/1", b"PUT /1/e/2", b"PUT /1/2/3"][vars];
    let mut m = t.to_vec();
    m.extend_from_slice(b" HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
    let out = w.exchange(c, &m);
    match parse_http(&out, false) {
        None => vs::fail(121),
        Some(r) => {
            if r.status == 200 { vs::cover(1); vs::check(h.count() == 1 && takes.map_or(true, |t| t <= vars), 122); }
            else { vs::cover(2); vs::check(is_problem(&r, 400) && h.count() == 0 && takes != Some(vars), 123); }
        }
    }
    // the connection remains usable
    let out = w.exchange(c, b"GET /zz HTTP/1.1\r\n\r\n");
    match parse_http(&out, false) { Some(r) => vs::check(is_problem(&r, 404), 124), None => vs::fail(125) }
}
fn arity_raw_all<Rt: Route>(vars: usize) {
    match vs::choose(11) {
        0 => arity_raw::<Rt, A0>(vars, Some(0)),
        1 => arity_raw::<Rt, A1>(vars, Some(1)),
        2 => arity_raw::<Rt, A2>(vars, Some(2)),
        3 => arity_raw::<Rt, A3>(vars, Some(3)),
        4 => arity_raw::<Rt, AS>(vars, None),
        5 => arity_raw::<Rt, AN>(vars, None),
        6 => arity_raw::<Rt, AM>(vars, None),
        7 => arity_raw::<Rt, AQ>(vars, None),
        8 => arity_raw::<Rt, AV>(vars, None),
        9 => arity_raw::<Rt, AO>(vars, None),
        _ => arity_raw::<Rt, AT>(vars, None),
    }
}
#[no_mangle]
pub extern "C" fn h_arity_server() {
    match vs::choose(4) { 0 => arity_raw_all::<E0>(0), 1 => arity_raw_all::<E1>(1), 2 => arity_raw_all::<E2>(2), _ => arity_raw_all::<E3>(3) }
}

// ---- C10: statuses ------------------------------------------------------------
macro_rules! statuses {
    ($($n:ident = $c:expr),* $(,)?) => {
        #[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
        pub enum Unit { $($n),* }
        impl RpcResponse for Unit {
            fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> { Box::new(Vec::new()) }
            fn set_body(&mut self, _b: Vec<u8>) {}
        }
        #[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
        pub enum Full { $($n { header: ResHeader, #[serde(skip)] body: Vec<u8> }),* }
        impl RpcResponse for Full {
            fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
                match *self { $(Full::$n { ref mut body, .. } => Box::new(std::mem::replace(body, Vec::new()))),* }
            }
            fn set_body(&mut self, b: Vec<u8>) {
                match *self { $(Full::$n { ref mut body, .. } => *body = b),* }
            }
        }
        /// Codes by name (RFC 7231 and the IANA registry), written down independently.
        pub const CODES: &[u16] = &[$($c),*];
        pub fn unit(i: u64) -> Unit { let mut k = 0; $(if i == k { return Unit::$n; } k += 1;)* let _ = k; Unit::Ok }
        pub fn full(i: u64, header: ResHeader, body: Vec<u8>) -> Full { let mut k = 0; $(if i == k { return Full::$n { header, body }; } k += 1;)* let _ = k; Full::Ok { header, body } }
    };
}
statuses! {
    Continue = 100, SwitchingProtocols = 101, Processing = 102,
    Ok = 200, Created = 201, Accepted = 202, NonAuthoritativeInformation = 203, NoContent = 204, ResetContent = 205, PartialContent = 206,
    MultiStatus = 207, AlreadyReported = 208, ImUsed = 226,
    MultipleChoices = 300, MovedPermanently = 301, Found = 302, SeeOther = 303, NotModified = 304, UseProxy = 305, TemporaryRedirect = 307, PermanentRedirect = 308,
    BadRequest = 400, Unauthorized = 401, PaymentRequired = 402, Forbidden = 403, NotFound = 404, MethodNotAllowed = 405, NotAcceptable = 406,
    ProxyAuthenticationRequired = 407, RequestTimeout = 408, Conflict = 409, Gone = 410, LengthRequired = 411, PreconditionFailed = 412, PayloadTooLarge = 413,
    UriTooLong = 414, UnsupportedMediaType = 415, RangeNotSatisfiable = 416, ExceptionFailed = 417, ImATeapot = 418, MisdirectedRequest = 421,
    UnprocessableEntity = 422, Locked = 423, FailedDependency = 424, UpgradeRequired = 426, UnavailableForLegalReasons = 451,
    InternalServerError = 500, NotImplemented = 501, BadGateway = 502, ServiceUnavailable = 503, GatewayTimeout = 504, HttpVersionNotSupported = 505,
    VariantAlsoNegotiates = 506, InsufficientStorage = 507, LoopDetected = 508, BandwidthLimitExceeded = 509, NotExtended = 510,
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Plain { pub status: u16, pub header: ResHeader, #[serde(skip)] pub body: Vec<u8> }
impl RpcResponse for Plain {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> { Box::new(std::mem::replace(&mut self.body, Vec::new())) }
    fn set_body(&mut self, b: Vec<u8>) { self.body = b; }
}
route!(RtS, Get, Val("st"));
/// One reply through the real client, and the status code seen on the wire.
pub fn reply<Rs: RpcResponse + Clone + PartialEq + Send + 'static>(rs: Rs, code: Option<u16>) {
    let mut w = World::new();
    let h: Rec<Bare, Rs> = Rec::new(rs.clone());
    let mut b = w.builder();
    if b.register(h.clone(), proc::<RtS, Bare, Rs>()).is_err() { vs::fail(130); return; }
    w.start(b);
    match (w.call::<RtS, Bare, Rs>(Bare { body: vec![] }), code) {
        (None, _) => vs::fail(131),
        (Some(Ok(r)), Some(_)) => { vs::cover(1); vs::check(r == rs, 132); }
        (Some(Err(_)), None) => vs::cover(2),
        (Some(Ok(_)), None) => vs::fail(133),
        (Some(Err(_)), Some(_)) => vs::fail(134),
    }
    let c = w.raw();
    let out = w.exchange(c, b"GET /st HTTP/1.1\r\n\r\n");
    match code {
        Some(code) => match parse_http(&out, false) { Some(r) => vs::check(r.status == code && r.rest.is_empty(), 135), None => vs::fail(136) },
        None => vs::check(out.is_empty() || parse_http(&out, false).map_or(false, |r| r.status >= 500), 137),
    }
}
#[no_mangle]
pub extern "C" fn h_status_names() {
    let i = vs::choose(CODES.len() as u64);
    let code = Some(CODES[i as usize]);
    let b = vs::u8();
    match vs::choose(3) {
        0 => reply(unit(i), code),
        1 => reply(full(i, ResHeader { r: Some("h".to_string()) }, vec![b, b'x']), code),
        _ => reply(Plain { status: CODES[i as usize], header: ResHeader { r: None }, body: vec![b] }, code),
    }
}
/// Statuses given as numbers: any 16-bit value.
#[no_mangle]
pub extern "C" fn h_status_number() {
    let hi = if vs::thorough() { vs::choose(256) } else { [0u64, 1, 2, 3, 39, 0x7f, 0xff][vs::choose(7) as usize] };
    let s = (hi as u16) << 8 | vs::u8() as u16;
    let known = CODES.iter().any(|&c| c == s);
    reply(Plain { status: s, header: ResHeader { r: Some("q".to_string()) }, body: b"b".to_vec() }, if known { Some(s) } else { None });
}

// ---- C11: problems --------------------------------------------------------------
#[derive(Clone)]
pub struct Mk(pub u64, pub u16, pub String, pub Option<String>, pub Option<Vec<String>>, pub Option<url::Url>);
impl Mk {
    fn problem(&self) -> Problem {
        match self.0 {
            0 => Problem::AboutBlank(AboutBlankProblem { title: self.2.clone(), status: self.1 }),
            _ => Problem::Trackable(TrackableProblem { title: self.2.clone(), status: self.1, detail: self.3.clone(), instance: self.5.clone(), history: self.4.clone() }),
        }
    }
    fn same(&self, p: &Problem) -> bool {
        match *p {
            Problem::AboutBlank(ref p) => self.0 == 0 && p.title == self.2 && p.status == self.1,
            Problem::Trackable(ref p) => self.0 == 1 && p.title == self.2 && p.status == self.1 && p.detail == self.3 && p.instance == self.5 && p.history == self.4,
        }
    }
}
impl<Rt: Route> HandleRpc<Proc<Rt, Bare, ProblemResponse>> for Mk {
    type Future = Later<ProblemResponse>;
    fn handle_rpc(self, _r: Bare) -> Later<ProblemResponse> { later(self.problem().into_response()) }
}
#[derive(Serialize, Deserialize)]
pub enum Pr { Ok, NotFound(ProblemResponse), Conflict(ProblemResponse), InternalServerError(ProblemResponse) }
impl RpcResponse for Pr {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        match *self { Pr::Ok => Box::new(Vec::new()), Pr::NotFound(ref mut p) | Pr::Conflict(ref mut p) | Pr::InternalServerError(ref mut p) => p.body() }
    }
    fn set_body(&mut self, b: Vec<u8>) {
        match *self { Pr::Ok => {}, Pr::NotFound(ref mut p) | Pr::Conflict(ref mut p) | Pr::InternalServerError(ref mut p) => p.set_body(b) }
    }
}
#[derive(Clone)]
pub struct MkE(pub Mk, pub bool);
impl<Rt: Route> HandleRpc<Proc<Rt, Bare, Pr>> for MkE {
    type Future = Later<Pr>;
    fn handle_rpc(self, _r: Bare) -> Later<Pr> {
        let mut p = if self.1 { Problem::about_blank(types::HttpStatus::BadRequest).into_response() } else { self.0.problem().into_response() };
        if self.1 { p.set_problem(self.0.problem()); }
        later(match (self.0).1 { 404 => Pr::NotFound(p), 409 => Pr::Conflict(p), _ => Pr::InternalServerError(p) })
    }
}
fn mk(status: u16) -> Mk {
    let title = vs::string(vs::bound(2, 3));
    let o = vs::choose(3);
    Mk(vs::choose(2), status, title,
        if o == 1 { Some("d\"\u{1f600}\n".to_string()) } else { None },
        match o { 0 => None, 1 => Some(vec![]), _ => Some(vec!["a\\".to_string(), String::new()]) },
        if o == 2 { url::Url::parse("http://h/p%20q?x=%22#f").ok() } else { None })
}
fn wire_problem(w: &mut World, status: u16) {
    let c = w.raw();
    let out = w.exchange(c, b"GET /st HTTP/1.1\r\n\r\n");
    match parse_http(&out, false) {
        Some(r) => vs::check(is_problem(&r, status) && r.count("content-type") == 1 && r.rest.is_empty(), 143),
        None => vs::fail(144),
    }
}
/// A problem returned by a handler reaches the client unchanged; HTTP status = problem status.
#[no_mangle]
pub extern "C" fn h_problem_plain() {
    let m = mk([400u16, 404, 500, 503, 200][vs::choose(5) as usize]);
    vs::note(0, m.2.as_bytes());
    let mut w = World::new();
    let mut b = w.builder();
    if b.register(m.clone(), proc::<RtS, Bare, ProblemResponse>()).is_err() { vs::fail(140); return; }
    w.start(b);
    match w.call::<RtS, Bare, ProblemResponse>(Bare { body: vec![] }) {
        Some(Ok(p)) => { vs::cover(1); vs::check(m.same(p.problem()), 141); }
        _ => vs::fail(142),
    }
    wire_problem(&mut w, m.1);
}
#[no_mangle]
pub extern "C" fn h_problem_variant() {
    let m = mk([404u16, 409, 500][vs::choose(3) as usize]);
    let set = vs::boolean();
    let mut w = World::new();
    let mut b = w.builder();
    if b.register(MkE(m.clone(), set), proc::<RtS, Bare, Pr>()).is_err() { vs::fail(140); return; }
    w.start(b);
    match w.call::<RtS, Bare, Pr>(Bare { body: vec![] }) {
        Some(Ok(Pr::NotFound(p))) => vs::check(m.1 == 404 && m.same(p.problem()), 145),
        Some(Ok(Pr::Conflict(p))) => vs::check(m.1 == 409 && m.same(p.problem()), 146),
        Some(Ok(Pr::InternalServerError(p))) => { vs::cover(1); vs::check(m.1 == 500 && m.same(p.problem()), 147); }
        _ => vs::fail(142),
    }
    wire_problem(&mut w, m.1);
}
/// The constructors: title and status of the problem follow from the HTTP status.
#[no_mangle]
pub extern "C" fn h_problem_blank() {
    let i = vs::choose(CODES.len() as u64) as usize;
    let code = CODES[i];
    // (the reason phrase is not interpreted: "title" must merely be what the status line says)
    let st = match status_of(code) { Some(s) => s, None => { vs::fail(148); return; } };
    let m = match Problem::about_blank(st) { Problem::AboutBlank(p) => Mk(0, p.status, p.title, None, None, None), _ => { vs::fail(149); return; } };
    vs::check(m.1 == code && !m.2.is_empty(), 150);
    let mut w = World::new();
    let mut b = w.builder();
    if b.register(m.clone(), proc::<RtS, Bare, ProblemResponse>()).is_err() { vs::fail(140); return; }
    w.start(b);
    let c = w.raw();
    let out = w.exchange(c, b"GET /st HTTP/1.1\r\n\r\n");
    match parse_http(&out, false) {
        Some(r) => {
            vs::check(is_problem(&r, code), 151);
            let mut j = b"{\n  \"type\": \"about:blank\",\n  \"title\": \"".to_vec();
            j.extend_from_slice(m.2.as_bytes());
            j.extend_from_slice(b"\",\n  \"status\": ");
            j.extend_from_slice(code.to_string().as_bytes());
            j.extend_from_slice(b"\n}");
            let strip = |v: &[u8]| v.iter().cloned().filter(|c| *c != b'\n' && *c != b' ').collect::<Vec<u8>>();
            vs::check(strip(&r.body) == strip(&j), 152);
            vs::cover(1);
        }
        None => vs::fail(144),
    }
}
fn status_of(code: u16) -> Option<types::HttpStatus> {
    use htrpc::types::HttpStatus::*;
    for s in [Continue, Ok, Created, NoContent, Found, NotModified, BadRequest, Unauthorized, Forbidden, NotFound, MethodNotAllowed, Conflict, Gone, ImATeapot,
        UnavailableForLegalReasons, InternalServerError, NotImplemented, BadGateway, ServiceUnavailable, NotExtended].iter() {
        if s.code() == code { return Some(*s); }
    }
    vs::assume(false);
    None
}

// ---- C13: codecs ------------------------------------------------------------------
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Val_ { pub a: u8, pub s: String, pub o: Option<bool>, pub v: Vec<i16>, pub e: En }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub enum En { A, B(u8), C { x: i8 } }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct QJ { #[serde(with = "htrpc::json")] pub j: Val_, pub k: u8, #[serde(with = "htrpc::json_pretty")] pub p: Val_ }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct HJ { #[serde(rename = "x-j", with = "htrpc::json")] pub j: Val_ }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct PJ(#[serde(with = "htrpc::json")] pub Val_, pub u8);
fn val(n: u64) -> Val_ {
    let pre = ["", "\\", "\"", "\u{1f600}/"][vs::choose(4) as usize];
    let post = ["", "/", "u0041", "\\\""][vs::choose(4) as usize];
    let s = format!("{}{}{}", pre, vs::string(n), post);
    vs::note(9, s.as_bytes());
    let a = vs::u8();
    match vs::choose(4) {
        0 => Val_ { a, s, o: None, v: vec![], e: En::A },
        1 => Val_ { a, s, o: Some(true), v: vec![-1], e: En::B(vs::u8()) },
        2 => Val_ { a, s, o: Some(false), v: vec![32767, -32768, 0], e: En::C { x: -3 } },
        _ => Val_ { a: 0, s, o: None, v: vec![300], e: En::C { x: vs::u8() as i8 } },
    }
}
fn fixed() -> Val_ { Val_ { a: 1, s: "q".to_string(), o: None, v: vec![5, 6], e: En::A } }
#[no_mangle]
pub extern "C" fn h_json_query() {
    let v = val(vs::bound(1, 2));
    let p = vs::boolean();
    rt::<RtQ, _, _, _>(Req { path: (), query: if p { QJ { j: fixed(), k: 3, p: v } } else { QJ { j: v, k: 3, p: fixed() } }, header: Nil {}, body: vec![] }, false);
}
#[no_mangle]
pub extern "C" fn h_json_header() {
    let v = val(vs::bound(1, 2));
    // JSON text never starts or ends with a blank and escapes control characters except DEL
    let bad = v.s.bytes().any(|c| c == 0x7f);
    rt::<RtQ, _, _, _>(Req { path: (), query: Nil {}, header: HJ { j: v }, body: vec![] }, bad);
}
#[no_mangle]
pub extern "C" fn h_json_path() {
    let v = val(vs::bound(1, 2));
    rt::<crate::args::RtV2, _, _, _>(Req { path: PJ(v, 9), query: Nil {}, header: Nil {}, body: vec![] }, false);
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Pack { pub k: u8, #[serde(with = "htrpc::msgpack")] pub m: Val_ }
/// MessagePack values inside a document of another format.
#[no_mangle]
pub extern "C" fn h_msgpack() {
    let p = Pack { k: 4, m: val(vs::bound(2, 3)) };
    match serdeconv::to_json_string(&p) {
        Ok(s) => match serdeconv::from_json_str::<Pack>(&s) {
            Ok(q) => { vs::cover(1); vs::check(q == p, 160) }
            Err(_) => vs::fail(161),
        },
        Err(_) => vs::fail(162),
    }
}
/// Malformed codec text is refused like any malformed argument.
#[no_mangle]
pub extern "C" fn h_json_bad() {
    let t = vs::bytes(vs::bound(2, 3) as usize);
    for &c in &t { vs::assume(c > 0x20 && c < 0x7f && c != b'&' && c != b'#' && c != b'%' && c != b'+'); vs::assume(c != b'.' && c != b'-' && c != b'e' && c != b'E'); } // (no floating point)
    // valid JSON of type u8 in at most 3 characters
    let good = int3(&t);
    let mut w = World::new();
    let h: Rec<Req<(), QU, Nil>, Res> = Rec::new(ok(b"r"));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<RtS, Req<(), QU, Nil>, Res>()).is_err() { vs::fail(163); return; }
    w.start(b);
    let c = w.raw();
    let mut m = b"GET /st?u=".to_vec();
    m.extend_from_slice(&t);
    m.extend_from_slice(b" HTTP/1.1\r\n\r\n");
    let out = w.exchange(c, &m);
    match parse_http(&out, false) {
        None => vs::fail(164),
        Some(r) => match good {
            Some(v) => { vs::cover(1); vs::check(r.status == 200 && h.count() == 1 && h.get(0).query.u == v, 165) }
            None => { vs::cover(2); vs::check(is_problem(&r, 400) && h.count() == 0, 166) }
        },
    }
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct QU { #[serde(with = "htrpc::json")] pub u: u8 }
fn int3(t: &[u8]) -> Option<u8> {
    let neg = t[0] == b'-';
    let d = if neg { &t[1..] } else { t };
    if d.is_empty() || (d.len() > 1 && d[0] == b'0') { return None; }
    let mut n = 0u32;
    for &c in d { if c < b'0' || c > b'9' { return None; } n = n * 10 + (c - b'0') as u32; }
    // ("-0" is a float in JSON for serde_json, not an integer)
    if neg || n > 255 { None } else { Some(n as u8) }
}

// ---- statuses in unusual places ------------------------------------------------------
macro_rules! plain_res {
    ($n:ident { $($f:ident : $t:ty),* }) => {
        #[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
        pub struct $n { $(pub $f: $t,)* #[serde(skip)] pub body: Vec<u8> }
        impl RpcResponse for $n {
            fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> { Box::new(std::mem::replace(&mut self.body, Vec::new())) }
            fn set_body(&mut self, b: Vec<u8>) { self.body = b; }
        }
    };
}
plain_res!(OptS { status: Option<u16>, header: ResHeader });
plain_res!(NoS { header: ResHeader });
plain_res!(OnlyS { status: u16 });
plain_res!(U32S { status: u32 });
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Wrap(pub Plain);
impl RpcResponse for Wrap {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> { self.0.body() }
    fn set_body(&mut self, b: Vec<u8>) { self.0.set_body(b) }
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub enum Vars { Ok(Plain), Created(OptS), Gone(Wrap), Weird, Strange { header: ResHeader }, ServiceUnavailable }
impl RpcResponse for Vars {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        match *self { Vars::Ok(ref mut p) => p.body(), Vars::Created(ref mut p) => p.body(), Vars::Gone(ref mut p) => p.body(), _ => Box::new(Vec::new()) }
    }
    fn set_body(&mut self, b: Vec<u8>) {
        match *self { Vars::Ok(ref mut p) => p.set_body(b), Vars::Created(ref mut p) => p.set_body(b), Vars::Gone(ref mut p) => p.set_body(b), _ => {} }
    }
}
#[no_mangle]
pub extern "C" fn h_status_shapes() {
    let body = vec![vs::u8(), b'b'];
    let header = ResHeader { r: if vs::boolean() { Some("h i".to_string()) } else { None } };
    match vs::choose(12) {
        0 => reply(Vars::Ok(Plain { status: 200, header, body }), Some(200)),
        1 => reply(Vars::Created(OptS { status: Some(201), header, body }), Some(201)),
        2 => reply(Vars::Gone(Wrap(Plain { status: 410, header, body })), Some(410)),
        3 => reply(Vars::Weird, None),
        4 => reply(Vars::Strange { header }, None),
        5 => reply(Vars::ServiceUnavailable, Some(503)),
        6 => reply(Wrap(Plain { status: 302, header, body }), Some(302)),
        7 => reply(OptS { status: Some(404), header, body }, Some(404)),
        8 => reply(OptS { status: None, header, body }, None),
        9 => reply(NoS { header, body }, None),
        10 => reply(OnlyS { status: 200, body }, Some(200)),
        _ => match vs::choose(3) { 0 => reply(U32S { status: 500, body }, Some(500)), 1 => reply(U32S { status: 65736, body }, None), _ => reply(U32S { status: 1200, body }, None) },
    }
}

/// An error of a user: text, cause and history.
#[derive(Debug)]
struct Custom(String, Option<Box<Custom>>, Option<trackable::History<Event>>);
#[derive(Debug, Clone)]
struct Event(String);
impl From<trackable::Location> for Event { fn from(_: trackable::Location) -> Self { Event("location".to_string()) } }
impl std::fmt::Display for Event { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::fmt::Display for Custom { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Custom { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.1.as_ref().map(|e| &**e as &(dyn std::error::Error + 'static)) } }
impl trackable::Trackable for Custom {
    type Event = Event;
    fn history(&self) -> Option<&trackable::History<Event>> { self.2.as_ref() }
    fn history_mut(&mut self) -> Option<&mut trackable::History<Event>> { self.2.as_mut() }
}
/// Problems made from errors: everything the error says arrives.
#[no_mangle]
pub extern "C" fn h_problem_track() {
    use std::error::Error as StdError;
    use trackable::error::ErrorKindExt;
    let code = [400u16, 404, 409, 500, 503, 200][vs::choose(6) as usize];
    let st = match status_of(code) { Some(s) => s, None => return };
    let text = vs::string(vs::bound(1, 2));
    let (title, detail, mut p);
    let mut events = None;
    if vs::boolean() {
        let e: Error = match vs::choose(2) { 0 => ErrorKind::Other.cause(text.clone()).into(), _ => ErrorKind::Invalid.error().into() };
        title = e.to_string();
        detail = e.source().map(|c| c.to_string());
        p = Problem::trackable(st, e);
    } else {
        let which = vs::choose(3);
        let n = vs::choose(4);
        let other = "a \"b\"\n\u{e9}".to_string();
        let texts = if which == 0 { (text.clone(), Some(other.clone())) } else if which == 1 { (other.clone(), Some(text.clone())) } else { (text.clone(), None) };
        let mut h = trackable::History::new();
        for i in 1..n { h.add(Event(if i == 1 { text.clone() } else { other.clone() })); }
        events = Some(if n > 0 { Some(h.events().iter().map(|e| e.0.clone()).collect::<Vec<_>>()) } else { None });
        title = texts.0.clone();
        detail = texts.1.clone();
        p = Problem::trackable(st, Custom(texts.0, texts.1.map(|t| Custom(t, None, None)).map(Box::new), if n > 0 { Some(h) } else { None }));
    }
    let url = ["http://h/p?q#f", "urn:x:y"][vs::choose(2) as usize];
    let inst = if vs::boolean() { url::Url::parse(url).ok() } else { None };
    let hist = match p {
        Problem::Trackable(ref mut t) => {
            vs::check(t.title == title && t.detail == detail && t.status == code && t.instance.is_none(), 153);
            if let Some(ref e) = events { vs::check(t.history == *e, 158); }
            t.instance = inst.clone();
            t.history.clone()
        }
        _ => { vs::fail(154); return; }
    };
    let mut w = World::new();
    let mut b = w.builder();
    if b.register(Once(Arc::new(Mutex::new(Some(p)))), proc::<RtS, Bare, ProblemResponse>()).is_err() { vs::fail(140); return; }
    w.start(b);
    match w.call::<RtS, Bare, ProblemResponse>(Bare { body: vec![] }) {
        Some(Ok(r)) => match *r.problem() {
            Problem::Trackable(ref t) => {
                vs::cover(1);
                vs::check(t.title == title && t.detail == detail && t.status == code && t.instance == inst && t.history == hist, 155);
            }
            _ => vs::fail(156),
        },
        _ => vs::fail(142),
    }
}
use std::sync::{Arc, Mutex};
#[derive(Clone)]
pub struct Once(Arc<Mutex<Option<Problem>>>);
impl<Rt: Route> HandleRpc<Proc<Rt, Bare, ProblemResponse>> for Once {
    type Future = Later<ProblemResponse>;
    fn handle_rpc(self, _r: Bare) -> Later<ProblemResponse> {
        let p = match self.0.lock().unwrap().take() { Some(p) => p, None => { vs::fail(157); Problem::about_blank(types::HttpStatus::Ok) } };
        later(p.into_response())
    }
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct PackU { #[serde(with = "htrpc::msgpack")] pub m: u8 }
/// Malformed MessagePack is an error, and what is accepted means what it says.
#[no_mangle]
pub extern "C" fn h_msgpack_bad() {
    let n = vs::len(vs::bound(2, 3));
    let b = vs::bytes(n);
    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    let j = format!("{{\"m\":[{}]}}", v.join(","));
    let want = match &b[..] {
        [x, ..] if *x < 0x80 => Some(*x),
        [0xcc, x, ..] => Some(*x),
        [0xd0, x, ..] if *x < 0x80 => Some(*x),
        [0xcd, 0, x, ..] | [0xd1, 0, x, ..] => Some(*x),
        _ => None,
    };
    match (serdeconv::from_json_str::<PackU>(&j), want) {
        (Ok(p), Some(w)) => { vs::cover(1); vs::check(p.m == w, 167) }
        (Ok(_), None) => vs::fail(168),
        (Err(_), w) => { vs::cover(2); vs::check(w.is_none() || n > 1, 169) }
    }
}

// ---- parts which may be empty --------------------------------------------------------------
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct QO { pub k: Option<u8>, pub o: Option<String> }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct HO { #[serde(rename = "x-k")] pub k: Option<u8>, #[serde(rename = "x-o")] pub o: Option<String> }
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct New<T>(pub T);
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct UnitPath;
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct TupPath(pub String, pub u8);
shape!(OQ { query: QO });
shape!(OH { header: HO });
shape!(OQH { query: QO, header: HO });
shape!(OPQ { path: P2, query: QO });
shape!(OPQH { path: P2, query: QO, header: HO });
shape!(OPNH { path: TupPath, query: Nil, header: HO });
shape!(OPQN { path: P2, query: New<QO>, header: New<Nil> });
shape!(OUQH { path: (), query: QO, header: HO });
shape!(OUNN { path: UnitPath, query: Nil, header: Nil });
shape!(OPMM { path: TupPath, query: BTreeMap<String, u8>, header: SubMap });
shape!(OPHd { path: P2, header: New<HO> });
#[no_mangle]
pub extern "C" fn h_shapes_empty() {
    let part = vs::choose(4);
    let body = if part == 0 { vec![vs::u8()] } else { vec![] };
    let path = ("p".to_string(), if part == 1 { vs::u8() } else { 0 });
    let tup = TupPath(path.0.clone(), path.1);
    let k = match vs::choose(2) { 0 => None, _ => Some(if part == 2 { vs::u8() } else { 0 }) };
    let o = match vs::choose(3) { 0 => None, 1 => Some(String::new()), _ => Some("v".to_string()) };
    let k2 = match vs::choose(2) { 0 => None, _ => Some(if part == 3 { vs::u8() } else { 1 }) };
    let o2 = match vs::choose(3) { 0 => None, 1 => Some(String::new()), _ => Some("w".to_string()) };
    let query = QO { k, o };
    let header = HO { k: k2, o: o2 };
    match vs::choose(11) {
        0 => deliver::<Rt0, _>(OQ { query, body }, false),
        1 => deliver::<Rt0, _>(OH { header, body }, false),
        2 => deliver::<Rt0, _>(OQH { query, header, body }, false),
        3 => deliver::<Rt2, _>(OPQ { path, query, body }, false),
        4 => deliver::<Rt2, _>(OPQH { path, query, header, body }, false),
        5 => deliver::<Rt2, _>(OPNH { path: tup, query: Nil {}, header, body }, false),
        6 => deliver::<Rt2, _>(OPQN { path, query: New(query), header: New(Nil {}), body }, false),
        7 => deliver::<Rt0, _>(OUQH { path: (), query, header, body }, false),
        8 => deliver::<Rt0, _>(OUNN { path: UnitPath, query: Nil {}, header: Nil {}, body }, false),
        9 => {
            let mut q = BTreeMap::new();
            if let Some(k) = query.k { q.insert("a".to_string(), k); q.insert("".to_string(), 1); }
            let mut h = BTreeMap::new();
            if let Some(o) = header.o { h.insert("x-h".to_string(), o); }
            deliver::<Rt2, _>(OPMM { path: tup, query: q, header: SubMap(h), body }, false)
        }
        _ => deliver::<Rt2, _>(OPHd { path, header: New(header), body }, false),
    }
}

/// Long texts and histories.
#[no_mangle]
pub extern "C" fn h_problem_big() {
    let code = [400u16, 404, 500][vs::choose(3) as usize];
    let st = match status_of(code) { Some(s) => s, None => return };
    let x = vs::u8();
    vs::assume(x < 0x80);
    let text = |n: usize| -> String { (0..n).map(|i| if i == n / 2 { x as char } else { ['d', ' ', '\u{e9}', '"'][i % 4] }).collect() };
    let n = [1usize, 63, 64, 79, 80, 127, 128, 255, 256, 500, 1000, 1024, 3000][vs::choose(13) as usize];
    let (mut title, mut detail) = ("t".to_string(), None);
    let mut hist = None;
    let mut p;
    match vs::choose(4) {
        0 => { title = text(n); }
        1 => { detail = Some(text(n)); }
        2 => { hist = Some(vec![text(n), String::new(), text(n)]); }
        _ => { let k = [4usize, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 40, 100][vs::choose(15) as usize]; vs::assume(n == 1); hist = Some((0..k).map(|i| format!("{}{}", i, x as char)).collect()); }
    }
    if vs::boolean() {
        let h = hist.clone().map(|v| { let mut h = trackable::History::new(); for t in v { h.add(Event(t)); } h });
        p = Problem::trackable(st, Custom(title.clone(), detail.clone().map(|t| Box::new(Custom(t, None, None))), h));
        if let Problem::Trackable(ref t) = p { vs::check(t.title == title && t.detail == detail && t.status == code && t.instance.is_none() && t.history == hist, 159); }
    } else {
        p = Problem::Trackable(TrackableProblem { title: title.clone(), status: code, detail: detail.clone(), instance: None, history: hist.clone() });
    }
    let inst = if vs::boolean() { url::Url::parse("http://h:81/p/q?x=y&z#f").ok() } else { None };
    if let Problem::Trackable(ref mut t) = p { t.instance = inst.clone(); }
    let mut w = World::new();
    let mut b = w.builder();
    if b.register(Once(Arc::new(Mutex::new(Some(p)))), proc::<RtS, Bare, ProblemResponse>()).is_err() { vs::fail(140); return; }
    w.start(b);
    match w.call::<RtS, Bare, ProblemResponse>(Bare { body: vec![] }) {
        Some(Ok(r)) => match *r.problem() {
            Problem::Trackable(ref t) => {
                vs::cover(1);
                vs::check(t.title == title && t.detail == detail && t.status == code && t.instance == inst && t.history == hist, 170);
            }
            _ => vs::fail(171),
        },
        _ => vs::fail(172),
    }
}
fn hexof(b: u8, t: &mut Vec<u8>) {
    let hx = |v: u8| if v < 10 { b'0' + v } else { b'A' + v - 10 };
    t.extend_from_slice(&[b'%', hx(b >> 4), hx(b & 15)]);
}
/// Any byte, or two or three bytes of other alphabets, before, after or inside a number.
#[no_mangle]
pub extern "C" fn h_json_edge() {
    let n = vs::choose(3) as usize + 1;
    let x = vs::bytes(n);
    if n > 1 { for &c in &x { vs::assume(c >= 0x80); } }
    let at = vs::choose(3);
    let mut t = vec![];
    let mut d = vec![];
    if at > 0 { t.push(b'7'); d.push(b'7'); }
    for &c in &x { hexof(c, &mut t); d.push(c); }
    if at < 2 { t.push(b'1'); d.push(b'1'); }
    // (no floating point)
    vs::assume(at != 1 || (x[0] != b'e' && x[0] != b'E' && x[0] != b'.'));
    let blank = |c: u8| c == b' ' || c == b'\t' || c == b'\n' || c == b'\r';
    let want = if n > 1 { None } else if blank(x[0]) { match at { 0 => Some(1), 1 => None, _ => Some(7) } } else { int3(&d) };
    let pretty = vs::boolean();
    let mut w = World::new();
    let h: Rec<Req<(), QUP, Nil>, Res> = Rec::new(ok(b"r"));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<RtS, Req<(), QUP, Nil>, Res>()).is_err() { vs::fail(163); return; }
    w.start(b);
    let c = w.raw();
    let mut m = if pretty { b"GET /st?u=5&p=".to_vec() } else { b"GET /st?p=5&u=".to_vec() };
    m.extend_from_slice(&t);
    m.extend_from_slice(b" HTTP/1.1\r\n\r\n");
    let out = w.exchange(c, &m);
    match parse_http(&out, false) {
        None => vs::fail(164),
        Some(r) => match want {
            Some(v) => { vs::cover(1); let (u, p) = if pretty { (5, v) } else { (v, 5) }; vs::check(r.status == 200 && h.count() == 1 && h.get(0).query.u == u && h.get(0).query.p == p, 165) }
            None => { vs::cover(2); vs::check(is_problem(&r, 400) && h.count() == 0, 166) }
        },
    }
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct QUP { #[serde(with = "htrpc::json")] pub u: u8, #[serde(with = "htrpc::json_pretty")] pub p: u8 }
/// Any character of two or three bytes, in every place.
#[no_mangle]
pub extern "C" fn h_json_wide() {
    let n = vs::choose(2) as usize + 2;
    let x = vs::bytes(n);
    vs::assume(if n == 2 { x[0] >= 0xc2 && x[0] < 0xe0 } else { x[0] >= 0xe0 && x[0] < 0xf0 });
    let c = match String::from_utf8(x) { Ok(c) => c, Err(_) => { vs::assume(false); return; } };
    let s = [format!("{}", c), format!("a{}b", c), format!("{}\"", c)][vs::choose(3) as usize].clone();
    let v = Val_ { a: 1, s, o: None, v: vec![], e: En::A };
    let body = vec![];
    match vs::choose(4) {
        0 => rt::<RtQ, _, _, _>(Req { path: (), query: QJ { j: v, k: 3, p: fixed() }, header: Nil {}, body }, false),
        1 => rt::<RtQ, _, _, _>(Req { path: (), query: QJ { j: fixed(), k: 3, p: v }, header: Nil {}, body }, false),
        2 => rt::<RtQ, _, _, _>(Req { path: (), query: Nil {}, header: HJ { j: v }, body }, false),
        _ => rt::<crate::args::RtV2, _, _, _>(Req { path: PJ(v, 9), query: Nil {}, header: Nil {}, body }, false),
    }
}
route!(RtRoot, Put,);
/// The entry point without segments.
#[no_mangle]
pub extern "C" fn h_shapes_root() {
    let part = vs::choose(4);
    let sym8 = |p: u64, d: u8| if part == p { vs::u8() } else { d };
    let body = if part == 0 { vec![vs::u8()] } else { vec![] };
    let o = match vs::choose(3) { 0 => None, 1 => Some(String::new()), _ => Some("v".to_string()) };
    let q = Q2 { k: sym8(1, 0), o: o.clone() };
    let h = H2 { k: sym8(2, 255), o: o.clone() };
    let query = QO { k: if vs::boolean() { Some(sym8(3, 3)) } else { None }, o: o.clone() };
    let header = HO { k: if vs::boolean() { Some(sym8(3, 3)) } else { None }, o };
    match vs::choose(8) {
        0 => deliver::<RtRoot, _>(S0 { body }, false),
        1 => deliver::<RtRoot, _>(SQ { query: q, body }, false),
        2 => deliver::<RtRoot, _>(SH { header: h, body }, false),
        3 => deliver::<RtRoot, _>(SQH { query: q, header: h, body }, false),
        4 => deliver::<RtRoot, _>(OQ { query, body }, false),
        5 => deliver::<RtRoot, _>(OQH { query, header, body }, false),
        6 => deliver::<RtRoot, _>(OUQH { path: (), query, header, body }, false),
        _ => deliver::<RtRoot, _>(OUNN { path: UnitPath, query: Nil {}, header: Nil {}, body }, false),
    }
}

use std::sync::atomic::{AtomicUsize, Ordering};
/// Number of path arguments a request declares, and the shape of the entry point.
static TAKES: AtomicUsize = AtomicUsize::new(0);
static VARS: AtomicUsize = AtomicUsize::new(0);
static FORM: AtomicUsize = AtomicUsize::new(0);
#[derive(PartialEq, Clone, Debug)]
pub struct Flat(pub Vec<u16>);
impl serde::Serialize for Flat {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        use serde::ser::{SerializeTuple, SerializeTupleStruct};
        if FORM.load(Ordering::SeqCst) % 2 == 0 {
            let mut t = s.serialize_tuple(self.0.len())?;
            for v in &self.0 { t.serialize_element(v)?; }
            t.end()
        } else {
            let mut t = s.serialize_tuple_struct("Flat", self.0.len())?;
            for v in &self.0 { t.serialize_field(v)?; }
            t.end()
        }
    }
}
impl<'de> serde::Deserialize<'de> for Flat {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Flat, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Flat;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("values") }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> std::result::Result<Flat, A::Error> {
                let mut v = vec![];
                for i in 0..TAKES.load(Ordering::SeqCst) {
                    match a.next_element()? { Some(x) => v.push(x), None => return Err(serde::de::Error::invalid_length(i, &self)) }
                }
                Ok(Flat(v))
            }
        }
        let n = TAKES.load(Ordering::SeqCst);
        if FORM.load(Ordering::SeqCst) % 2 == 0 { d.deserialize_tuple(n, V) } else { d.deserialize_tuple_struct("Flat", n, V) }
    }
}
pub struct Vars_;
impl Route for Vars_ {
    fn method() -> types::HttpMethod { types::HttpMethod::Put }
    fn segs() -> &'static [types::PathSegment] {
        use htrpc::types::PathSegment::{Val, Var};
        let (n, f) = (VARS.load(Ordering::SeqCst), FORM.load(Ordering::SeqCst) / 2);
        let mut v = vec![];
        if f != 1 { v.push(Val("z")); }
        for _ in 0..n { v.push(Var); if f == 2 { v.push(Val("c")); } }
        if f == 1 && n == 0 { v.push(Val("y")); }
        Box::leak(v.into_boxed_slice())
    }
}
/// Any number of variables and of arguments, constants before, after or between them.
#[no_mangle]
pub extern "C" fn h_arity_many() {
    let n = [0usize, 1, 2, 3, 4, 7, 8, 9, 12, 16, 17, 32, 64][vs::choose(13) as usize];
    let t = match vs::choose(8) { 0 => n, 1 => n + 1, 2 => n + 2, 3 => { vs::assume(n > 0); n - 1 } 4 => { vs::assume(n > 2); 0 } 5 => { vs::assume(n > 3); n / 2 } 6 => n * 2 + 3, _ => n + 16 };
    VARS.store(n, Ordering::SeqCst);
    TAKES.store(t, Ordering::SeqCst);
    FORM.store(vs::choose(6) as usize, Ordering::SeqCst);
    let x = vs::u8() as u16;
    let mut v: Vec<u16> = (0..t).map(|i| 1000 + i as u16).collect();
    if t > 0 { let at = [0, t / 2, t - 1][vs::choose(3) as usize]; v[at] = x; }
    let client = vs::boolean();
    if client { deliver::<Vars_, _>(AF { path: Flat(v), body: vec![] }, n != t); return; }
    // asked directly
    let mut w = World::new();
    let h: Rec<AF, Res> = Rec::new(ok(b"r"));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<Vars_, AF, Res>()).is_err() { vs::fail(120); return; }
    w.start(b);
    let mut m = b"PUT ".to_vec();
    let mut i = 0;
    for s in Vars_::segs() {
        m.push(b'/');
        match *s {
            types::PathSegment::Val(s) => m.extend_from_slice(s.as_bytes()),
            types::PathSegment::Var => { if i < t { m.extend_from_slice(v[i].to_string().as_bytes()) } else { m.push(b'5') } i += 1; }
        }
    }
    m.extend_from_slice(b" HTTP/1.1\r\nContent-Length: 0\r\n\r\n");
    let c = w.raw();
    let out = w.exchange(c, &m);
    match parse_http(&out, false) {
        None => vs::fail(121),
        Some(r) => {
            if r.status == 200 { vs::cover(1); vs::check(h.count() == 1 && t <= n && h.get(0).path.0 == v, 122); }
            else { vs::cover(2); vs::check(is_problem(&r, 400) && h.count() == 0 && t != n, 123); }
        }
    }
    let out = w.exchange(c, b"GET /zz HTTP/1.1\r\n\r\n");
    match parse_http(&out, false) { Some(r) => vs::check(r.status >= 404 && is_problem(&r, r.status), 124), None => vs::fail(125) }
}
shape!(AF { path: Flat });
