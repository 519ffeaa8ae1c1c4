//! Path, query and header arguments: what the client sends is what the handler gets.
use crate::route;
use crate::vs;
use crate::world::*;
use serde::{de, ser};
use std::collections::BTreeMap;

route!(RtA1, Put, Val("a"), Var);
route!(RtA2, Put, Var, Val("b"), Var);
route!(RtV2, Put, Var, Var);
route!(RtN, Get, Val("n"), Var, Var, Var, Var, Var, Var, Var, Var, Var);
route!(RtQ, Get, Val("q"));

/// Calls through the real client and server; `unrepresentable` = the value is one the
/// transport cannot carry (then the call must fail and the handler must not run).
pub fn rt<Rt: Route, P: Arg, Q: Arg, H: Arg>(rq: Req<P, Q, H>, unrepresentable: bool) {
    let mut w = World::new();
    let h = Rec::new(ok(b"r"));
    let mut b = w.builder();
    if b.register(h.clone(), proc::<Rt, Req<P, Q, H>, Res>()).is_err() { vs::fail(1); return; }
    w.start(b);
    let r: Option<Result<Res, ()>> = w.call::<Rt, _, Res>(rq.clone());
    match r {
        None => vs::fail(2),
        Some(Err(())) => {
            vs::cover(2);
            vs::check(unrepresentable, 3);
            vs::check(h.count() == 0, 4);
        }
        Some(Ok(r)) => {
            vs::cover(1);
            vs::check(!unrepresentable, 5);
            vs::check(h.count() == 1, 6);
            vs::check(h.get(0) == rq, 7);
            vs::check(r == ok(b"r"), 8);
        }
    }
}
fn req<P, Q, H>(path: P, query: Q, header: H) -> Req<P, Q, H> { Req { path, query, header, body: vec![] } }

// ---- integers: windows of 256 consecutive values --------------------------
/// Some 64-bit values around which 256-value windows are checked.
pub fn base64_() -> u64 {
    const P10: [u64; 19] = [1, 10, 100, 1000, 10_000, 100_000, 1_000_000, 10_000_000, 100_000_000, 1_000_000_000, 10_000_000_000,
        100_000_000_000, 1_000_000_000_000, 10_000_000_000_000, 100_000_000_000_000, 1_000_000_000_000_000, 10_000_000_000_000_000,
        100_000_000_000_000_000, 1_000_000_000_000_000_000];
    let k = vs::choose(if vs::thorough() { 19 + 19 + 19 } else { 20 });
    let c = if vs::thorough() { k } else { [0, 18, 9, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54][k as usize] };
    if c < 19 { P10[c as usize].wrapping_sub(128) }
    else if c < 38 { P10[c as usize - 19].wrapping_mul(9).wrapping_sub(128) }
    else {
        match c - 38 {
            0 => 0,
            1 => (1 << 16) - 128,
            2 => (1 << 31) - 128,
            3 => (1 << 32) - 128,
            4 => (1 << 63) - 128,
            5 => u64::max_value() - 255,
            6 => 10_000_000_000_000_000_000 - 128,
            7 => 0u64.wrapping_sub(1 << 31).wrapping_sub(128),
            8 => (1 << 8) - 128,
            9 => (1 << 15) - 128,
            10 => (1 << 24) - 128,
            11 => (1 << 48) - 128,
            12 => (1 << 53) - 128,
            13 => 0u64.wrapping_sub(1 << 53).wrapping_sub(128),
            14 => 0u64.wrapping_sub(128),
            15 => (3 << 32) - 128,
            16 => 0u64.wrapping_sub(1 << 32).wrapping_sub(128),
            17 => 0u64.wrapping_sub(1 << 15).wrapping_sub(128),
            _ => 0x0123_4567_89ab_cdef,
        }
    }
}
pub fn word() -> u64 { let b = base64_(); b.wrapping_add(vs::u8() as u64) }
/// Any 16-bit value, as 256 windows.
pub fn word16() -> u16 {
    let hi = if vs::thorough() { vs::choose(256) } else { [0u64, 3, 4, 39, 0x7f, 0x80, 0xff][vs::choose(7) as usize] };
    (hi as u16) << 8 | vs::u8() as u16
}

#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Nums { pub a: u8, pub b: i8, pub c: u16, pub d: i16, pub e: u32, pub f: i32, pub g: u64, pub h: i64, pub i: bool }
pub fn nums() -> Nums {
    let mut n = Nums { a: 200, b: -100, c: 50000, d: -30000, e: 4_000_000_000, f: -2_000_000_000, g: 10_000_000_000_000_000_000, h: -9_000_000_000_000_000_000, i: true };
    match vs::choose(9) {
        0 => n.a = vs::u8(),
        1 => n.b = vs::u8() as i8,
        2 => n.c = word16(),
        3 => n.d = word16() as i16,
        4 => n.e = word() as u32,
        5 => n.f = word() as i32,
        6 => n.g = word(),
        7 => n.h = word() as i64,
        _ => n.i = vs::boolean(),
    }
    n
}

// ---- path -------------------------------------------------------------------
fn bad_seg(s: &str) -> bool {
    s == "." || s == ".." || s.bytes().any(|b| b == b'\t' || b == b'\n' || b == b'\r')
}
#[no_mangle]
pub extern "C" fn h_path_str() {
    let s = vs::string(vs::bound(3, 4));
    vs::note(0, s.as_bytes());
    let bad = bad_seg(&s);
    rt::<RtA1, _, _, _>(req((s,), Nil {}, Nil {}), bad);
}
/// Longer segments: concrete text around symbolic bytes.
#[no_mangle]
pub extern "C" fn h_path_long() {
    let pre = ["ab", "..", "%2e", "%", "a%20", "+", "\u{e9}", "C:", "//", "0123456789012345678901234567890123456789"][vs::choose(10) as usize];
    let post = ["", "xyz", ".", "/..", "%41"][vs::choose(5) as usize];
    let m = vs::utf8(vs::bound(1, 2) as usize);
    let mut s = String::from(pre);
    s.push_str(&m);
    s.push_str(post);
    vs::note(0, s.as_bytes());
    let bad = bad_seg(&s);
    rt::<RtA1, _, _, _>(req((s,), Nil {}, Nil {}), bad);
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Name(pub String);
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Two(pub Name, pub String);
/// Two variables with a constant between or next to each other; newtypes.
#[no_mangle]
pub extern "C" fn h_path_two() {
    let a = vs::string(vs::bound(1, 2));
    let b = vs::string(vs::bound(1, 2));
    vs::note(0, a.as_bytes());
    vs::note(1, b.as_bytes());
    let bad = bad_seg(&a) || bad_seg(&b) || a.is_empty();
    if vs::boolean() { rt::<RtA2, _, _, _>(req(Two(Name(a), b), Nil {}, Nil {}), bad) }
    else { rt::<RtV2, _, _, _>(req((a, b), Nil {}, Nil {}), bad) }
}
#[no_mangle]
pub extern "C" fn h_path_nums() {
    let n = nums();
    rt::<RtN, _, _, _>(req((n.a, n.b, n.c, n.d, n.e, n.f, n.g, n.h, n.i), Nil {}, Nil {}), false);
}

// ---- query ------------------------------------------------------------------
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct QStr { pub s: String }
#[no_mangle]
pub extern "C" fn h_query_str() {
    let s = vs::string(vs::bound(3, 4));
    vs::note(0, s.as_bytes());
    rt::<RtQ, _, _, _>(req((), QStr { s }, Nil {}), false);
}
#[no_mangle]
pub extern "C" fn h_query_long() {
    let pre = ["ab", "%2e", "%", "a+b", "k=", "&s=", "\u{e9}", "#", "0123456789012345678901234567890123456789"][vs::choose(9) as usize];
    let post = ["", "xyz", "%41", "=", "&"][vs::choose(5) as usize];
    let m = vs::utf8(vs::bound(1, 2) as usize);
    let mut s = String::from(pre);
    s.push_str(&m);
    s.push_str(post);
    vs::note(0, s.as_bytes());
    rt::<RtQ, _, _, _>(req((), QStr { s }, Nil {}), false);
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct QOpt { pub a: Option<String>, #[serde(rename = "b b")] pub b: Option<Name>, pub n: Option<u8>, pub t: Option<bool> }
#[no_mangle]
pub extern "C" fn h_query_opt() {
    let a = if vs::boolean() { Some(vs::string(vs::bound(1, 2))) } else { None };
    let b = if vs::boolean() { Some(Name(vs::string(1))) } else { None };
    let n = if vs::boolean() { Some(vs::u8()) } else { None };
    let t = if vs::boolean() { Some(vs::boolean()) } else { None };
    rt::<RtA1, _, _, _>(req(("p".to_string(),), QOpt { a, b, n, t }, Nil {}), false);
}
#[no_mangle]
pub extern "C" fn h_query_map() {
    let mut m = BTreeMap::new();
    let k = vs::string(vs::bound(1, 2));
    let v = vs::string(vs::bound(1, 2));
    vs::note(0, k.as_bytes());
    vs::note(1, v.as_bytes());
    if vs::boolean() { m.insert("zz".to_string(), "y".to_string()); }
    m.insert(k, v);
    rt::<RtQ, _, _, _>(req((), m, Nil {}), false);
}
#[no_mangle]
pub extern "C" fn h_query_nums() { rt::<RtQ, _, _, _>(req((), nums(), Nil {}), false); }

// ---- header -----------------------------------------------------------------
/// RFC 7230 field values which survive transport: no control characters other
/// than HTAB, no leading or trailing blank.
pub fn bad_value(s: &[u8]) -> bool {
    let blank = |b: u8| b == b' ' || b == b'\t';
    if s.is_empty() { return false; }
    blank(s[0]) || blank(s[s.len() - 1]) || s.iter().any(|&b| (b < 0x20 && b != b'\t') || b == 0x7f)
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct HStr { #[serde(rename = "x-s")] pub s: String }
#[no_mangle]
pub extern "C" fn h_header_str() {
    let s = vs::string(vs::bound(3, 4));
    vs::note(0, s.as_bytes());
    let bad = bad_value(s.as_bytes());
    rt::<RtQ, _, _, _>(req((), Nil {}, HStr { s }), bad);
}
#[no_mangle]
pub extern "C" fn h_header_long() {
    let pre = ["ab", "a\r", "a: b", ",", "\u{e9}", "%41", "0123456789012345678901234567890123456789"][vs::choose(7) as usize];
    let post = ["", "xyz", "\nx-t: 1", "\r\n\r\n"][vs::choose(4) as usize];
    let m = vs::utf8(vs::bound(1, 2) as usize);
    let mut s = String::from(pre);
    s.push_str(&m);
    s.push_str(post);
    vs::note(0, s.as_bytes());
    let bad = bad_value(s.as_bytes());
    rt::<RtQ, _, _, _>(req((), Nil {}, HStr { s }), bad);
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct Marker;
#[derive(PartialEq, Clone, Debug)]
pub struct Raw(pub Vec<u8>);
impl ser::Serialize for Raw {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) }
}
impl<'de> de::Deserialize<'de> for Raw {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Raw;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("bytes") }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Raw, E> { Ok(Raw(v.to_vec())) }
        }
        d.deserialize_byte_buf(V)
    }
}
#[derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
pub struct HOpt { #[serde(rename = "x-a")] pub a: Option<Name>, #[serde(rename = "x-m")] pub m: Marker, #[serde(rename = "x-n")] pub n: Option<u8>, #[serde(rename = "x-b")] pub b: Option<bool>, #[serde(rename = "x-r")] pub r: Option<Raw> }
#[no_mangle]
pub extern "C" fn h_header_opt() {
    let a = if vs::boolean() { Some(Name(vs::string(vs::bound(1, 2)))) } else { None };
    let n = if vs::boolean() { Some(vs::u8()) } else { None };
    let b = if vs::boolean() { Some(vs::boolean()) } else { None };
    let bad = a.as_ref().map_or(false, |a| bad_value(a.0.as_bytes()));
    rt::<RtA1, _, _, _>(req(("p".to_string(),), Nil {}, HOpt { a, m: Marker, n, b, r: None }), bad);
}
#[no_mangle]
pub extern "C" fn h_header_raw() {
    let n = vs::len(vs::bound(2, 3));
    let r = vs::bytes(n);
    let bad = bad_value(&r);
    rt::<RtA1, _, _, _>(req(("p".to_string(),), Nil {}, HOpt { a: None, m: Marker, n: None, b: None, r: Some(Raw(r)) }), bad);
}
#[no_mangle]
pub extern "C" fn h_header_nums() { rt::<RtQ, _, _, _>(req((), Nil {}, nums()), false); }

/// Text of many lengths, with one arbitrary ASCII character somewhere.
pub fn long_text(limit: usize) -> String {
    let n = [1usize, 2, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 900, 1000, 1023, 1024, 1025, 2048][vs::choose(30) as usize].min(limit);
    let c = vs::u8();
    vs::assume(c < 0x80);
    let s = match vs::choose(6) {
        k if k < 3 => {
            let at = [0, n / 2, n - 1][k as usize];
            let mut v: Vec<u8> = (0..n).map(|i| 0x21 + (i * 5 % 94) as u8).collect();
            v[at] = c;
            String::from_utf8(v).unwrap_or_default()
        }
        // (wherever a text is cut, it is cut inside of a character)
        3 => { let mut s: String = std::iter::repeat('\u{e9}').take((n + 2) / 3).collect(); s.push(c as char); s }
        4 => { let mut s = String::new(); s.push(c as char); s.extend(std::iter::repeat('\u{e9}').take((n + 2) / 3)); s }
        _ => { let mut s: String = std::iter::repeat('\u{20ac}').take((n + 4) / 5).collect(); s.push(c as char); s }
    };
    vs::note(0, s.as_bytes());
    s
}
#[no_mangle]
pub extern "C" fn h_path_ascii() {
    let s = long_text(2048);
    let bad = bad_seg(&s);
    rt::<RtA1, _, _, _>(req((s,), Nil {}, Nil {}), bad);
}
#[no_mangle]
pub extern "C" fn h_query_ascii() {
    let s = long_text(2048);
    rt::<RtQ, _, _, _>(req((), QStr { s }, Nil {}), false);
}
#[no_mangle]
pub extern "C" fn h_header_ascii() {
    let s = long_text(2048);
    let bad = bad_value(s.as_bytes());
    rt::<RtQ, _, _, _>(req((), Nil {}, HStr { s }), bad);
}
/// Header names given at run time (a map): carried, or refused.
#[no_mangle]
pub extern "C" fn h_header_name() {
    let k = vs::string(2);
    vs::note(0, k.as_bytes());
    let token = !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b));
    let mut m = BTreeMap::new();
    m.insert(k, "v".to_string());
    rt::<RtQ, _, _, _>(req((), Nil {}, NoCase(m)), !token);
}
/// Header fields received: all those sent, whatever the case of the names.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct NoCase(pub BTreeMap<String, String>);
impl PartialEq for NoCase {
    fn eq(&self, sent: &NoCase) -> bool {
        sent.0.iter().all(|(k, v)| self.0.iter().any(|(n, w)| n.to_ascii_lowercase() == k.to_ascii_lowercase() && v == w))
    }
}
