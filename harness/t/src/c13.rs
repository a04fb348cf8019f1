//! C13: axon-tools reads and writes hexadecimal text and numbers exactly, or refuses them without a panic.
//! bound: byte strings of 0..=40 bytes; arbitrary texts (any UTF-8 bytes) of 0..=5 bytes; numbers of 1..=70 digits with one arbitrary byte at any place; every integer written
//! outside: the JSON syntax around a text
use crate::gen::*;
use axon_tools::hex::{hex_decode, hex_encode};
use axon_tools::types as t;
use ethereum_types::H160;
use serde::de::value::{Error as E, MapDeserializer};
use serde::Deserialize;
use std::str::FromStr;
use symrt as s;

static DIGITS: [u8; 16] = *b"0123456789abcdef";
fn digit(n: u8) -> u8 { DIGITS[(n & 15) as usize] }
fn text(b: &[u8]) -> Vec<u8> { b.iter().flat_map(|x| [digit(x >> 4), digit(x & 15)]).collect() }
fn nibble(c: u8) -> Option<u8> { match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), b'A'..=b'F' => Some(c - b'A' + 10), _ => None } }
fn value(t: &[u8]) -> Option<Vec<u8>> {
    if t.len() % 2 != 0 { return None; }
    t.chunks(2).map(|p| Some(nibble(p[0])? << 4 | nibble(p[1])?)).collect()
}
fn utf8(n: usize) -> Option<String> { String::from_utf8(s::vec("t", n)).ok() }
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c13_inverse() {
    let n = s::choose("@n", 0, 40) as usize;
    let b = s::vec("b", n);
    let x = hex_encode(&b);
    s::check(s::same(x.as_bytes(), &text(&b)), "c13.encode");
    s::check(matches!(hex_decode(&x), Ok(y) if y == b), "c13.decode_encoded");
    let p = ["0x", &x].concat();
    let h = t::Hex::encode(&b);
    s::check(h.as_string() == p && h.as_string_trim0x() == x && h.len() == n && h.is_empty() == (n == 0) && s::same(&h.as_bytes(), &b), "c13.hex_views");
    s::check(matches!(t::Hex::from_str(&p), Ok(y) if y == h), "c13.hex_parse");
    s::check(t::Hex::from_str(&x).is_err(), "c13.hex_needs_prefix");
    s::check(t::Hex::from(b.clone()) == h && s::same(h.as_ref(), &b), "c13.hex_of_bytes");
}
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c13_hex_any() {
    let n = s::choose("@n", 0, 6) as usize;
    let x = match utf8(n) { Some(x) => x, None => return };
    let want = x.as_bytes().strip_prefix(b"0x").and_then(value);
    let got = s::no_panic("c13.hex_panics", || t::Hex::from_str(&x));
    if let Some(got) = got { s::check(match (got, want) { (Ok(g), Some(w)) => s::same(g.as_ref(), &w), (Err(_), None) => true, _ => false }, "c13.hex_any"); }
    let want = value(x.as_bytes().strip_prefix(b"0x").unwrap_or(x.as_bytes()));
    let got = s::no_panic("c13.decode_panics", || hex_decode(&x));
    if let Some(got) = got { s::check(match (got, want) { (Ok(g), Some(w)) => s::same(&g, &w), (Err(_), None) => true, _ => false }, "c13.decode_any"); }
}
/// The number a text stands for: `0x` and at least one digit.  `None`: no number.  A bare `0x` may go either way, as zero.
fn number(x: &[u8]) -> Option<u128> {
    let mut d = x.strip_prefix(b"0x")?;
    if d.iter().any(|c| nibble(*c).is_none()) { return None; }
    while !d.is_empty() && d[0] == b'0' { d = &d[1..]; }
    if d.len() > 16 { return Some(u128::MAX); }
    let mut v = 0u64;
    for c in d { v = (v << 4) | nibble(*c)? as u64; }
    Some(v as u128)
}
fn as_u64(x: &str) -> Result<u64, E> { t::MetadataVersion::deserialize(MapDeserializer::new(vec![("start", "0x1"), ("end", x)].into_iter())).map(|v| v.end) }
fn as_u32(x: &str) -> Result<u32, E> {
    t::ValidatorExtend::deserialize(MapDeserializer::new(vec![("bls_pub_key", "0x01"), ("pub_key", "0x02"), ("address", "0x0000000000000000000000000000000000000001"), ("propose_weight", "0x3"), ("vote_weight", x)].into_iter())).map(|v| v.vote_weight)
}
fn judge(x: &str) {
    let want = number(x.as_bytes());
    let bare = x == "0x";
    if let Some(got) = s::no_panic("c13.u64_panics", || as_u64(x)) {
        s::check(match (&got, want) { (Ok(g), Some(w)) => *g as u128 == w, (Ok(_), None) => false, (Err(_), None) => true, (Err(_), Some(w)) => bare || w > u64::MAX as u128 }, "c13.u64");
    }
    if let Some(got) = s::no_panic("c13.u32_panics", || as_u32(x)) {
        s::check(match (&got, want) { (Ok(g), Some(w)) => *g as u128 == w, (Ok(_), None) => false, (Err(_), None) => true, (Err(_), Some(w)) => bare || w > u32::MAX as u128 }, "c13.u32");
    }
}
//@ shards=6
#[no_mangle]
pub extern "C" fn h_c13_number_any() {
    let n = s::choose("@n", 0, 5) as usize;
    if let Some(x) = utf8(n) { judge(&x) }
}
//@ shards=6
#[no_mangle]
pub extern "C" fn h_c13_number_digits() {
    let n = s::choose("@digits", 1, 70) as usize;
    let mut x = b"0x".to_vec();
    for i in 0..n { x.push(if n > 12 && i < n - 12 { b'0' } else { DIGITS[(i * 7 + 5) % 16] }); }
    let at = match s::choose("at", 0, 5) { 0 => 0, 1 => 1, 2 => 2, 3 => 2 + n / 2, 4 => n + 1, _ => if n > 13 { n - 12 } else { 2 } };
    x[at] = s::u8("c");
    if let Ok(x) = String::from_utf8(x) { judge(&x) }
}
/// Numbers are written in the shortest form and read back, for every value.
//@ shards=2
#[no_mangle]
pub extern "C" fn h_c13_write() {
    let (v, w) = (s::u64("v"), s::u32("w"));
    let p = t::Proof { number: v, round: w as u64, ..Default::default() };
    let j = serde_json::to_value(&p).unwrap();
    let (x, y) = (j["number"].as_str().unwrap(), j["round"].as_str().unwrap());
    for (x, v) in [(x, v), (y, w as u64)] {
        let b = x.as_bytes();
        s::check(b.len() >= 3 && b[0] == b'0' && b[1] == b'x' && (b.len() == 3 || b[2] != b'0'), "c13.shortest");
        let mut back = 0u64;
        for &c in &b[2..] { back = (back << 4) | match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, _ => 255 } as u64; }
        s::check(back == v, "c13.written");
    }
}
