//! C07: hexadecimal text: encoding and decoding are inverse, malformed text is refused without a panic.
//! bound: byte strings of 0..=70 bytes; arbitrary texts (any UTF-8 bytes) of 0..=7 bytes; near-valid texts of 66 and 68 bytes with one arbitrary byte; integers: every u256
//! outside: longer byte strings
use crate::gen::*;
use protocol::codec::{decode_256bits_key, hex_decode, hex_encode, serialize_uint};
use protocol::types::*;
use std::str::FromStr;
use symrt as s;

static DIGITS: [u8; 16] = *b"0123456789abcdef";
fn digit(n: u8) -> u8 { DIGITS[(n & 15) as usize] }
fn text(b: &[u8]) -> Vec<u8> { b.iter().flat_map(|x| [digit(x >> 4), digit(x & 15)]).collect() }
fn nibble(c: u8) -> Option<u8> { match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), b'A'..=b'F' => Some(c - b'A' + 10), _ => None } }
/// the bytes a run of digit pairs stands for
fn value(t: &[u8]) -> Option<Vec<u8>> {
    if t.len() % 2 != 0 { return None; }
    t.chunks(2).map(|p| Some(nibble(p[0])? << 4 | nibble(p[1])?)).collect()
}
fn utf8(n: usize) -> Option<String> { String::from_utf8(s::vec("t", n)).ok() }
//@ shards=6
#[no_mangle]
pub extern "C" fn h_c07_inverse() {
    let n = s::choose("@n", 0, 70) as usize;
    let b = s::vec("b", n);
    let t = hex_encode(&b);
    s::check(s::same(t.as_bytes(), &text(&b)), "c07.encode");
    s::check(matches!(hex_decode(&t), Ok(x) if x == b), "c07.decode_encoded");
    let p = ["0x", &t].concat();
    s::check(matches!(hex_decode(&p), Ok(x) if x == b), "c07.decode_prefixed");
    let h = Hex::encode(&b);
    s::check(h.as_string() == p && h.as_string_trim0x() == t && h.len() == n && h.is_empty() == (n == 0) && s::same(&h.as_bytes(), &b), "c07.hex_views");
    s::check(matches!(Hex::from_str(&p), Ok(x) if x == h), "c07.hex_parse");
    s::check(Hex::from_str(&t).is_err(), "c07.hex_needs_prefix");
}
/// Any short text: decoding never panics, and gives the bytes exactly when the text is digit pairs behind an optional prefix.
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c07_any() {
    let n = s::choose("@n", 0, 7) as usize;
    let t = match utf8(n) { Some(t) => t, None => return };
    let body = t.as_bytes().strip_prefix(b"0x").unwrap_or(t.as_bytes());
    let want = value(body);
    let got = s::no_panic("c07.decode_panics", || hex_decode(&t));
    if let Some(got) = got { s::check(match (got, want) { (Ok(g), Some(w)) => s::same(&g, &w), (Err(_), None) => true, _ => false }, "c07.decode_any"); }
}
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c07_hex_any() {
    let n = s::choose("@n", 0, 7) as usize;
    let t = match utf8(n) { Some(t) => t, None => return };
    let want = t.as_bytes().strip_prefix(b"0x").and_then(value);
    let got = s::no_panic("c07.hex_panics", || Hex::from_str(&t));
    if let Some(got) = got { s::check(match (got, want) { (Ok(g), Some(w)) => s::same(g.as_ref(), &w), (Err(_), None) => true, _ => false }, "c07.hex_any"); }
}
struct Sink;
use serde::ser::{Impossible, Serializer};
impl Serializer for Sink {
    type Ok = String;
    type Error = Stop;
    type SerializeSeq = Impossible<String, Stop>;
    type SerializeTuple = Impossible<String, Stop>;
    type SerializeTupleStruct = Impossible<String, Stop>;
    type SerializeTupleVariant = Impossible<String, Stop>;
    type SerializeMap = Impossible<String, Stop>;
    type SerializeStruct = Impossible<String, Stop>;
    type SerializeStructVariant = Impossible<String, Stop>;
    fn serialize_str(self, v: &str) -> Result<String, Stop> { Ok(v.to_owned()) }
    fn serialize_bool(self, _: bool) -> Result<String, Stop> { Err(Stop) }
    fn serialize_i8(self, _: i8) -> Result<String, Stop> { Err(Stop) }
    fn serialize_i16(self, _: i16) -> Result<String, Stop> { Err(Stop) }
    fn serialize_i32(self, _: i32) -> Result<String, Stop> { Err(Stop) }
    fn serialize_i64(self, _: i64) -> Result<String, Stop> { Err(Stop) }
    fn serialize_u8(self, _: u8) -> Result<String, Stop> { Err(Stop) }
    fn serialize_u16(self, _: u16) -> Result<String, Stop> { Err(Stop) }
    fn serialize_u32(self, _: u32) -> Result<String, Stop> { Err(Stop) }
    fn serialize_u64(self, _: u64) -> Result<String, Stop> { Err(Stop) }
    fn serialize_f32(self, _: f32) -> Result<String, Stop> { Err(Stop) }
    fn serialize_f64(self, _: f64) -> Result<String, Stop> { Err(Stop) }
    fn serialize_char(self, _: char) -> Result<String, Stop> { Err(Stop) }
    fn serialize_bytes(self, _: &[u8]) -> Result<String, Stop> { Err(Stop) }
    fn serialize_none(self) -> Result<String, Stop> { Err(Stop) }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<String, Stop> { Err(Stop) }
    fn serialize_unit(self) -> Result<String, Stop> { Err(Stop) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<String, Stop> { Err(Stop) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<String, Stop> { Err(Stop) }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<String, Stop> { Err(Stop) }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, Stop> { Err(Stop) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Stop> { Err(Stop) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeSeq, Stop> { Err(Stop) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeSeq, Stop> { Err(Stop) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeSeq, Stop> { Err(Stop) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Stop> { Err(Stop) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeMap, Stop> { Err(Stop) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeMap, Stop> { Err(Stop) }
}
#[derive(Debug)]
pub struct Stop;
impl std::fmt::Display for Stop { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Stop {}
impl serde::ser::Error for Stop { fn custom<T: std::fmt::Display>(_: T) -> Self { Stop } }
/// Integers are written in the shortest form, for every value.
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c07_uint() {
    let bytes = s::choose("@bytes", 0, 3);
    let v = if bytes == 0 { U256::from(s::u64("v")) } else { let mut a = s::arr::<32>("v"); if bytes == 1 { for x in &mut a[16..] { *x = 0; } } else if bytes == 2 { for x in &mut a[24..] { *x = 0; } } U256::from_little_endian(&a) };
    let t = serialize_uint(&v, Sink).unwrap();
    let t = t.as_bytes();
    s::check(t.len() >= 3 && t[0] == b'0' && t[1] == b'x', "c07.uint_prefix");
    s::check(t.len() == 3 || t[2] != b'0', "c07.uint_shortest");
    let mut back = U256::zero();
    for &c in &t[2..] { back = (back << 4) | U256::from(match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, _ => 255 }); }
    s::check(back == v, "c07.uint_value");
}
#[no_mangle]
pub extern "C" fn h_c07_key() {
    let k = s::arr::<32>("k");
    let t = ["0x", &hex_encode(k)].concat();
    s::check(matches!(decode_256bits_key(&t), Ok(x) if *x == k), "c07.key");
}
/// A key text of the right shape with one arbitrary character, and texts of the wrong length.
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c07_key_text() {
    let at = s::choose("@at", 0, 69) as usize;
    if at < 66 {
        let mut t = b"0x00112233445566778899aAbBcCdDeEfF00112233445566778899aAbBcCdDeEfF".to_vec();
        t[at] = s::u8("c");
        let ok = match at { 0 => t[0] == b'0', 1 => t[1] == b'x' || t[1] == b'X', _ => nibble(t[at]).is_some() };
        let want = value(&t[2..]);
        let t = match String::from_utf8(t) { Ok(t) => t, Err(_) => return };
        let got = s::no_panic("c07.key_panics", || decode_256bits_key(&t));
        if let Some(got) = got { s::check(if ok { matches!(got, Ok(k) if Some(k.to_vec()) == want) } else { got.is_err() }, "c07.key_text"); }
    } else {
        let n = [0, 2, 5, 68][at - 66];
        let mut t = vec![b'1'; n];
        for i in 0..n.min(4) { t[i] = s::u8("p"); }
        let t = match String::from_utf8(t) { Ok(t) => t, Err(_) => return };
        let got = s::no_panic("c07.key_panics", || decode_256bits_key(&t));
        s::check(matches!(got, Some(Err(_))), "c07.key_length");
    }
}
