//! C08: addresses: derived from keys and hashes, parsed and printed consistently, malformed text refused without a panic.
//! bound: every hash, 20-byte string and 65-byte key; byte strings of 0..=34, 64..=66 bytes; address texts: any one character of a checksummed address replaced by any byte, any ASCII text of 0..=4 bytes, texts of 39..=41, 43, 64..=70 and 200 digits; printing: the letter case of three fixed addresses with one arbitrary byte
//! outside: decompression of 33-byte keys (an arbitrary deterministic function)
use crate::gen::*;
use protocol::codec::ProtocolCodec;
use protocol::types::*;
use rlp::{Decodable, Encodable, Rlp};
use std::str::FromStr;
use symrt as s;

static DIGITS: [u8; 16] = *b"0123456789abcdef";
fn lower(a: &[u8]) -> Vec<u8> { a.iter().flat_map(|x| [DIGITS[(x >> 4) as usize], DIGITS[(x & 15) as usize]]).collect() }
/// EIP-55, from the document: a letter is upper case when the matching nibble of the hash of the lower-case text is at least 8
fn eip55(a: &[u8]) -> Vec<u8> {
    let t = lower(a);
    let h = s::keccak(&t);
    let mut o = b"0x".to_vec();
    for (i, c) in t.iter().enumerate() {
        let n = if i % 2 == 0 { h[i / 2] >> 4 } else { h[i / 2] & 15 };
        o.push(if *c >= b'a' && n >= 8 { c - 32 } else { *c });
    }
    o
}
const FIXED: [[u8; 20]; 3] = [
    [0x5a, 0xae, 0xb6, 0x05, 0x3f, 0x3e, 0x94, 0xc9, 0xb9, 0xa0, 0x9f, 0x33, 0x66, 0x94, 0x35, 0xe7, 0xef, 0x1b, 0xea, 0xed],
    [0xfb, 0x69, 0x16, 0x09, 0x5c, 0xa1, 0xdf, 0x60, 0xbb, 0x79, 0xce, 0x92, 0xce, 0x3e, 0xa7, 0x4c, 0x37, 0xc5, 0xd3, 0x59],
    [0; 20],
];
#[no_mangle]
pub extern "C" fn h_c08_build() {
    let h = h256("h");
    s::check(s::same(Address::from_hash(h).as_slice(), &h.0[12..]), "c08.of_hash");
    let n = s::choose("@n", 0, 37) as usize;
    let n = if n > 34 { n + 29 } else { n };
    let b = s::vec("b", n);
    let a = s::no_panic("c08.of_bytes_panics", || Address::from_bytes(b.clone().into()));
    s::check(match a { Some(Ok(a)) => n == 20 && s::same(a.as_slice(), &b), Some(Err(_)) => n != 20, None => false }, "c08.of_bytes");
    let k = s::no_panic("c08.of_key_panics", || Address::from_pubkey_bytes(&b));
    match k {
        Some(Ok(k)) => { s::check(n == 33 || n == 65, "c08.key_length"); if n == 65 { s::check(k.0 .0 == s::keccak(&b[1..])[12..], "c08.of_key"); } }
        Some(Err(_)) => s::check(n != 65, "c08.key_refused"),
        None => {}
    }
}
#[no_mangle]
pub extern "C" fn h_c08_codec() {
    let a = Address(h160("a"));
    let w = a.rlp_bytes();
    s::check(matches!(<Address as Decodable>::decode(&Rlp::new(&w)), Ok(b) if b == a), "c08.codec");
    s::check(matches!(<Address as ProtocolCodec>::decode(&ProtocolCodec::encode(&a).unwrap()), Ok(b) if b == a), "c08.protocol_codec");
    // hexadecimal text, either prefix
    let t = String::from_utf8(lower(&a.0 .0)).unwrap();
    s::check(matches!(Address::from_hex(&["0x", &t].concat()), Ok(b) if b == a), "c08.of_hex");
    s::check(matches!(Address::from_hex(&["0X", &t].concat()), Ok(b) if b == a), "c08.of_upper_prefix");
    s::check(Address::from_hex(&t).is_err(), "c08.prefix_needed");
    s::check(Address::from_hex(&["0x0x", &t].concat()).is_err(), "c08.one_prefix");
    s::check(Address::default().0 == H160::zero(), "c08.default");
    let p = Public::from_slice(&s::vec("p", 64));
    s::check(public_to_address(&p).0 == s::keccak(&p.0)[12..], "c08.of_public");
    let r = recover_intact_pub_key(&p);
    s::check(r.0[0] == 4 && s::same(&r.0[1..], &p.0), "c08.intact_key");
}
/// Printing fixed addresses with one arbitrary (concretized) byte gives EIP-55, and parsing it back gives the address.
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c08_print() {
    let k = s::choose("@k", 0, 23);
    let mut a = FIXED[k as usize % 3];
    let at = k as usize / 3 * 2;
    a[at] = s::concretize(s::u8("x") as u64) as u8;
    let addr = Address(H160(a));
    let t = addr.to_string();
    s::check(t.as_bytes() == eip55(&a), "c08.eip55");
    s::check(addr.eip55() == t, "c08.eip55_same");
    s::check(matches!(Address::from_str(&t), Ok(b) if b == addr), "c08.print_parse");
}
/// One character of a good text replaced: accepted only if the text is still exactly the checksummed form of some address.
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c08_near() {
    let k = s::choose("@at", 0, 125) as usize;
    let (f, at) = (k / 42, k % 42);
    let mut t = eip55(&FIXED[f]);
    t[at] = s::concretize(s::u8("c") as u64) as u8;
    let t = match String::from_utf8(t) { Ok(t) => t, Err(_) => return };
    let got = s::no_panic("c08.parse_panics", || Address::from_str(&t));
    if let Some(Ok(a)) = &got { s::check(eip55(&a.0 .0) == t.as_bytes(), "c08.accepts_checksummed"); }
    let hex = t.as_bytes()[2..].iter().all(|c| c.is_ascii_hexdigit()) && t.starts_with("0x");
    let good = hex && { let v: Vec<u8> = t.as_bytes()[2..].chunks(2).map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap()).collect(); eip55(&v) == t.as_bytes() };
    s::check(matches!(got, Some(Ok(_))) == good, "c08.accepts_iff_checksummed");
}
/// Texts of other lengths are refused.
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c08_length() {
    let n = [0usize, 1, 2, 3, 4, 39, 40, 41, 43, 64, 65, 66, 67, 70, 200][s::choose("@n", 0, 14) as usize];
    let mut t = vec![b'0'; n];
    if n <= 4 { for c in t.iter_mut() { *c = s::concretize(s::u8("c") as u64 & 127) as u8; if n > 2 { s::assume(b"0xX1aAg".contains(c)); } } }
    else if s::choose("prefix", 0, 1) == 1 { t[1] = b'x'; }
    let t = String::from_utf8(t).unwrap();
    let got = s::no_panic("c08.parse_panics", || Address::from_str(&t));
    s::check(matches!(got, Some(Err(_))), "c08.length");
    let got = s::no_panic("c08.hex_panics", || Address::from_hex(&t));
    let exact = n == 42 && t.starts_with("0x");
    s::check(exact || matches!(got, Some(Err(_))), "c08.hex_length");
}
