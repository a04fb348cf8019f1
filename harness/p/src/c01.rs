//! C01: transactions survive their wire encoding.
//! bound: every kind (legacy with and without chain id, EIP-2930, EIP-1559); one field at a time takes every value of its type while the others are either one encoded byte or full width; data 0..=5 bytes, at most 2 access-list entries of at most 2 keys, interoperability signatures of five length splits totalling 65..=80 bytes
//! bound: chain id below 2^62 (the replay-protection value has to fit 64 bits)
//! outside: simultaneous arbitrary lengths of two fields; longer data and access lists
use crate::gen::*;
use protocol::codec::ProtocolCodec;
use protocol::types::*;
use rlp::{Decodable, Encodable, Rlp};
use symrt as s;

fn roundtrip(tx: UnverifiedTransaction) {
    let wire = tx.rlp_bytes();
    s::observe("wire", &wire);
    let back = <UnverifiedTransaction as Decodable>::decode(&Rlp::new(&wire));
    s::check(back.is_ok(), "c01.decodes");
    if let Ok(back) = back {
        s::check(back.unsigned == tx.unsigned, "c01.payload");
        s::check(back.signature == tx.signature, "c01.signature");
        s::check(back.chain_id == tx.chain_id, "c01.chain_id");
        s::check(back.hash.0 == s::keccak(&wire), "c01.hash");
        s::check(back.check_hash().is_ok(), "c01.check_hash");
        let signed = tx.calc_hash();
        s::check(signed.hash == back.hash, "c01.calc_hash");
    }
}
fn chain(p: Sel, k: u64) -> u64 {
    let id = n64("chain", if p.focus == k { C::Full } else { C::Tiny });
    s::assume(id < 1 << 62);
    id
}
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c01_legacy() {
    let p = Sel::pick(10);
    let unsigned = unsigned(0, p);
    let chain_id = if s::choose("eip155", 0, 1) == 1 { Some(chain(p, 9)) } else { None };
    roundtrip(UnverifiedTransaction { unsigned, signature: Some(eth_sig(p)), chain_id, hash: H256::zero() });
}
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c01_typed() {
    let p = Sel::pick(10);
    let unsigned = unsigned(s::choose("kind", 1, 2), p);
    roundtrip(UnverifiedTransaction { unsigned, signature: Some(eth_sig(p)), chain_id: Some(chain(p, 9)), hash: H256::zero() });
}
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c01_interop() {
    let p = Sel::pick(7);
    let kind = s::choose("kind", 0, 2);
    let chain_id = if kind == 0 && s::choose("eip155", 0, 1) == 0 { None } else { Some(chain(p, 6)) };
    roundtrip(UnverifiedTransaction { unsigned: unsigned(kind, p), signature: Some(interop_sig()), chain_id, hash: H256::zero() });
}
/// A stored or gossiped signed transaction decodes to itself, sender included.
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c01_signed() {
    let p = Sel { focus: s::choose("@focus", 3, 9), other: C::Wide };
    let kind = s::choose("kind", 0, 2);
    let utx = UnverifiedTransaction { unsigned: unsigned(kind, p), signature: Some(eth_sig(p)), chain_id: Some(chain(p, 9)), hash: H256::zero() };
    if let Ok(stx) = SignedTransaction::from_unverified(utx) {
        s::cover("c01.signed_ok");
        let wire = stx.rlp_bytes();
        s::observe("wire", &wire);
        let back = <SignedTransaction as Decodable>::decode(&Rlp::new(&wire));
        s::check(back.is_ok(), "c01.signed_decodes");
        if let Ok(b) = back { s::check(b == stx, "c01.signed_same"); }
        let e = stx.encode_msg_like();
        s::check(e == wire, "c01.signed_codec");
    }
}
trait Like { fn encode_msg_like(&self) -> Vec<u8>; }
impl Like for SignedTransaction { fn encode_msg_like(&self) -> Vec<u8> { ProtocolCodec::encode(self).unwrap().to_vec() } }
