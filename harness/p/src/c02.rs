//! C02: bytes from the network, the API or the database never crash a decoder, and what a decoder accepts is stable.
//! bound: per type: every byte string of up to 4 bytes; every truncation, every one-byte extension and every overwrite of two adjacent bytes (any position, any values) and every replacement of one item (at any depth) by a string of up to 4 arbitrary bytes behind its length, an arbitrary byte, an empty list, itself in a list, or itself with its last part repeated, in one concrete encoding with every optional part present
//! outside: byte strings that differ from a valid encoding in several places at once and are longer than 4 bytes; panics inside the BLS and secp256k1 libraries
use crate::gen::*;
use protocol::codec::ProtocolCodec;
use protocol::traits::MessageCodec;
use protocol::types::*;
use rlp::{Decodable, Encodable, Rlp};
use std::fmt::Debug;
use symrt as s;

/// An RLP text as a tree: an item as it stands, or the items of a list.
#[derive(Clone)]
enum Node { Str(Vec<u8>), List(Vec<Node>) }
fn parse(raw: &[u8]) -> Node {
    let r = Rlp::new(raw);
    if r.is_list() { Node::List(r.iter().map(|i| parse(i.as_raw())).collect()) } else { Node::Str(raw.to_vec()) }
}
fn build(n: &Node) -> Vec<u8> { match n { Node::Str(b) => b.clone(), Node::List(l) => crate::spec::list(&l.iter().map(build).collect::<Vec<_>>()) } }
fn count(n: &Node) -> usize { match n { Node::Str(_) => 1, Node::List(l) => 1 + l.iter().map(count).sum::<usize>() } }
/// The `at`-th item, counted from the root, replaced.
fn replace(n: &mut Node, at: &mut usize, f: &dyn Fn(&Node) -> Node) {
    if *at == 0 { *n = f(n); *at = usize::MAX; return; }
    *at -= 1;
    if let Node::List(l) = n { for i in l.iter_mut() { if *at != usize::MAX { replace(i, at, f); } } }
}
fn some_item(old: &Node) -> Node {
    let op = s::choose("item", 0, 8);
    match op {
        0..=4 => { let mut b = vec![0x80 + op as u8]; b.extend(s::vec("content", op as usize)); Node::Str(b) }
        5 => Node::Str(vec![s::u8("raw")]),
        6 => Node::List(vec![]),
        7 => Node::List(vec![old.clone()]),
        _ => { let mut v = vec![]; if let Node::List(l) = old { v.extend(l.iter().cloned()); if let Some(x) = l.last() { v.push(x.clone()); } } Node::List(v) }
    }
}
/// `w` truncated, extended, with up to two adjacent bytes overwritten, or with one item of its tree replaced.
fn mutate(w: &[u8]) -> Vec<u8> {
    src::fixed(0);
    let head = if w[0] < 0x80 { 1 } else { 0 };
    let tree = parse(&w[head..]);
    let (n, items) = (w.len() as u64, count(&tree) as u64);
    let mut v = w.to_vec();
    let at = s::choose("@at", 0, 2 * n + items) as usize;
    if at < w.len() { v[at] = s::u8("byte"); if at + 1 < w.len() { v[at + 1] = s::u8("byte"); } }
    else if at < 2 * w.len() { v.truncate(at - w.len()); }
    else if at == 2 * w.len() { v.push(s::u8("byte")); }
    else {
        let (mut t, mut k) = (tree, at - 2 * w.len() - 1);
        replace(&mut t, &mut k, &some_item);
        v.truncate(head);
        v.extend(build(&t));
    }
    v
}
/// A concrete value.
fn base<T>(f: impl Fn() -> T) -> T { src::fixed(11); let t = f(); src::fixed(0); t }
fn small() -> Vec<u8> { let n = s::choose("@len", 0, 4); s::vec("raw", n as usize) }
const WIDE: Sel = Sel { focus: 99, other: C::Wide };
const TINY: Sel = Sel { focus: 99, other: C::Tiny };

/// Decoding does not panic; an accepted value re-encodes to something that decodes to it.
fn total<T: Encodable + Decodable + PartialEq + Debug + Send>(raw: &[u8]) {
    let x = match s::no_panic("c02.no_panic", || <T as ProtocolCodec>::decode(raw)) { Some(Ok(x)) => x, _ => return };
    s::cover("c02.accepted");
    let again = s::no_panic("c02.encode_no_panic", || ProtocolCodec::encode(&x).unwrap());
    if let Some(again) = again {
        let y = <T as ProtocolCodec>::decode(&again);
        s::check(y.is_ok(), "c02.stable_decodes");
        if let Ok(y) = y { s::check(x == y, "c02.stable"); }
    }
}
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_stx() { total::<SignedTransaction>(&small()) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_receipt() { total::<Receipt>(&small()) }
//@ shards=4 cost=8
#[no_mangle]
pub extern "C" fn h_c02_near_receipt() { total::<Receipt>(&mutate(&base(|| receipt(WIDE)).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_resp() { total::<TxResp>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_resp() { total::<TxResp>(&mutate(&base(|| tx_resp(WIDE)).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_ctx() { total::<ExecutorContext>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_ctx() { total::<ExecutorContext>(&mutate(&base(|| context(WIDE)).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_header() { total::<Header>(&small()) }
//@ shards=4 cost=8
#[no_mangle]
pub extern "C" fn h_c02_near_header() { total::<Header>(&mutate(&base(|| header(WIDE)).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_block() { total::<Block>(&small()) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_proposal() { total::<Proposal>(&small()) }
//@ shards=4 cost=8
#[no_mangle]
pub extern "C" fn h_c02_near_proposal() { total::<Proposal>(&mutate(&base(|| proposal(WIDE)).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_proof() { total::<Proof>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_proof() { total::<Proof>(&mutate(&base(|| proof(WIDE, 0)).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_metadata() { total::<Metadata>(&small()) }
//@ shards=4 cost=8
#[no_mangle]
pub extern "C" fn h_c02_near_metadata() { total::<Metadata>(&mutate(&base(|| metadata(WIDE)).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_config() { total::<ConsensusConfig>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_config() { total::<ConsensusConfig>(&mutate(&base(|| consensus_config(WIDE, 0)).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_version() { total::<MetadataVersion>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_version() { total::<MetadataVersion>(&mutate(&base(|| version(WIDE, 0)).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_validator() { total::<Validator>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_validator() { total::<Validator>(&mutate(&base(|| plain_validator(WIDE, 0)).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_ve() { total::<ValidatorExtend>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_ve() { total::<ValidatorExtend>(&mutate(&base(|| validator(WIDE, 0)).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_hardfork() { total::<HardforkInfo>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_hardfork() { total::<HardforkInfo>(&mutate(&base(|| HardforkInfo { inner: vec![HardforkInfoInner { block_number: src::u64("n"), flags: h256("flags") }] }).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_address() { total::<Address>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_address() { total::<Address>(&mutate(&base(|| Address(h160("a"))).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_hex() { total::<Hex>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_hex() { total::<Hex>(&mutate(&base(|| hex("h", C::Wide, 3)).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_blockversion() { total::<BlockVersion>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_blockversion() { total::<BlockVersion>(&mutate(&base(|| BlockVersion::V0).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_cellpub() { total::<CellDepWithPubKey>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_cellpub() { total::<CellDepWithPubKey>(&mutate(&base(|| CellDepWithPubKey { cell_dep: cell_dep(WIDE, 0), pub_key: bytes("pk", C::Wide, 3) }).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_sigs() { total::<SignatureS>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_sigs() { total::<SignatureS>(&mutate(&base(|| SignatureS { witnesses: vec![witness(WIDE, 0)] }).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_cell() { total::<CellWithData>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_cell() { total::<CellWithData>(&mutate(&base(|| CellWithData { type_script: Some(script(WIDE, 0)), lock_script: script(WIDE, 0), data: bytes("data", C::Wide, 3) }).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_outpoint() { total::<OutPoint>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_outpoint() { total::<OutPoint>(&mutate(&base(|| OutPoint { tx_hash: h256("h"), index: n32("i", C::Wide) }).rlp_bytes())) }
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_extra() { total::<ExtraData>(&small()) }
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_near_extra() { total::<ExtraData>(&mutate(&base(|| ExtraData { inner: bytes("e", C::Wide, 3) }).rlp_bytes())) }

//@ shards=2 cost=4
#[no_mangle]
pub extern "C" fn h_c02_near_block() {
    // the header inside is covered by h_c02_near_header; here an almost empty one
    let b = base(|| Block { header: Header { extra_data: extra(C::Wide), proof: proof(WIDE, 0), ..Default::default() }, tx_hashes: vec![h256("txh")] });
    total::<Block>(&mutate(&b.rlp_bytes()));
}
/// Raw transactions as submitted over the API: decode, then `check_hash` as the API does.
fn raw_tx(raw: &[u8]) {
    let x = match s::no_panic("c02.no_panic", || <UnverifiedTransaction as Decodable>::decode(&Rlp::new(raw))) { Some(Ok(x)) => x, _ => return };
    let ok = s::no_panic("c02.check_hash_no_panic", || x.check_hash().is_ok());
    if ok == Some(true) {
        s::cover("c02.raw_accepted");
        let again = x.rlp_bytes();
        s::check(again[..] == *raw, "c02.raw_canonical");
        s::no_panic("c02.sender_no_panic", || SignedTransaction::from_unverified(x.clone()).is_ok());
    }
}
//@ cost=1
#[no_mangle]
pub extern "C" fn h_c02_small_raw_tx() { raw_tx(&small()) }
fn tx(interop: bool, kind: u64, chain: Option<u64>, p: Sel) -> UnverifiedTransaction {
    let unsigned = unsigned(kind, p);
    let sig = if interop { SignatureComponents { r: Bytes::from(src::vec("ir", 34)), s: Bytes::from(src::vec("is", 31)), standard_v: src::u8("v") & 1 } } else { eth_sig(p) };
    UnverifiedTransaction { unsigned, signature: Some(sig), chain_id: chain, hash: H256::zero() }
}
//@ shards=4 cost=8
#[no_mangle]
pub extern "C" fn h_c02_near_raw_legacy() { raw_tx(&mutate(&base(|| tx(false, 0, Some(300), WIDE)).rlp_bytes())) }
//@ shards=4 cost=8
#[no_mangle]
pub extern "C" fn h_c02_near_raw_typed() { raw_tx(&mutate(&base(|| tx(false, 2, Some(5), WIDE)).rlp_bytes())) }
//@ shards=4 cost=8
#[no_mangle]
pub extern "C" fn h_c02_near_raw_interop() { raw_tx(&mutate(&base(|| tx(true, 1, Some(5), TINY)).rlp_bytes())) }
/// Gossiped and stored transactions.
//@ shards=4 cost=8
#[no_mangle]
pub extern "C" fn h_c02_near_stx() {
    let t = base(|| tx(false, 2, Some(5), WIDE));
    total::<SignedTransaction>(&mutate(&rlp::encode(&t.rlp_bytes())));
}
/// The interoperability signature's `r` names a cell dependency and a public key.
//@ shards=4 cost=8
#[no_mangle]
pub extern "C" fn h_c02_interop_sender() {
    let mut r = vec![s::u8("mode")];
    r.extend_from_slice(&mutate(&base(|| CellDepWithPubKey { cell_dep: cell_dep(WIDE, 0), pub_key: bytes("pk", C::Wide, 33) }).rlp_bytes()));
    let t = UnverifiedTransaction { unsigned: unsigned(0, TINY), signature: Some(SignatureComponents { r: r.into(), s: Bytes::from(s::vec("is", 3)), standard_v: 0 }), chain_id: Some(5), hash: H256::zero() };
    s::no_panic("c02.sender_no_panic", || SignedTransaction::from_unverified(t).is_ok());
}
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_interop_short() {
    let (a, b) = (s::choose("r.len", 0, 3), s::choose("s.len", 0, 70));
    let sig = SignatureComponents { r: Bytes::from(s::vec("ir", a as usize)), s: Bytes::from(s::vec("is", b as usize)), standard_v: s::u8("v") };
    let t = UnverifiedTransaction { unsigned: unsigned(0, TINY), signature: Some(sig), chain_id: Some(5), hash: H256::zero() };
    s::no_panic("c02.sender_no_panic", || SignedTransaction::from_unverified(t).is_ok());
}
/// Batches exchanged between peers.
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c02_batch_small() {
    let raw = Bytes::from(small());
    s::no_panic("c02.no_panic", || (BatchSignedTxs::decode_msg(raw.clone()).is_ok(), BatchBlocks::decode_msg(raw).is_ok()));
}
//@ shards=2 cost=4
#[no_mangle]
pub extern "C" fn h_c02_batch_near() {
    let t = base(|| tx(false, 0, Some(5), WIDE)).rlp_bytes();
    let raw = Bytes::from(mutate(&rlp::encode_list::<Vec<u8>, Vec<u8>>(&[t.to_vec()])));
    let b = s::no_panic("c02.no_panic", || BatchSignedTxs::decode_msg(raw));
    if let Some(Ok(b)) = b { s::cover("c02.batch_accepted"); for t in b.inner() { s::check(t.transaction.check_hash().is_ok(), "c02.batch_hash"); } }
}
