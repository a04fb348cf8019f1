//! C11: values shared with CKB keep their content in wire form, in CKB's molecule form and in gossip batches; an interoperability transaction's sender is its key's address.
//! bound: every value of every hash, index and type byte; byte strings up to 5 bytes (public keys up to 33); up to 2 witnesses; batches of up to 2 transactions or blocks
//! outside: running the verification script of an interoperability transaction in CKB-VM
use crate::gen::*;
use ckb_types::{packed, prelude::*};
use crate::spec;
use protocol::codec::ProtocolCodec;
use protocol::traits::MessageCodec;
use protocol::types::*;
use rlp::{Decodable, Encodable, Rlp};
use symrt as s;

fn rt<T: Encodable + Decodable + PartialEq>(x: &T, want: Vec<u8>, id: &str) {
    let wire = x.rlp_bytes();
    s::observe("wire", &wire);
    s::check(s::same(&wire, &want), &[id, "_layout"].concat());
    s::check(matches!(<T as Decodable>::decode(&Rlp::new(&wire)), Ok(y) if y == *x), id);
}
fn dep_rlp(d: &CellDep) -> Vec<u8> { spec::list(&[spec::string(&d.tx_hash.0), spec::n(d.index as u64), spec::n(d.dep_type as u64)]) }
fn script_rlp(x: &Script) -> Vec<u8> { spec::list(&[spec::string(&x.code_hash.0), spec::string(&x.args), spec::n(x.hash_type as u64)]) }
fn opt(b: &Option<Bytes>) -> Vec<u8> { match b { None => spec::list(&[]), Some(b) => spec::list(&[spec::string(b)]) } }
fn witness_rlp(w: &Witness) -> Vec<u8> { spec::list(&[opt(&w.lock), opt(&w.input_type), opt(&w.output_type)]) }
#[no_mangle]
pub extern "C" fn h_c11_codecs() {
    let p = Sel::pick(4);
    let d = cell_dep(p, 0);
    rt(&d, dep_rlp(&d), "c11.cell_dep");
    let o = OutPoint { tx_hash: h256("op"), index: n32("op.index", p.at(0)) };
    rt(&o, spec::list(&[spec::string(&o.tx_hash.0), spec::n(o.index as u64)]), "c11.out_point");
    let c = script(p, 1);
    rt(&c, script_rlp(&c), "c11.script");
    s::check(c.len() == c.args.len() + 33, "c11.script_len");
    let k = CellDepWithPubKey { cell_dep: d.clone(), pub_key: bytes("pk", p.at(2), 33) };
    rt(&k, spec::list(&[dep_rlp(&d), spec::string(&k.pub_key)]), "c11.dep_with_key");
}
//@ shards=2
#[no_mangle]
pub extern "C" fn h_c11_witnesses() {
    let p = Sel { focus: s::choose("@focus", 0, 2), other: if s::choose("other", 0, 1) == 0 { C::Tiny } else { C::Wide } };
    let n = s::choose("n", 0, 2);
    let w: Vec<Witness> = (0..n).map(|i| witness(if i == 0 { p } else { Sel { focus: 9, other: C::Wide } }, 0)).collect();
    for x in w.iter().take(1) { rt(x, witness_rlp(x), "c11.witness"); }
    let sg = SignatureS::new(w.clone());
    s::check(sg.witnesses == w, "c11.signature_new");
    let items: Vec<Vec<u8>> = w.iter().map(witness_rlp).collect();
    rt(&sg, spec::list(&[spec::list(&items)]), "c11.signature_s");
}
#[no_mangle]
pub extern "C" fn h_c11_cell() {
    let p = Sel::pick(3);
    let ty = if s::choose("typed", 0, 1) == 1 { Some(script(p, 0)) } else { None };
    let c = CellWithData { type_script: ty, lock_script: script(p, 1), data: bytes("cell.data", p.at(2), 5) };
    let t = match &c.type_script { None => spec::list(&[]), Some(t) => spec::list(&[script_rlp(t)]) };
    rt(&c, spec::list(&[t, script_rlp(&c.lock_script), spec::string(&c.data)]), "c11.cell");
}
fn le(v: usize) -> [u8; 4] { (v as u32).to_le_bytes() }
/// CKB's own serialization (molecule): fixed structs are the fields in order, tables carry a size and the field offsets.
#[no_mangle]
pub extern "C" fn h_c11_molecule() {
    let d = CellDep { tx_hash: h256("dep"), index: s::u32("index"), dep_type: s::u8("dep_type") };
    let m = packed::CellDep::from(&d);
    s::check(s::same(m.as_slice(), &[&d.tx_hash.0[..], &d.index.to_le_bytes()[..], &[d.dep_type][..]].concat()), "c11.packed_dep");
    let o = OutPoint::from(&m.out_point());
    s::check(o.tx_hash == d.tx_hash && o.index == d.index, "c11.unpacked_out_point");
    let x = Script { code_hash: h256("code"), args: Bytes::from(s::vec("args", s::choose("@args", 0, 5) as usize)), hash_type: s::u8("hash_type") };
    let m = packed::Script::from(&x);
    let n = x.args.len();
    let want = [&le(16 + 32 + 1 + 4 + n)[..], &le(16)[..], &le(48)[..], &le(49)[..], &x.code_hash.0[..], &[x.hash_type][..], &le(n)[..], &x.args[..]].concat();
    s::check(s::same(m.as_slice(), &want), "c11.packed_script");
}
/// r = 0x00 || cell dep and key: the sender is the key's address.  Any other mode is refused.
#[no_mangle]
pub extern "C" fn h_c11_sender() {
    let p = Sel { focus: 99, other: C::Wide };
    let n = [0usize, 1, 20, 33, 64][s::choose("@key", 0, 4) as usize];
    let k = CellDepWithPubKey { cell_dep: cell_dep(p, 0), pub_key: Bytes::from(s::vec("pk", n)) };
    let mode = s::u8("mode");
    let mut r = vec![mode];
    r.extend_from_slice(&spec::list(&[dep_rlp(&k.cell_dep), spec::string(&k.pub_key)]));
    let sig = SignatureComponents { r: Bytes::from(r), s: Bytes::from(s::vec("ss", 40)), standard_v: s::u8("v") };
    let kind = s::choose("kind", 0, 2);
    let utx = UnverifiedTransaction { unsigned: unsigned(kind, Sel { focus: 99, other: C::Tiny }), signature: Some(sig), chain_id: Some(5), hash: h256("h") };
    match SignedTransaction::from_unverified(utx.clone()) {
        Ok(t) => {
            s::check(mode == 0, "c11.other_mode_refused");
            s::check(s::same(&t.sender.0, &s::keccak(&k.pub_key)[12..]), "c11.sender");
            s::check(t.public == Some(Public::zero()), "c11.no_public_key");
            s::check(t.transaction.unsigned == utx.unsigned && t.transaction.signature == utx.signature && t.transaction.chain_id == utx.chain_id, "c11.keeps_transaction");
            s::check(t.transaction.hash == utx.get_hash(), "c11.hash");
        }
        Err(_) => s::check(mode != 0, "c11.call_mode_accepted"),
    }
}
/// Gossip batches hold the same transactions and blocks, in the same order, at the receiver.
#[no_mangle]
pub extern "C" fn h_c11_batches() {
    let p = Sel { focus: 99, other: C::Tiny };
    let n = s::choose("@n", 0, 2);
    // recovery refuses some signatures: look at those it accepts
    let mut txs = Vec::new();
    for i in 0..n {
        let kind = if i == 0 { s::choose("kind", 0, 2) } else { 2 - i };
        let sig = if s::choose("interop", 0, 1) == 0 { eth_sig(Sel { focus: 99, other: C::Wide }) } else {
            let mut r = vec![0u8];
            r.extend_from_slice(&CellDepWithPubKey { cell_dep: cell_dep(p, 0), pub_key: Bytes::from(s::vec("pk", 33)) }.rlp_bytes());
            SignatureComponents { r: Bytes::from(r), s: Bytes::from(s::vec("is", 20)), standard_v: s::u8("v") & 1 }
        };
        match SignedTransaction::from_unverified(UnverifiedTransaction { unsigned: unsigned(kind, p), signature: Some(sig), chain_id: Some(n64("chain", C::Tiny)), hash: H256::zero() }) { Ok(t) => txs.push(t), Err(_) => return }
    }
    let mut b = BatchSignedTxs::new(txs.clone());
    let wire = b.encode_msg().unwrap();
    let items: Vec<Vec<u8>> = txs.iter().map(|t| t.rlp_bytes().to_vec()).collect();
    s::check(s::same(&wire, &spec::list(&items)), "c11.tx_batch_layout");
    let back = BatchSignedTxs::decode_msg(wire);
    s::check(matches!(&back, Ok(y) if y.0 == txs), "c11.tx_batch");
    s::check(b.inner() == txs, "c11.tx_batch_inner");
    let blocks: Vec<Block> = (0..n).map(|_| Block { header: header(p), tx_hashes: hashes("txh", C::Wide) }).collect();
    let wire = BatchBlocks::new(blocks.clone()).encode_msg().unwrap();
    s::check(matches!(BatchBlocks::decode_msg(wire), Ok(y) if y.0 == blocks), "c11.block_batch");
}
/// A batch with bytes missing at its end, or with bytes more, is refused and not
/// read as one of fewer items.
#[no_mangle]
pub extern "C" fn h_c11_batch_cut() {
    let p = Sel { focus: 99, other: C::Tiny };
    let n = s::choose("@n", 1, 2);
    let blocks: Vec<Block> = (0..n).map(|_| Block { header: header(p), tx_hashes: vec![] }).collect();
    let wire = BatchBlocks::new(blocks).encode_msg().unwrap();
    let cut = s::choose("cut", 0, wire.len() as u64 - 1) as usize;
    s::check(BatchBlocks::decode_msg(wire.slice(..cut)).is_err(), "c11.batch_cut");
    let mut more = wire.to_vec();
    more.push(s::u8("more"));
    s::check(BatchBlocks::decode_msg(more.into()).is_err(), "c11.batch_more");
    s::cover("c11.batch_cut.done");
}
