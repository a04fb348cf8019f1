//! C04: blocks, headers and proposals survive encoding, and hashes bind what they carry.
//! bound: one integer or byte-string field at a time takes every value, the others are one encoded byte or full width; hashes, addresses and blooms are arbitrary; byte strings up to 3 bytes, at most 2 extra-data items and 3 transaction hashes
//! bound: two headers, proposals or blocks compared by hash differ in at most one field
//! outside: collisions of keccak-256; lengths beyond the bound
use crate::gen::*;
use protocol::codec::ProtocolCodec;
use protocol::types::*;
use rlp::{Decodable, Encodable, Rlp};
use symrt as s;

fn rt<T: Encodable + Decodable + PartialEq + ProtocolCodec>(x: &T) -> bool {
    let wire = x.rlp_bytes();
    s::observe("wire", &wire);
    s::check(s::same(&wire, &ProtocolCodec::encode(x).unwrap()), "c04.codec_is_rlp");
    matches!(<T as Decodable>::decode(&Rlp::new(&wire)), Ok(y) if y == *x) && matches!(<T as ProtocolCodec>::decode(&wire), Ok(y) if y == *x)
}
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c04_header() {
    let h = header(Sel::pick(HEADER_FIELDS));
    s::check(rt(&h), "c04.header");
    s::check(h.hash().0 == s::keccak(&h.rlp_bytes()), "c04.header_hash");
    s::check(h.size() == h.rlp_bytes().len(), "c04.header_size");
}
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c04_proposal() {
    let p = proposal(Sel::pick(PROPOSAL_FIELDS));
    s::check(rt(&p), "c04.proposal");
    s::check(p.hash().0 == s::keccak(&p.rlp_bytes()), "c04.proposal_hash");
    let wire = <Proposal as overlord::Codec>::encode(&p).unwrap();
    s::check(s::same(&wire, &p.rlp_bytes()), "c04.proposal_overlord_wire");
    s::check(matches!(<Proposal as overlord::Codec>::decode(wire), Ok(q) if q == p), "c04.proposal_overlord");
}
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c04_block() {
    let p = Sel { focus: s::choose("@focus", 4, 15), other: C::Wide };
    let b = Block { header: header(p), tx_hashes: hashes("txh", p.at(12)) };
    s::check(rt(&b), "c04.block");
    s::check(b.hash() == b.header.hash(), "c04.block_hash");
}
#[no_mangle]
pub extern "C" fn h_c04_proof() {
    let p = Sel::pick(4);
    let x = proof(p, 0);
    s::check(rt(&x), "c04.proof");
    let e = ExtraData { inner: bytes("e", C::Full, 57) };
    s::check(rt(&e), "c04.extra_data");
}
/// Versions other than V0 are rejected.
#[no_mangle]
pub extern "C" fn h_c04_version() {
    let b = s::u8("v");
    let r = BlockVersion::try_from(b);
    s::check(r.is_ok() == (b == 0), "c04.version");
    let wire = rlp::encode_list::<u8, u8>(&[b]);
    s::check(<BlockVersion as Decodable>::decode(&Rlp::new(&wire)).is_ok() == (b == 0), "c04.version_wire");
    s::check(rt(&BlockVersion::V0), "c04.version_codec");
}
fn w64(b: u64) -> U64 { U64::from(b) }
/// Headers that differ in one field hash differently, equal ones equally.
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c04_header_binds() {
    let f = s::choose("@field", 0, 19);
    let p = Sel { focus: 99, other: C::Wide };
    let a = header(p);
    let mut b = a.clone();
    match f {
        0 => b.prev_hash = h256("x"), 1 => b.proposer = h160("x"), 2 => b.state_root = h256("x"), 3 => b.transactions_root = h256("x"), 4 => b.signed_txs_hash = h256("x"), 5 => b.receipts_root = h256("x"),
        6 => b.log_bloom = bloom("x"), 7 => b.timestamp = s::u64("x"), 8 => b.number = s::u64("x"), 9 => b.gas_used = w64(s::u64("x")), 10 => b.gas_limit = w64(s::u64("x")), 11 => b.extra_data = extra(C::Full), 12 => b.base_fee_per_gas = w64(s::u64("x")),
        13 => b.call_system_script_count = s::u32("x"), 14 => b.chain_id = s::u64("x"), 15 => b.proof.number = s::u64("x"), 16 => b.proof.round = s::u64("x"), 17 => b.proof.block_hash = h256("x"), 18 => b.proof.signature = bytes("x", C::Full, 4), _ => b.proof.bitmap = bytes("x", C::Full, 4),
    }
    s::check((a.hash() == b.hash()) == (a == b), "c04.header_binds");
}
/// Likewise for proposals; the fields their encoding leaves out (base fee and chain
/// id are fixed by the node) do not matter.
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c04_proposal_binds() {
    let f = s::choose("@field", 0, 15);
    let p = Sel { focus: 99, other: C::Wide };
    let a = proposal(p);
    let mut b = a.clone();
    match f {
        0 => b.prev_hash = h256("x"), 1 => b.proposer = h160("x"), 2 => b.prev_state_root = h256("x"), 3 => b.transactions_root = h256("x"), 4 => b.signed_txs_hash = h256("x"), 5 => b.timestamp = s::u64("x"), 6 => b.number = s::u64("x"), 7 => b.gas_limit = w64(s::u64("x")),
        8 => b.extra_data = extra(C::Full), 9 => b.call_system_script_count = s::u32("x"), 10 => b.tx_hashes = hashes("x", C::Full), 11 => b.proof.number = s::u64("x"), 12 => b.proof.round = s::u64("x"), 13 => b.proof.block_hash = h256("x"), 14 => b.proof.signature = bytes("x", C::Full, 4), _ => b.proof.bitmap = bytes("x", C::Full, 4),
    }
    s::check((a.hash() == b.hash()) == (a == b), "c04.proposal_binds");
}
/// proposal -> block -> proposal keeps every field, and the block carries the execution result.
//@ shards=2
#[no_mangle]
pub extern "C" fn h_c04_convert() {
    let pick = Sel { focus: s::choose("@focus", 0, PROPOSAL_FIELDS - 1), other: C::Wide };
    let mut p = proposal(pick);
    p.base_fee_per_gas = w64(s::u64("base_fee"));
    p.chain_id = s::u64("chain");
    let resp = ExecResp { state_root: h256("state"), receipt_root: h256("receipts"), gas_used: s::u64("gas_used"), tx_resp: vec![] };
    let b = Block::new(p.clone(), resp.clone());
    let h = &b.header;
    s::check(h.state_root == resp.state_root && h.receipts_root == resp.receipt_root && h.gas_used == w64(resp.gas_used), "c04.block_result");
    s::check(b.tx_hashes == p.tx_hashes, "c04.block_txs");
    let q = Proposal::new_with_state_root(h, p.prev_state_root, b.tx_hashes.clone());
    s::check(q == p, "c04.back_to_proposal");
    let q = Proposal::new_without_state_root(h);
    s::check(q == Proposal { prev_state_root: H256::zero(), tx_hashes: vec![], ..p.clone() }, "c04.proposal_without_state");
    let want = ExecutorContext { block_number: U256::from(p.number), block_coinbase: p.proposer, block_timestamp: U256::from(p.timestamp), chain_id: U256::from(p.chain_id), origin: p.proposer, gas_price: U256::one(), block_gas_limit: p.gas_limit, block_base_fee_per_gas: p.base_fee_per_gas, extra_data: p.extra_data.clone() };
    s::check(ExecutorContext::from(h) == want, "c04.context_of_header");
    s::check(ExecutorContext::from(p) == want, "c04.context_of_proposal");
}
