//! C15: axon-tools' copies of the node's types have the node's encoding, field for field.
//! bound: one field at a time takes every value, the others are full width or one encoded byte; up to 2 extra data items, 3 transaction hashes, 2 validators, 2 propose counters
//! outside: JSON forms of the mirrored types
use crate::gen::*;
use axon_tools::types as t;
use overlord::types as o;
use protocol::types::*;
use rlp::{Decodable, Encodable, Rlp};
use symrt as s;

pub fn tproof(p: &Proof) -> t::Proof { t::Proof { number: p.number, round: p.round, proposal_hash: p.block_hash, signature: p.signature.clone(), bitmap: p.bitmap.clone() } }
pub fn textra(e: &[ExtraData]) -> Vec<t::ExtraData> { e.iter().map(|x| t::ExtraData { inner: x.inner.clone() }).collect() }
pub fn theader(h: &Header) -> t::Header {
    t::Header {
        version: t::BlockVersion::V0, prev_hash: h.prev_hash, proposer: h.proposer, state_root: h.state_root, transactions_root: h.transactions_root, signed_txs_hash: h.signed_txs_hash, receipts_root: h.receipts_root,
        log_bloom: h.log_bloom, timestamp: h.timestamp, number: h.number, gas_used: h.gas_used, gas_limit: h.gas_limit, extra_data: textra(&h.extra_data), base_fee_per_gas: h.base_fee_per_gas, proof: tproof(&h.proof),
        call_system_script_count: h.call_system_script_count, chain_id: h.chain_id,
    }
}
pub fn tproposal(h: &Proposal) -> t::Proposal {
    t::Proposal {
        version: t::BlockVersion::V0, prev_hash: h.prev_hash, proposer: h.proposer, prev_state_root: h.prev_state_root, transactions_root: h.transactions_root, signed_txs_hash: h.signed_txs_hash, timestamp: h.timestamp,
        number: h.number, gas_limit: h.gas_limit, extra_data: textra(&h.extra_data), base_fee_per_gas: h.base_fee_per_gas, proof: tproof(&h.proof), chain_id: h.chain_id, call_system_script_count: h.call_system_script_count, tx_hashes: h.tx_hashes.clone(),
    }
}
fn thex(h: &Hex) -> t::Hex { t::Hex::encode(h.as_ref()) }
pub fn tvalidator(v: &ValidatorExtend) -> t::ValidatorExtend { t::ValidatorExtend { bls_pub_key: thex(&v.bls_pub_key), pub_key: thex(&v.pub_key), address: v.address, propose_weight: v.propose_weight, vote_weight: v.vote_weight } }
/// Same bytes, and the node's bytes read back as the copy.
fn mirror<A: Encodable, B: Encodable + Decodable + PartialEq>(node: &A, copy: &B, id: &str) {
    let w = node.rlp_bytes();
    s::observe("wire", &w);
    s::check(s::same(&w, &copy.rlp_bytes()), id);
    s::check(matches!(<B as Decodable>::decode(&Rlp::new(&w)), Ok(x) if x == *copy), &[id, "_read"].concat());
}
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c15_header() {
    let h = header(Sel::pick(HEADER_FIELDS));
    mirror(&h, &theader(&h), "c15.header");
}
//@ shards=2
#[no_mangle]
pub extern "C" fn h_c15_block() {
    let p = Sel::pick(HEADER_FIELDS);
    let b = Block { header: header(Sel { focus: 99, other: p.other }), tx_hashes: hashes("txh", C::Full) };
    mirror(&b, &t::Block { header: theader(&b.header), tx_hashes: b.tx_hashes.clone() }, "c15.block");
}
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c15_proposal() {
    let b = proposal(Sel::pick(PROPOSAL_FIELDS));
    let w = tproposal(&b).rlp_bytes();
    s::check(s::same(&b.rlp_bytes(), &w), "c15.proposal");
    s::check(axon_tools::keccak_256(&w) == b.hash().0, "c15.proposal_hash");
}
#[no_mangle]
pub extern "C" fn h_c15_small() {
    let p = Sel::pick(6);
    let x = proof(p, 0);
    mirror(&x, &tproof(&x), "c15.proof");
    let v = validator(p, 0);
    mirror(&v, &tvalidator(&v), "c15.validator_extend");
    let v = validator(p, 0);
    let c = ConsensusValidator::from(&v);
    mirror(&c, &t::Validator { pub_key: c.pub_key.clone(), propose_weight: c.propose_weight, vote_weight: c.vote_weight }, "c15.validator");
    let m = version(p, 4);
    let k = t::MetadataVersion::new(m.start, m.end);
    mirror(&m, &k, "c15.version");
    let n = s::u64("n");
    s::check(k.contains(n) == m.contains(n), "c15.contains");
    let c = ProposeCount { address: h160("a"), count: n64("count", p.at(5)) };
    mirror(&c, &t::ProposeCount { address: c.address, count: c.count }, "c15.propose_count");
    for e in extra(p.at(3)) { mirror(&e, &t::ExtraData { inner: e.inner.clone() }, "c15.extra"); }
    let h = hex("hex", p.at(2), 40);
    mirror(&h, &thex(&h), "c15.hex");
    mirror(&BlockVersion::V0, &t::BlockVersion::V0, "c15.block_version");
}
fn tconfig(c: &ConsensusConfig) -> t::ConsensusConfig { t::ConsensusConfig { gas_limit: c.gas_limit, interval: c.interval, propose_ratio: c.propose_ratio, prevote_ratio: c.prevote_ratio, precommit_ratio: c.precommit_ratio, brake_ratio: c.brake_ratio, tx_num_limit: c.tx_num_limit, max_tx_size: c.max_tx_size, max_contract_limit: c.max_contract_limit } }
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c15_metadata() {
    let m = metadata(Sel::pick(METADATA_FIELDS));
    let copy = t::Metadata {
        version: t::MetadataVersion::new(m.version.start, m.version.end), epoch: m.epoch, verifier_list: m.verifier_list.iter().map(tvalidator).collect(),
        propose_counter: m.propose_counter.iter().map(|c| t::ProposeCount { address: c.address, count: c.count }).collect(), consensus_config: tconfig(&m.consensus_config),
    };
    mirror(&m.consensus_config, &copy.consensus_config, "c15.config");
    mirror(&m, &copy, "c15.metadata");
}
/// What the consensus engine signs for a precommit is what axon-tools verifies.
#[no_mangle]
pub extern "C" fn h_c15_vote() {
    let p = Sel::pick(2);
    let (h, r, hash) = (n64("h", p.at(0)), n64("r", p.at(1)), h256("hash"));
    let bytes = Bytes::from(hash.0.to_vec());
    for (ty, code) in [(o::VoteType::Prevote, 1u8), (o::VoteType::Precommit, 2)] {
        let node = o::Vote { height: h, round: r, vote_type: ty, block_hash: bytes.clone() };
        s::check(s::same(&node.rlp_bytes(), &t::Vote { height: h, round: r, vote_type: code, proposal_hash: bytes.clone() }.rlp_bytes()), "c15.vote");
    }
}
#[no_mangle]
pub extern "C" fn h_c15_keccak() {
    let v = s::vec("v", s::choose("@n", 0, 40) as usize);
    s::check(axon_tools::keccak_256(&v) == Hasher::digest(&v).0, "c15.keccak");
}
