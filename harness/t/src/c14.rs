//! C14: axon-tools accepts a block's proof exactly when more than two thirds of the validators signed exactly that block.
//! bound: 0..=4 validators with arbitrary 2-byte keys in any order; every bitmap of 0, 1 or 2 bytes; header fields one encoded byte or full width; every signature
//! outside: BLS12-381 arithmetic (a signature verifies when it is the one value determined by the signing keys, the vote and the domain)
use crate::c15::{tproposal, tvalidator};
use crate::gen::*;
use axon_tools::{types as t, verify_proof, Error};
use blst::min_pk::{expected, AggregatePublicKey, PublicKey};
use ethereum_types::H256;
use overlord::types as o;
use protocol::types::{Block, Bytes, Hex, Proposal, ValidatorExtend};
use rlp::{Decodable, Encodable, Rlp};
use symrt as s;

const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RONUL";
fn tblock(b: &Block) -> t::Block { t::Block::decode(&Rlp::new(&b.rlp_bytes())).unwrap() }
/// A block the node makes of a proposal: what execution adds (roots, gas, filter) is arbitrary.
fn block_of(p: &Proposal) -> Block {
    let h = header(Sel { focus: 99, other: C::Tiny });
    Block {
        header: protocol::types::Header {
            version: p.version, prev_hash: p.prev_hash, proposer: p.proposer, transactions_root: p.transactions_root, signed_txs_hash: p.signed_txs_hash, timestamp: p.timestamp, number: p.number, gas_limit: p.gas_limit,
            extra_data: p.extra_data.clone(), base_fee_per_gas: p.base_fee_per_gas, proof: p.proof.clone(), call_system_script_count: p.call_system_script_count, chain_id: p.chain_id, ..h
        },
        tx_hashes: p.tx_hashes.clone(),
    }
}
fn validators(n: usize) -> Vec<ValidatorExtend> {
    let v: Vec<ValidatorExtend> = (0..n).map(|i| ValidatorExtend { bls_pub_key: Hex::encode(vec![i as u8 + 1; 48]), pub_key: Hex::encode(s::arr::<2>("key")), address: h160("addr"), propose_weight: 1, vote_weight: 1 }).collect();
    for i in 0..n { for j in 0..i { s::assume(!s::same(v[i].pub_key.as_ref(), v[j].pub_key.as_ref())); } }
    v
}
/// The BLS keys in the order of the validators' public keys, as the consensus engine numbers them.
fn numbered(v: &[ValidatorExtend]) -> Vec<Vec<u8>> {
    let mut k: Vec<(Vec<u8>, Vec<u8>)> = v.iter().map(|x| (x.pub_key.as_ref().to_vec(), x.bls_pub_key.as_ref().to_vec())).collect();
    k.sort();
    k.into_iter().map(|x| x.1).collect()
}
fn vote_hash(height: u64, round: u64, hash: &H256) -> [u8; 32] { s::keccak(&o::Vote { height, round, vote_type: o::VoteType::Precommit, block_hash: Bytes::from(hash.0.to_vec()) }.rlp_bytes()) }
fn signature(keys: &[&Vec<u8>], msg: &[u8]) -> Vec<u8> {
    let pks: Vec<PublicKey> = keys.iter().map(|k| PublicKey::from_bytes(k).unwrap()).collect();
    let agg = AggregatePublicKey::aggregate(&pks.iter().collect::<Vec<_>>(), true).unwrap();
    expected(&PublicKey::from_aggregate(&agg), msg, DST).to_vec()
}
/// All bitmaps and validator sets: accepted exactly when more than two thirds of the validators signed this vote.
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c14_quorum() {
    let n = s::choose("@n", 0, 4) as usize;
    let p = proposal(Sel { focus: 99, other: C::Tiny });
    let b = block_of(&p);
    let v = validators(n);
    let len = s::choose("bitmap.len", 0, 2) as usize;
    let bits = s::choose("bits", 0, if len == 0 { 0 } else { (1 << (n + 1)) - 1 }) as u8; // first n+1 places of the first byte
    let mut bitmap = s::vec("bitmap", len);
    if len > 0 { bitmap[0] = (bits << (7 - n)) | if n < 7 { bitmap[0] & ((1u16 << (7 - n)) - 1) as u8 } else { 0 }; }
    let keys = numbered(&v);
    let chosen: Vec<&Vec<u8>> = keys.iter().enumerate().filter(|(i, _)| len > 0 && bits >> (n - i) & 1 == 1).map(|x| x.1).collect();
    let (height, round, hash) = (s::u64("height") | 1 << 63, s::u64("round") | 1 << 63, p.hash());
    let good = if chosen.is_empty() { vec![0; 96] } else { signature(&chosen, &vote_hash(height, round, &hash)) };
    let sig = match s::choose("sig", 0, 2) { 0 => good.clone(), 1 => s::vec("sig", 96), _ => s::vec("sig", 95) };
    let proof = t::Proof { number: height, round, proposal_hash: hash, signature: Bytes::from(sig.clone()), bitmap: Bytes::from(bitmap) };
    let mut list: Vec<t::ValidatorExtend> = v.iter().map(tvalidator).collect();
    let got = s::no_panic("c14.no_panic", || verify_proof(tblock(&b), p.prev_state_root, &mut list, proof));
    let enough = chosen.len() * 3 > n * 2;
    match got {
        Some(Ok(())) => { s::check(enough, "c14.accepted_with_quorum"); s::check(s::same(&sig, &good), "c14.accepted_with_signature"); }
        Some(Err(Error::NotEnoughSignatures)) => s::check(!enough, "c14.refused_without_quorum"),
        Some(Err(_)) => s::check(enough && !s::same(&sig, &good), "c14.refused_for_signature"),
        None => {}
    }
}
/// The vote must be for this block: any differing field of the proposal, state root, height or round is refused.
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c14_binds() {
    let f = s::choose("@field", 0, 16);
    let p = proposal(Sel { focus: 99, other: C::Wide });
    let v = validators(3);
    let keys = numbered(&v);
    let (height, round, hash) = (s::u64("height") | 1 << 63, s::u64("round") | 1 << 63, p.hash());
    let sig = signature(&keys.iter().collect::<Vec<_>>(), &vote_hash(height, round, &hash));
    let mut proof = t::Proof { number: height, round, proposal_hash: hash, signature: Bytes::from(sig), bitmap: Bytes::from(vec![0xe0u8]) };
    let mut b = tblock(&block_of(&p));
    let was = b.clone();
    let mut root = p.prev_state_root;
    let h = &mut b.header;
    match f {
        0 => h.prev_hash = h256("x"),
        1 => h.proposer = h160("x"),
        2 => root = h256("x"),
        3 => h.transactions_root = h256("x"),
        4 => h.signed_txs_hash = h256("x"),
        5 => h.timestamp = s::u64("x"),
        6 => h.number = s::u64("x"),
        7 => h.gas_limit = s::u64("x").into(),
        8 => { let n = s::choose("n", 0, 2); h.extra_data = (0..n).map(|_| t::ExtraData { inner: Bytes::from(s::vec("x", 3)) }).collect(); }
        9 => h.proof.number = s::u64("x"),
        10 => h.proof.round = s::u64("x"),
        11 => h.proof.proposal_hash = h256("x"),
        12 => h.proof.signature = Bytes::from(s::vec("x", 3)),
        13 => h.proof.bitmap = Bytes::from(s::vec("x", 3)),
        14 => h.call_system_script_count = s::u32("x"),
        15 => { let n = s::choose("n", 0, 2); b.tx_hashes = (0..n).map(|_| h256("x")).collect(); }
        _ => match s::choose("vote", 0, 2) { 0 => proof.number = s::u64("x"), 1 => proof.round = s::u64("x"), _ => proof.proposal_hash = h256("x") },
    }
    let same = b == was && root == p.prev_state_root && proof.number == height && proof.round == round && proof.proposal_hash == hash;
    let mut list: Vec<t::ValidatorExtend> = v.iter().map(tvalidator).collect();
    s::check(verify_proof(b, root, &mut list, proof).is_ok() == same, "c14.binds");
}
/// The answer does not depend on the order in which the validators are listed; a malformed key is refused.
#[no_mangle]
pub extern "C" fn h_c14_order() {
    let p = proposal(Sel { focus: 99, other: C::Tiny });
    let b = block_of(&p);
    let v = validators(3);
    let keys = numbered(&v);
    let hash = p.hash();
    let sig = signature(&keys.iter().collect::<Vec<_>>(), &vote_hash(5, 1, &hash));
    let proof = t::Proof { number: 5, round: 1, proposal_hash: hash, signature: Bytes::from(sig), bitmap: Bytes::from(vec![0xe0u8]) };
    let order = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [1, 0, 2], [2, 1, 0]][s::choose("@order", 0, 5) as usize];
    let mut list: Vec<t::ValidatorExtend> = order.iter().map(|i| tvalidator(&v[*i])).collect();
    s::check(verify_proof(tblock(&b), p.prev_state_root, &mut list, proof.clone()).is_ok(), "c14.any_order");
    list[0].bls_pub_key = t::Hex::encode(s::vec("short", 47));
    s::check(matches!(s::no_panic("c14.no_panic", || verify_proof(tblock(&b), p.prev_state_root, &mut list, proof)), Some(Err(_))), "c14.bad_key");
}
