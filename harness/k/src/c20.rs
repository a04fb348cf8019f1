//! C20: which proposals a node votes for.
//! bound: every value of every field of a proposal for height 3, of the hash it comes under and of the height asked for; every bitmap, round and signature of the proof; every vote weight of 1 and 2 validators, up to 255 of 3 and 7 of 4; hashes differing in any one byte; up to 2 transactions
//! outside: pairing arithmetic (keys and signatures add up as the real ones do); the pool's and the executor's own verdicts (oracles, C17, C18); the proposer's address, which the consensus library checks
use crate::env::*;
use core_consensus as cc;
use overlord::{Codec, Consensus, Crypto};
use protocol::{codec::ProtocolCodec, traits::*, types::*};
use sched::block_on;
use symrt::*;

fn h(name: &str) -> H256 { H256(arr(name)) }
/// Another value for one byte of a hash.
fn near(g: H256, name: &str) -> H256 { let mut g = g; g.0[choose("byte", 0, 31) as usize] = u8(name); g }
fn verdict(n: &Node, next: u64, hash: &Hash, p: &Proposal) -> bool { block_on(n.engine.check_block(Context::new(), next, hash.0.to_vec().into(), p.clone())).unwrap().is_ok() }
/// The right proposal passes; with any one field of another value it does not.
//@ shards=8 cost=4
#[no_mangle]
pub extern "C" fn h_c20_check() {
    let field = choose("@field", 0, 15);
    chain();
    let txs = vec![tx(1), tx(2)];
    pool().txs = txs.clone();
    let n = node(None);
    let good = proposal(&txs);
    let mut p = good.clone();
    let mut next = 3;
    match field {
        0 => (),
        1 => p.number = u64("number"),
        2 => next = u64("next"),
        3 => p.prev_hash = near(p.prev_hash, "prev_hash"),
        4 => p.prev_state_root = near(p.prev_state_root, "state_root"),
        5 => p.transactions_root = near(p.transactions_root, "root"),
        6 => p.signed_txs_hash = near(p.signed_txs_hash, "txs_hash"),
        7 => p.gas_limit = u64("gas").into(),
        8 => p.base_fee_per_gas = u64("fee").into(),
        9 => p.chain_id = u64("chain"),
        10 => p.proof.number = u64("proof_number"),
        11 => p.proof.round = u64("round"),
        12 => p.proof.block_hash = near(p.proof.block_hash, "proof_hash"),
        13 => p.proof.signature = vec("signature", [0usize, 95, 96, 97][choose("sig_len", 0, 3) as usize]).into(),
        14 => { // another list of transactions, all else as for the first
            let (a, b) = (txs[0].transaction.hash, txs[1].transaction.hash);
            p.tx_hashes = match choose("txs", 0, 5) { 0 => vec![], 1 => vec![a], 2 => vec![b], 3 => vec![b, a], 4 => vec![a, b, a], _ => vec![a, b, h("unknown")] };
        }
        _ => { pool().refuse = true; }
    }
    let same_ = match field { 0 => true, 2 => next == 3, 15 => false, 14 => false, _ => p == good };
    let hash = p.hash();
    let ok = no_panic("c20.no_panic", || verdict(&n, next, &hash, &p));
    check(ok == Some(same_), "c20.check");
    if same_ {
        check(n.wal.load(3, p.transactions_root).ok() == Some(txs), "c20.txs_ahead");
        cover("c20.accepted");
    } else { cover("c20.refused") }
}
/// A proposal's time is between the last block's and now.
#[no_mangle]
pub extern "C" fn h_c20_time() {
    chain();
    let n = node(None);
    let mut p = proposal(&[]);
    p.timestamp = u64("timestamp");
    let now = [0u64, 102, 103, 106, 1000, u32::MAX as u64][choose("now", 0, 5) as usize];
    unsafe { fakefs::NOW = now * 1000 + 999 }
    let last = block(2).unwrap().header.timestamp;
    let ok = no_panic("c20.time_no_panic", || verdict(&n, 3, &p.hash(), &p));
    check(ok == Some((last <= p.timestamp) & (p.timestamp <= now)), "c20.time");
    cover("c20.time.done");
}
/// A proposal passes under its own hash only, also under a hash this node has
/// proposed something else with.
#[no_mangle]
pub extern "C" fn h_c20_hash() {
    chain();
    let n = node(None);
    pool().txs = vec![tx(1)];
    let own = bool("own");
    let mine = if own { Some(block_on(n.engine.get_block(Context::new(), 3)).unwrap().unwrap()) } else { None };
    let mut p = proposal(&[]);
    let hash = if own && bool("as_own") { Hash::from_slice(&mine.as_ref().unwrap().1) } else { h("hash") };
    if bool("changed") { p.prev_hash = h("prev_hash") }
    let good = (hash == p.hash()) & (p.prev_hash == block(2).unwrap().hash());
    check(no_panic("c20.hash_no_panic", || verdict(&n, 3, &hash, &p)) == Some(good), "c20.hash");
    if let Some((m, mh)) = mine { check(verdict(&n, 3, &Hash::from_slice(&mh), &m), "c20.own") }
    cover("c20.hash.done");
}
/// What a node proposes, another in the same state accepts, and it is made of
/// the pool's transactions in their order.
//@ shards=2 cost=2
#[no_mangle]
pub extern "C" fn h_c20_propose() {
    let k = choose("@txs", 0, 2) as usize;
    chain();
    let txs: Vec<_> = (0..k as u64).map(tx).collect();
    pool().txs = txs.clone();
    let fork = HardforkInfoInner { block_number: u64("at"), flags: h("flags") };
    let mine = bool("mine");
    let a = node(if mine { Some(fork.clone()) } else { None });
    disk().fork = if mine { Some(fork.clone()) } else { None };
    let r = block_on(a.engine.get_block(Context::new(), 3)).unwrap();
    check(r.is_ok(), "c20.propose");
    let Ok((p, hash)) = r else { return };
    let want = Proposal { proposer: a.info.self_address.0, timestamp: 1000, extra_data: if mine && fork.block_number > 3 { vec![ExtraData { inner: fork.encode().unwrap() }] } else { vec![] }, ..proposal(&txs) };
    check(p == want, "c20.proposed");
    check(same(&hash, &p.hash().0), "c20.proposed_hash");
    if mine { check((disk().fork.is_some() == (fork.block_number > 3)) & (a.info.hardfork_proposals.read().unwrap().is_some() == (fork.block_number > 3)), "c20.fork_outdated") }
    // others: with the same, another or no hard fork wish
    let theirs = match choose("theirs", 0, 2) { 0 => None, 1 => Some(fork.clone()), _ => Some(HardforkInfoInner { block_number: u64("at2"), flags: h("flags2") }) };
    let agreed = p.extra_data.is_empty() || theirs.as_ref() == Some(&fork);
    let b = node(theirs);
    check(no_panic("c20.other_no_panic", || verdict(&b, 3, &p.hash(), &p)) == Some(agreed), "c20.other_accepts");
    // a node whose proof is not the last block's does not propose
    let mut s = a.status.inner();
    s.proof.number = u64("proof_number");
    let good = s.proof.number == 2;
    a.status.swap(s);
    check(no_panic("c20.stale_no_panic", || block_on(a.engine.get_block(Context::new(), 3)).unwrap().is_ok()) == Some(good), "c20.stale_proof");
    cover("c20.propose.done");
}
/// Hard fork data that are none are refused without a panic.
#[no_mangle]
pub extern "C" fn h_c20_extra() {
    chain();
    let fork = HardforkInfoInner { block_number: 9, flags: H256::repeat_byte(1) };
    let n = node(Some(fork.clone()));
    let mut p = proposal(&[]);
    let b = vec("extra", choose("@len", 0, 3) as usize);
    p.extra_data = vec![ExtraData { inner: b.into() }];
    check(no_panic("c20.extra_no_panic", || verdict(&n, 3, &p.hash(), &p)) == Some(false), "c20.extra");
    cover("c20.extra.done");
}
/// A proof holds exactly when validators of more than two thirds of the weight
/// are marked and the signature is the marked ones' for this block and round.
//@ shards=4 cost=3
#[no_mangle]
pub extern "C" fn h_c20_proof() {
    let n = choose("@validators", 1, 4) as usize;
    unsafe { VALIDATORS = 4; }
    chain();
    // weights of any size, up to 255 and 7 with three and four validators
    unsafe { VALIDATORS = n; for i in 0..n { let w = ["w0", "w1", "w2", "w3"][i]; WEIGHTS[i] = match n { 1 | 2 => u32(w), 3 => u8(w) as u32, _ => u8(w) as u32 & 7 } } }
    let a = adapter();
    let b = block(2).unwrap();
    let hash = Proposal::new_with_state_root(&b.header, block(1).unwrap().header.state_root, vec![]).hash();
    let signed = choose("signed", 0, (1 << n) - 1) as usize;
    let signers: Vec<usize> = (0..n).filter(|i| signed >> i & 1 == 1).collect();
    let round = u64("round");
    let mut p = sign(2, 2, &hash, &signers);
    p.round = round;
    let marks = vec("bitmap", choose("bytes", 0, 2) as usize);
    p.bitmap = marks.clone().into();
    let marked = |i: usize| !marks.is_empty() && (marks[0] << place(i)) & 0x80 != 0;
    let r = no_panic("c20.proof_no_panic", || block_on(a.verify_proof(Context::new(), b.clone(), p.clone())).unwrap().is_ok());
    let (mut all, mut some, mut exact) = (0u64, 0u64, true);
    for i in 0..n {
        let w = unsafe { WEIGHTS[i] } as u64;
        all += w;
        some += if marked(i) { w } else { 0 };
        exact &= marked(i) == signers.contains(&i);
    }
    check(r == Some((3 * some > 2 * all) & exact & (round == 2)), "c20.proof");
    cover("c20.proof.done");
}
/// A proof for another block, height or content is refused; genesis needs none.
#[no_mangle]
pub extern "C" fn h_c20_proof_of() {
    chain();
    let a = adapter();
    let p = disk().proof.clone();
    let mut b = block(2).unwrap();
    let field = choose("@field", 0, 6);
    match field {
        0 => b.header.number = 1 + u64("number") % 3,
        1 => b.header.timestamp = u64("timestamp"),
        2 => b.header.prev_hash = h("prev_hash"),
        3 => b.header.transactions_root = h("root"),
        4 => b.tx_hashes = vec![h("tx")],
        5 => b.header.proposer = H160(arr("proposer")),
        _ => b.header.signed_txs_hash = h("txs_hash"),
    }
    let same_ = b == block(2).unwrap();
    check(no_panic("c20.proof_of_no_panic", || block_on(a.verify_proof(Context::new(), b, p)).unwrap().is_ok()) == Some(same_), "c20.proof_of");
    cover("c20.proof_of.done");
}
/// Votes: a signature is the voter's own over the hash; those of several make
/// the one that stands for all of them and for no others.
#[no_mangle]
pub extern "C" fn h_c20_votes() {
    chain();
    let c = crypto();
    let m: Bytes = arr::<32>("hash").to_vec().into();
    let sig = c.sign(m.clone()).unwrap();
    let voter = choose("@voter", 0, 4) as usize;
    let m2: Bytes = arr::<32>("other").to_vec().into();
    let addr = |i: usize| if i < 4 { node_key(i) } else { Bytes::from(vec![9u8; 33]) };
    check(c.verify_signature(sig.clone(), m2.clone(), addr(voter)).is_ok() == ((voter == 0) & same(&m, &m2)), "c20.vote");
    // signatures of a set, checked against another
    let hv = common_crypto::HashValue::try_from(m.as_ref()).unwrap();
    use common_crypto::{PrivateKey, Signature};
    let set = |mask: u64| (0..4usize).filter(|i| mask >> i & 1 == 1).collect::<Vec<_>>();
    let (s1, s2) = (set(choose("signers", 0, 15)), set(choose("checked", 0, 15)));
    let agg = c.aggregate_signatures(s1.iter().map(|i| key(*i).sign_message(&hv).to_bytes()).collect(), s1.iter().map(|i| addr(*i)).collect());
    check(agg.is_ok() == !s1.is_empty(), "c20.aggregate");
    if let Ok(a) = agg { check(c.verify_aggregated_signature(a, m2.clone(), s2.iter().map(|i| addr(*i)).collect()).is_ok() == ((s1 == s2) & same(&m, &m2)), "c20.aggregate_checked") }
    check(c.aggregate_signatures(vec![sig.clone()], vec![]).is_err() && c.aggregate_signatures(vec![sig], vec![addr(4)]).is_err(), "c20.aggregate_refused");
    cover("c20.votes.done");
}
/// Answers of peers survive the wire; no other bytes make the node panic.
#[no_mangle]
pub extern "C" fn h_c20_answers() {
    use cc::types::ConsensusRpcResponse as R;
    let mut r = if bool("block") { R::PullBlocks(Box::new(Block { header: Header { number: u64("number"), ..Default::default() }, tx_hashes: vec![h("tx")] })) } else { R::PullTxs(Box::new(BatchSignedTxs(vec![tx(1)]))) };
    let w = r.encode_msg().unwrap();
    check(R::decode_msg(w).ok() == Some(r), "c20.answer");
    let b = vec("bytes", choose("@len", 0, 3) as usize);
    no_panic("c20.answer_no_panic", || R::decode_msg(b.into()).is_ok());
    cover("c20.answers.done");
}
