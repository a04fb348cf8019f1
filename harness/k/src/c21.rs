//! C21: what committing a decided block does.
//! bound: every height asked for below the greatest; up to 2 transactions; every value of the proposal's time, proposer, extra data and system script count and of the proof's round, signature and bitmap; a failing write at every place, up to twice; a commit repeated, after a restart, without the pool's transactions, or while syncing
//! outside: the executor's own result and the metadata contract (an oracle); the proof itself, which the consensus library has checked before it commits; a failing look-up of metadata
use crate::env::*;
use core_consensus as cc;
use core_executor as ex;
use overlord::types::{AggregatedSignature, Commit, Node as Auth, Proof as OProof, Status};
use overlord::{Consensus, Crypto};
use protocol::{traits::*, types::*};
use sched::block_on;
use symrt::*;

/// Another value for one byte of a hash, or the same.
fn near(mut g: H256, name: &str) -> H256 { g.0[[0, 15, 31][choose("byte", 0, 2) as usize]] = u8(name); g }
fn commit_of(p: &Proposal, pf: &Proof) -> Commit<Proposal> {
    Commit { height: p.number, content: p.clone(), proof: OProof { height: pf.number, round: pf.round, block_hash: pf.block_hash.0.to_vec().into(), signature: AggregatedSignature { signature: pf.signature.clone(), address_bitmap: pf.bitmap.clone() } } }
}
fn commit(n: &Node, height: u64, p: &Proposal, pf: &Proof) -> Result<Status, ()> { block_on(n.engine.commit(Context::new(), height, commit_of(p, pf))).unwrap().map_err(|_| ()) }
fn auth(l: &[usize]) -> Vec<Auth> { l.iter().map(|i| Auth { address: node_key(*i), propose_weight: 1, vote_weight: unsafe { WEIGHTS[*i] } }).collect() }
/// The validators in the order of their keys.
const SORTED: [usize; 4] = [1, 3, 0, 2];
fn status_is(s: &Status, height: u64, l: &[usize]) -> bool {
    let t = s.timer_config.as_ref().map(|t| (t.propose_ratio, t.prevote_ratio, t.precommit_ratio, t.brake_ratio));
    (s.height == height) & (s.interval == Some(3000)) & (s.authority_list == auth(l)) & (t == Some((15, 10, 10, 10)))
}
fn untouched(n: &Node, before: &cc::status::CurrentStatus) -> bool { status_eq(&n.status.inner(), before) && pool().flushed.is_empty() && pool().args.is_none() && peer().sent.is_empty() }
fn status_eq(a: &cc::status::CurrentStatus, b: &cc::status::CurrentStatus) -> bool { (a.prev_hash == b.prev_hash) & (a.last_number == b.last_number) & (a.last_state_root == b.last_state_root) & (a.tx_num_limit == b.tx_num_limit) & (a.max_tx_size == b.max_tx_size) & (a.proof == b.proof) }
/// All that is kept after a commit of height 3 is that block's, and nothing else moved.
fn kept(n: &Node, p: &Proposal, txs: &[SignedTransaction], pf: &Proof) {
    let resp = executed(p, txs);
    let b = Block::new(p.clone(), resp.clone());
    let (receipts, _) = b.generate_receipts_and_logs(txs, &resp);
    let d = disk();
    check((d.latest == 3) & (block(3).as_ref() == Some(&b)) & d.blocks[..3].iter().enumerate().all(|(i, b)| b.header.number == i as u64), "c21.block");
    check(d.txs.iter().map(|t| (t.0, &t.1)).eq(txs.iter().map(|t| (3, t))), "c21.txs");
    check(d.receipts.iter().map(|t| (t.0, &t.1)).eq(receipts.iter().map(|t| (3, t))), "c21.receipts");
    check(d.proof == *pf, "c21.proof");
    let want = cc::status::CurrentStatus { prev_hash: b.hash(), last_number: 3, last_state_root: resp.state_root, tx_num_limit: 10, max_tx_size: 4096.into(), proof: pf.clone() };
    check(status_eq(&n.status.inner(), &want), "c21.status");
    check(pool().flushed == vec![(3, p.tx_hashes.clone())], "c21.flushed");
    check(pool().args == Some((resp.state_root, LIMIT, 4096)), "c21.pool_state");
}
/// A decided block of any content is kept whole, once; any other height is refused.
//@ shards=3 cost=3
#[no_mangle]
pub extern "C" fn h_c21_commit() {
    let k = choose("@txs", 0, 2) as usize;
    chain();
    let txs: Vec<_> = (0..k as u64).map(tx).collect();
    pool().txs = txs.clone();
    let n = node(None);
    let before = n.status.inner();
    let mut p = proposal(&txs);
    p.timestamp = u64("timestamp");
    p.proposer = H160(arr("proposer"));
    p.call_system_script_count = u32("scripts");
    if bool("extra") { p.extra_data = vec![ExtraData { inner: vec("inner", 3).into() }] }
    let pf = Proof { number: 3, round: u64("round"), block_hash: p.hash(), signature: vec("signature", 96).into(), bitmap: vec("bitmap", 1).into() };
    let at = u64("height");
    assume(at != u64::MAX);
    let r = no_panic("c21.no_panic", || commit(&n, at, &p, &pf)).unwrap_or(Err(()));
    if at == 3 {
        check(r.as_ref().map(|s| status_is(s, 4, &SORTED)) == Ok(true), "c21.answer");
        check(unsafe { EXECUTED } == 1 && peer().sent == vec![3], "c21.once");
        kept(&n, &p, &txs, &pf);
        cover("c21.committed");
        // again: the same answer, and nothing more happens
        let writes = disk().writes;
        let r = commit(&n, 3, &p, &pf);
        check(r.map(|s| status_is(&s, 4, &SORTED)) == Ok(true) && disk().writes == writes && unsafe { EXECUTED } == 1 && peer().sent == vec![3], "c21.again");
        kept(&n, &p, &txs, &pf);
    } else {
        check(disk().writes == 0 && unsafe { EXECUTED } == 0 && untouched(&n, &before), "c21.other_height_kept_out");
        check(if at == 2 { r.map(|s| status_is(&s, 3, &SORTED)) == Ok(true) } else { r.is_err() }, "c21.other_height");
        cover("c21.other_height_asked");
    }
}
/// The chain goes on: what is proposed upon the committed block is accepted by
/// this node, restarted, and by one that commits the same.
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c21_next() {
    let k = choose("@txs", 0, 1) as usize;
    chain();
    let txs: Vec<_> = (0..k as u64).map(tx).collect();
    pool().txs = txs.clone();
    let (a, b) = (node(None), node(None));
    let p = proposal(&txs);
    check(block_on(b.engine.check_block(Context::new(), 3, p.hash().0.to_vec().into(), p.clone())).unwrap().is_ok(), "c21.first_checked");
    let pf = sign(3, u64("round") & 7, &p.hash(), &[0, 2, 3]);
    check(commit(&a, 3, &p, &pf).is_ok(), "c21.first");
    pool().txs = vec![tx(9)];
    let fresh = node(None);
    let r = block_on(a.engine.get_block(Context::new(), 4)).unwrap();
    check(r.is_ok(), "c21.proposes");
    let Ok((q, qh)) = r else { return };
    check(block_on(fresh.engine.check_block(Context::new(), 4, qh.clone(), q.clone())).unwrap().is_ok(), "c21.restarted_accepts");
    let r = block_on(fresh.engine.get_block(Context::new(), 4)).unwrap();
    check(r.is_ok(), "c21.restarted_proposes");
    let Ok((q2, _)) = r else { return };
    check(q2 == q, "c21.same_proposal");
    disk().blocks.truncate(3);
    disk().latest = 2;
    pool().txs = if bool("in_pool") { txs } else { vec![] };
    check(commit(&b, 3, &p, &pf).is_ok(), "c21.other_commits");
    pool().txs = vec![tx(9)];
    check(block_on(b.engine.check_block(Context::new(), 4, qh, q.clone())).unwrap().is_ok(), "c21.other_accepts");
    check(q.prev_hash == block(3).unwrap().hash() && q.proof == pf, "c21.upon");
    cover("c21.next.done");
}
/// A write fails: nothing the node goes on from has moved, and the commit
/// done again, by it or after a restart, ends as if nothing had failed.
//@ shards=6 cost=3
#[no_mangle]
pub extern "C" fn h_c21_fault() {
    let at = choose("@at", 0, 5) as usize;
    chain();
    let txs = vec![tx(1), tx(2)];
    let n = node(None);
    let before = n.status.inner();
    let p = proposal(&txs);
    pool().txs = txs.clone();
    check(block_on(n.engine.check_block(Context::new(), 3, p.hash().0.to_vec().into(), p.clone())).unwrap().is_ok(), "c21.checked");
    if bool("pool_lost") { pool().txs.truncate(choose("left", 0, 1) as usize) }
    let pf = sign(3, u64("round") & 7, &p.hash(), &[0, 1, 3]);
    disk().fail_at = Some(at);
    let r = commit(&n, 3, &p, &pf);
    if at < 4 {
        check(r.is_err() && untouched(&n, &before), "c21.fault");
        check(disk().latest == 2 && block(3).is_none(), "c21.fault_no_block");
        let more = choose("again", 0, 4) as usize;
        disk().fail_at = Some(disk().writes + more);
        let m = if bool("restart") { node(None) } else { n };
        if more < 4 { check(commit(&m, 3, &p, &pf).is_err(), "c21.fault_again") }
        disk().fail_at = None;
        check(commit(&m, 3, &p, &pf).map(|s| status_is(&s, 4, &SORTED)) == Ok(true), "c21.retry");
        kept(&m, &p, &txs, &pf);
        cover("c21.faulted");
    } else {
        check(r.is_ok(), "c21.four_writes");
        kept(&n, &p, &txs, &pf);
    }
}
/// Transactions neither in the pool nor kept ahead, or a sync under way: refused, nothing moves.
//@ shards=3 cost=2
#[no_mangle]
pub extern "C" fn h_c21_refused() {
    let case = choose("@case", 0, 2);
    chain();
    let txs = vec![tx(1), tx(2)];
    let n = node(None);
    let before = n.status.inner();
    let p = proposal(&txs);
    let pf = sign(3, 1, &p.hash(), &[0, 1, 3]);
    pool().txs = txs.clone();
    match case {
        0 => { // ahead only those of another height or list
            n.wal.save(choose("kept_height", 2, 4), near(p.transactions_root, "root"), txs.clone()).unwrap();
            pool().txs.truncate(choose("left", 0, 1) as usize);
            let have = n.wal.load(3, p.transactions_root).is_ok();
            let r = commit(&n, 3, &p, &pf);
            check(r.is_ok() == have, "c21.missing");
            if !have { check(disk().writes == 0 && untouched(&n, &before), "c21.missing_kept_out") } else { kept(&n, &p, &txs, &pf) }
        }
        1 => {
            let guard = n.lock.try_lock();
            check(commit(&n, 3, &p, &pf).is_err() && disk().writes == 0 && untouched(&n, &before), "c21.syncing");
            drop(guard);
            check(commit(&n, 3, &p, &pf).is_ok(), "c21.synced");
            kept(&n, &p, &txs, &pf);
        }
        _ => { // and the lock is free again after any commit
            let _ = commit(&n, choose("height", 1, 4), &p, &pf);
            check(n.lock.try_lock().is_ok(), "c21.lock_free");
        }
    }
    cover("c21.refused.done");
}
/// Transactions kept ahead go once they are two blocks old, not before.
#[no_mangle]
pub extern "C" fn h_c21_ahead() {
    chain();
    let n = node(None);
    let p = proposal(&[]);
    for i in 0..5 { n.wal.save(i, H256::repeat_byte(1), vec![tx(i)]).unwrap() }
    check(commit(&n, 3, &p, &sign(3, 1, &p.hash(), &[0, 1, 3])).is_ok(), "c21.ahead_commit");
    for i in 0..5 { check(n.wal.load(i, H256::repeat_byte(1)).is_ok() == (i > 1), "c21.ahead") }
    cover("c21.ahead.done");
}
/// At an epoch's end the next block's validators, and only they, are
/// answered, tagged in the network and have their votes counted.
//@ shards=2
#[no_mangle]
pub extern "C" fn h_c21_epoch() {
    let end = choose("@end", 2, 4);
    chain();
    let n = node(None);
    let p = proposal(&[]);
    unsafe { EPOCH_END = end }
    let r = commit(&n, 3, &p, &sign(3, 1, &p.hash(), &[0, 1, 3]));
    let list: &[usize] = if end == 4 { &SORTED } else { &[1, 3, 2] };
    check(r.map(|s| status_is(&s, 4, list)) == Ok(true), "c21.epoch_answer");
    let m: overlord::types::Hash = arr::<32>("hash").to_vec().into();
    let hv = common_crypto::HashValue::try_from(m.as_ref()).unwrap();
    for i in 0..4 {
        use common_crypto::{PrivateKey, Signature};
        let sig = key(i).sign_message(&hv).to_bytes();
        check(n.crypto.verify_signature(sig, m.clone(), node_key(i)).is_ok() == (i != 0 || end != 3), "c21.epoch_votes");
    }
    check(peer().tagged == if end == 3 { vec![[3, 2, 1].iter().map(|i| peer_id(*i)).collect()] } else { Vec::<Vec<protocol::types::Bytes>>::new() }, "c21.epoch_tagged");
    cover("c21.epoch.done");
}
/// The validators that may sign at a height are those of its predecessor's epoch.
#[no_mangle]
pub extern "C" fn h_c21_authority() {
    chain();
    let n = node(None);
    unsafe { EPOCH_END = u64("end") & 0xffff_ffff }
    let at = u64("next") & 0xffff_ffff;
    let r = block_on(n.engine.get_authority_list(Context::new(), at)).unwrap();
    let list: &[usize] = if at == 0 { &[] } else if at - 1 <= unsafe { EPOCH_END } { &SORTED } else { &[1, 3, 2] };
    check(r.ok() == Some(auth(list)), "c21.authority");
    cover("c21.authority.done");
}
/// A node told to stop at a height commits no block after it.
#[no_mangle]
pub extern "C" fn h_c21_stop() {
    chain();
    let at = u64("stop");
    let (s, _r) = protocol::tokio::sync::oneshot::channel();
    let n = node_stop(None, cc::stop_signal::StopSignal::with_stop_at(s, at));
    let before = n.status.inner();
    let p = proposal(&[]);
    let pf = sign(3, 1, &p.hash(), &[0, 1, 3]);
    let r = commit(&n, 3, &p, &pf);
    check(r.is_ok() == (at != 2), "c21.stop");
    if at == 2 {
        check(disk().writes == 0 && untouched(&n, &before), "c21.stop_kept_out");
        check(commit(&n, 3, &p, &pf).is_err() && commit(&n, 2, &p, &pf).is_err(), "c21.stopped");
    } else {
        let q = proposal(&[]);
        check(commit(&n, 4, &q, &sign(4, 1, &q.hash(), &[0, 1, 3])).is_ok() == (at != 3), "c21.stop_next");
    }
    cover("c21.stop.done");
}
static mut FLAGS: [u8; 32] = [0; 32];
static mut SET: bool = false;
/// A node's wish for a hard fork ends once the chain has all of its flags.
#[no_mangle]
pub extern "C" fn h_c21_fork() {
    chain();
    let mut mine = H256::zero();
    mine.0[31] = u8("mine");
    mine.0[0] = u8("mine0");
    unsafe {
        SET = bool("set");
        FLAGS[31] = u8("flags");
        FLAGS[0] = u8("flags0");
        ex::HARDFORKS = |_| HardforkInfo { inner: if SET { vec![HardforkInfoInner { block_number: 0, flags: H256::repeat_byte(0xff) }, HardforkInfoInner { block_number: 1, flags: H256(FLAGS) }] } else { vec![] } };
    }
    let fork = HardforkInfoInner { block_number: 50, flags: mine };
    disk().fork = Some(fork.clone());
    let n = node(Some(fork));
    let p = proposal(&[]);
    check(commit(&n, 3, &p, &sign(3, 1, &p.hash(), &[0, 1, 3])).is_ok(), "c21.fork_commit");
    let all = unsafe { SET & (FLAGS[31] & mine.0[31] == mine.0[31]) & (FLAGS[0] & mine.0[0] == mine.0[0]) };
    check((n.info.hardfork_proposals.read().unwrap().is_none() == all) & (disk().fork.is_none() == all), "c21.fork");
    cover("c21.fork.done");
}
