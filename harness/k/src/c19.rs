//! C19: what consensus writes ahead survives a stop of the machine.
//! bound: up to 3 saves of a consensus record of up to 2 arbitrary bytes, the clock moving by -2..=2 ms between them, a stop at any file system call or in the middle of any write, with or without the loss of what was not synced; one read error; batches of up to 2 transactions under up to 3 hashes
//! outside: directory entries lost or reordered by a power failure (they are taken to last in the order made); other files put into the directories by hand
use core_consensus::{ConsensusWal, SignedTxsWAL};
use fakefs as fs;
use protocol::{traits::Context, types::*};
use symrt::*;

fn tick() { unsafe { fs::NOW = (fs::NOW as i64 + choose("tick", 0, 4) as i64 - 2) as u64 } }
/// No more ticks: the clock goes on by itself.
fn tock() { unsafe { fs::NOW += 1 } }
fn wal() -> ConsensusWal { ConsensusWal::new("/wal") }
fn record(i: usize, n: usize) -> Bytes { vec(["r0", "r1", "r2"][i], n).into() }
/// One save; whether it ended before the machine stopped.
fn save(w: &ConsensusWal, r: &Bytes) -> bool {
    let ok = w.update_overlord_wal(Context::new(), r.clone()).is_ok();
    let up = unsafe { !fs::STOPPED };
    if up { check(ok, "c19.saved") }
    up
}
fn load() -> Option<Bytes> { unsafe { fs::CALLS = 0 } wal().load_overlord_wal(Context::new()).ok() }
fn is(a: &Option<Bytes>, b: &Option<Bytes>) -> bool { match (a, b) { (Some(a), Some(b)) => same(a, b), (None, None) => true, _ => false } }

/// Saves, a stop at any point, and what is loaded then: the record saved last,
/// or the one being saved; and a save after that is loaded too.
//@ shards=8 cost=6
#[no_mangle]
pub extern "C" fn h_c19_consensus() {
    fs::reset();
    unsafe { fs::NOW = 999_998; fs::TICK = tick; }
    let plan = choose("@plan", 0, 23); // saves, and whether the records are empty
    let n = 1 + (plan % 3) as usize;
    let long = plan / 3;
    assume(long >> n == 0);
    let w = wal();
    let mut last: Option<Bytes> = None;
    let mut during: Option<Bytes> = None;
    for i in 0..n {
        let r = record(i, (long >> i & 1) as usize * 2);
        unsafe { fs::TICK = tick; fs::MAY_STOP = i + 1 == n; }
        if i + 1 == n && n < 3 { unsafe { fs::LIST_ORDER = true } }
        if save(&w, &r) { last = Some(r) } else { during = Some(r); break }
        unsafe { fs::TICK = tock }
    }
    unsafe { fs::LIST_ORDER = false; fs::TICK = tock; }
    let stopped = unsafe { fs::STOPPED };
    fs::restart(bool("power_lost"));
    let l = load();
    check(is(&l, &last) || (stopped && during.is_some() && is(&l, &during)), "c19.last_record");
    if stopped {
        let r: Bytes = vec("after", 1).into();
        check(save(&wal(), &r), "c19.saved_after");
        check(is(&load(), &Some(r)), "c19.loaded_after");
        cover("c19.stopped");
    }
    cover("c19.consensus.done");
}
/// A file that cannot be read or is damaged is passed over, whatever it holds.
#[no_mangle]
pub extern "C" fn h_c19_damaged() {
    fs::reset();
    unsafe { fs::TICK = tock }
    let r = record(0, 2);
    check(save(&wal(), &r), "c19.damaged_saved");
    // a newer file of any content
    let n = [0usize, 1, 31, 32, 33][choose("@size", 0, 4) as usize];
    let b = vec("content", n);
    let valid = n >= 32 && same(&b[..32], &keccak(&b[32..]));
    std::fs::write("/wal/999999999999999", &b).unwrap();
    unsafe { fs::MAY_FAIL_READ = true }
    let l = load();
    let failed = unsafe { fs::FAILED_READ };
    unsafe { fs::MAY_FAIL_READ = false }
    match failed {
        None => check(if valid { is(&l, &Some(b[32..].to_vec().into())) } else { is(&l, &Some(r)) }, "c19.damaged"),
        Some(_) => check(l.is_none() || is(&l, &Some(r)) || (valid && is(&l, &Some(b[32..].to_vec().into()))), "c19.read_error"),
    }
    cover("c19.damaged.done");
}
fn tx(v: u64) -> SignedTransaction {
    let unsigned = UnsignedTransaction::Legacy(LegacyTransaction { nonce: v.into(), gas_price: 1.into(), gas_limit: 21_000.into(), action: TransactionAction::Call(H160::repeat_byte(4)), value: 1.into(), data: Bytes::new() });
    let sig = SignatureComponents { r: vec![5u8; 32].into(), s: vec![6u8; 32].into(), standard_v: 1 };
    SignedTransaction::from_unverified(UnverifiedTransaction { unsigned, signature: Some(sig), chain_id: Some(7), hash: H256::zero() }.calc_hash()).unwrap()
}
fn batch(n: usize, from: u64) -> Vec<SignedTransaction> { (0..n as u64).map(|i| tx(from + i)).collect() }
/// Batches of any sizes under any two hashes of a height, however alike, are
/// there under their hash.
//@ shards=4 cost=3
#[no_mangle]
pub extern "C" fn h_c19_txs() {
    fs::reset();
    let w = SignedTxsWAL::new("/txs");
    let at = choose("@byte", 0, 31) as usize;
    let (a, mut b) = (H256::repeat_byte(0x5a), H256::repeat_byte(0x5a));
    b.0[at] = 0xa5;
    let (x, y) = (batch(choose("n0", 0, 2) as usize, 0), batch(choose("n1", 0, 2) as usize, 10));
    check(w.save(7, a, x.clone()).is_ok() && w.save(7, b, y.clone()).is_ok(), "c19.txs_saved");
    if bool("again") { check(w.save(7, a, x.clone()).is_ok(), "c19.txs_saved_again") }
    check(w.load(7, a).ok().as_ref() == Some(&x), "c19.txs_first");
    check(w.load(7, b).ok().as_ref() == Some(&y), "c19.txs_second");
    let all = w.load_by_number(7);
    check(all.len() == x.len() + y.len() && x.iter().chain(y.iter()).all(|t| all.contains(t)), "c19.txs_by_number");
    check(w.load_by_number(8).is_empty() && w.load(8, a).is_err(), "c19.txs_other_height");
    cover("c19.txs.done");
}
/// A stop in the middle of saving a batch: those saved before are there, the
/// one being saved is there whole or not at all, and can be saved again.
//@ shards=4 cost=3
#[no_mangle]
pub extern "C" fn h_c19_txs_stop() {
    fs::reset();
    let w = SignedTxsWAL::new("/txs");
    let (a, b) = (H256::repeat_byte(1), H256::repeat_byte(2));
    let (x, y) = (batch(1, 0), batch(choose("@n", 0, 2) as usize, 10));
    let same_height = bool("same_height");
    let h = if same_height { 7 } else { 8 };
    check(w.save(7, a, x.clone()).is_ok(), "c19.txs_before");
    unsafe { fs::MAY_STOP = true }
    let ok = w.save(h, b, y.clone()).is_ok();
    let stopped = unsafe { fs::STOPPED };
    check(ok != stopped, "c19.txs_stop_told");
    fs::restart(false);
    let w = SignedTxsWAL::new("/txs");
    check(w.load(7, a).ok().as_ref() == Some(&x), "c19.txs_kept");
    let l = w.load(h, b).ok();
    check(if stopped { l.is_none() || l.as_ref() == Some(&y) } else { l.as_ref() == Some(&y) }, "c19.txs_whole");
    let all = w.load_by_number(h);
    check(all.iter().all(|t| x.contains(t) || y.contains(t)), "c19.txs_no_garbage");
    check(w.save(h, b, y.clone()).is_ok() && w.load(h, b).ok().as_ref() == Some(&y), "c19.txs_again");
    cover("c19.txs_stop.done");
}
/// Removing up to a height removes those and no other, also when it was cut short.
//@ shards=2 cost=2
#[no_mangle]
pub extern "C" fn h_c19_txs_remove() {
    fs::reset();
    let w = SignedTxsWAL::new("/txs");
    let hs = [9u64, 10, 11, 100];
    let hash = H256::repeat_byte(1);
    for h in hs { check(w.save(h, hash, batch(1, h)).is_ok(), "c19.remove_saved") }
    let upto = [0u64, 8, 9, 10, 11, 99, 100, u64::MAX][choose("@upto", 0, 7) as usize];
    unsafe { fs::MAY_STOP = true }
    let ok = w.remove(upto).is_ok();
    let stopped = unsafe { fs::STOPPED };
    check(ok != stopped, "c19.remove_told");
    fs::restart(false);
    let w = SignedTxsWAL::new("/txs");
    if stopped { check(w.remove(upto).is_ok(), "c19.remove_again") }
    for h in hs { check(w.load(h, hash).is_ok() == (h > upto), "c19.remove") }
    let left = w.available_number().ok().unwrap_or_default();
    check(left.len() == hs.iter().filter(|h| **h > upto).count() && left.iter().all(|h| *h > upto), "c19.remove_heights");
    check(w.remove_all().is_ok() && w.available_number().ok() == Some(vec![]), "c19.remove_all");
    cover("c19.remove.done");
}
