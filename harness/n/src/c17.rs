//! C17: what the transaction pool offers for a block.
//! bound: histories of up to 5 transactions of 2 senders, nonces 0..=2 above the account's, any gas prices; one flush; background refill at any boundary between calls
//! outside: more than 64 waiting transactions of one sender; timeouts of single transactions that leave later nonces behind (h_c17_timeout covers a run of up to 3)
use core_mempool::MemPoolImpl;
use protocol::{async_trait, traits::{Context, MemPool, MemPoolAdapter}, types::*, ProtocolResult};
use sched::block_on;
use symrt::*;

pub struct Env;
#[async_trait]
impl MemPoolAdapter for Env {
    async fn pull_txs(&self, _: Context, _: Option<u64>, _: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> { Ok(vec![]) }
    async fn broadcast_tx(&self, _: Context, _: Option<usize>, _: SignedTransaction) -> ProtocolResult<()> { Ok(()) }
    async fn check_authorization(&self, _: Context, _: &SignedTransaction) -> ProtocolResult<U64> { Ok(U64::zero()) }
    async fn check_transaction(&self, _: Context, _: &SignedTransaction) -> ProtocolResult<()> { Ok(()) }
    async fn check_storage_exist(&self, _: Context, _: &Hash) -> ProtocolResult<()> { Ok(()) }
    async fn get_latest_height(&self, _: Context) -> ProtocolResult<u64> { Ok(0) }
    async fn get_transactions_from_storage(&self, _: Context, _: Option<u64>, h: &[Hash]) -> ProtocolResult<Vec<Option<SignedTransaction>>> { Ok(h.iter().map(|_| None).collect()) }
    fn clear_nonce_cache(&self) {}
    fn set_args(&self, _: Context, _: H256, _: u64, _: u64) {}
    fn report_good(&self, _: Context) {}
}
pub fn tx(id: u8, sender: u8, nonce: u64, price: u64) -> SignedTransaction {
    SignedTransaction {
        transaction: UnverifiedTransaction {
            unsigned: UnsignedTransaction::Legacy(LegacyTransaction { nonce: nonce.into(), gas_price: price.into(), gas_limit: 21000.into(), action: TransactionAction::Create, value: U256::zero(), data: Bytes::new() }),
            signature: None,
            chain_id: None,
            hash: H256::repeat_byte(id),
        },
        sender: H160::repeat_byte(0xa0 + sender),
        public: None,
    }
}
pub fn pool(size: usize, timeout: u64) -> MemPoolImpl<Env> { block_on(MemPoolImpl::new(size, timeout, Env, vec![])).unwrap() }

/// One transaction the history gave to the pool.
#[derive(Clone, Copy)]
struct T { id: u8, sender: u8, nonce: u64, price: u64, live: bool }
/// What the pool should hold: accounts' next nonces and the live transactions.
struct Model { next: [u64; 2], txs: Vec<T> }
impl Model {
    fn new(base: u64) -> Self { Model { next: [base; 2], txs: Vec::new() } }
    fn insert(&mut self, p: &MemPoolImpl<Env>, sender: u8, nonce: u64, price: u64) {
        let id = self.txs.len() as u8 + 1;
        let mut live = true;
        for t in self.txs.iter_mut() {
            if t.live && t.sender == sender && t.nonce == nonce {
                if t.price < price { t.live = false } else { live = false }
            }
        }
        self.txs.push(T { id, sender, nonce, price, live });
        let ok = p.get_tx_cache().insert(tx(id, sender, nonce, price), true, (nonce - self.next[sender as usize]).into()).is_ok();
        check(ok, "c17.insert");
    }
    fn flush(&mut self, p: &MemPoolImpl<Env>, ids: &[u8], number: u64) {
        p.get_tx_cache().flush(&ids.iter().map(|i| H256::repeat_byte(*i)).collect::<Vec<_>>(), number);
        for i in ids {
            let c = self.txs[*i as usize - 1];
            let n = &mut self.next[c.sender as usize];
            if *n < c.nonce + 1 { *n = c.nonce + 1 }
        }
        let next = self.next;
        for t in self.txs.iter_mut() { if t.nonce < next[t.sender as usize] { t.live = false } }
    }
    /// The live transaction of a sender at a nonce.
    fn at(&self, sender: u8, nonce: u64) -> Option<T> { self.txs.iter().copied().find(|t| t.live && t.sender == sender && t.nonce == nonce) }
    fn ready(&self) -> usize {
        (0..2u8).map(|s| { let mut n = self.next[s as usize]; while self.at(s, n).is_some() { n += 1 } (n - self.next[s as usize]) as usize }).sum()
    }
    /// Every list the pool offers: only live transactions, each sender's from
    /// its account's nonce on without gaps, as many as ready or asked for.
    fn offered(&self, p: &MemPoolImpl<Env>, limit: usize) {
        let l = p.get_tx_cache().package(U256::max_value(), limit);
        check(l.call_system_script_count == 0, "c17.system_count");
        let mut next = self.next;
        let mut ok = true;
        for h in l.hashes.iter() {
            let t = self.txs[h.0[0] as usize - 1];
            ok &= t.live && t.nonce == next[t.sender as usize];
            next[t.sender as usize] += 1;
        }
        check(ok, "c17.order");
        check(l.hashes.len() == self.ready().min(limit), "c17.complete");
    }
    fn held(&self, p: &MemPoolImpl<Env>) {
        for t in self.txs.iter() {
            let h = H256::repeat_byte(t.id);
            if t.live {
                check(block_on(p.contains(Context::new(), &h)) == Some(true) && p.get_tx_from_mem(Context::new(), &h).map_or(false, |x| x.transaction.hash == h), "c17.held");
            }
        }
    }
}
const SLOTS: [(u8, u64); 5] = [(0, 0), (0, 1), (1, 0), (0, 2), (1, 1)];

//@ shards=8 cost=6
#[no_mangle]
pub extern "C" fn h_c17_order() {
    let p = pool(16, 20);
    let mut m = Model::new(0);
    let at = choose("@refill", 0, 4);
    let n = 4;
    for i in 0..n {
        if i == at { sched::poll(0); }
        let (s, k) = SLOTS[choose("slot", 0, 4) as usize];
        m.insert(&p, s, k, u64("price"));
    }
    m.offered(&p, 8);
    m.held(&p);
    let c = block_on(p.get_tx_count_by_address(Context::new(), H160::repeat_byte(0xa0))).unwrap().unwrap().0;
    check(c == m.txs.iter().filter(|t| t.live && t.sender == 0).count(), "c17.count");
    cover("c17.order.done");
}

/// A flush of any of the offered transactions, in the middle of a history.
//@ shards=8 cost=6
#[no_mangle]
pub extern "C" fn h_c17_flush() {
    let p = pool(16, 20);
    let base = u32("base") as u64;
    let mut m = Model::new(base);
    let at = choose("@refill", 0, 3);
    for i in 0..3 {
        if i == at { sched::poll(0); }
        let (s, k) = SLOTS[choose("slot", 0, 3) as usize];
        m.insert(&p, s, base + k, u64("price"));
    }
    if at == 3 { m.offered(&p, 2); }
    // one committed transaction per sender at most, known to the pool
    let c = choose("commit", 0, 3) as u8;
    if c > 0 { m.flush(&p, &[c], 1); check(!block_on(p.contains(Context::new(), &H256::repeat_byte(c))).unwrap(), "c17.committed_gone"); }
    m.offered(&p, 8);
    m.held(&p);
    let (s, k) = SLOTS[choose("slot2", 0, 3) as usize];
    if base + k >= m.next[s as usize] {
        m.insert(&p, s, base + k, u64("price2"));
        m.offered(&p, 8);
    }
    cover("c17.flush.done");
}
/// Every limit offers a prefix: never more than asked for, never with a gap.
//@ shards=8 cost=6
#[no_mangle]
pub extern "C" fn h_c17_limit() {
    let p = pool(16, 20);
    let mut m = Model::new(0);
    m.insert(&p, 0, 0, u64("price"));
    m.insert(&p, 0, 1, u64("price"));
    m.insert(&p, 1, 0, u64("price"));
    m.insert(&p, 1, 1, u64("price"));
    m.insert(&p, 0, 2, u64("price"));
    let (s, k) = SLOTS[choose("@slot", 0, 4) as usize];
    m.insert(&p, s, k, u64("price"));
    m.offered(&p, choose("limit", 0, 6) as usize);
    cover("c17.limit.done");
}
/// Room: what is refused for lack of room, what is given back by a flush.
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c17_room() {
    let cap = 3;
    let p = pool(cap, 20);
    let c = p.get_tx_cache();
    let mut n = 0;
    for i in 0..5u8 {
        if bool("refill") { sched::poll(0); }
        let again = choose("again", 0, 1) == 1 && i > 0;
        let id = if again { i } else { i + 1 };
        let known = block_on(p.contains(Context::new(), &H256::repeat_byte(id))).unwrap();
        let ok = c.insert(tx(id, i % 2, (i / 2) as u64, u64("price")), true, ((i / 2) as u64).into()).is_ok();
        if n < cap { check(ok, "c17.room_insert") } else { check(!ok, "c17.room_refused") }
        if ok && !known { n += 1 }
        check(p.len() == n, "c17.room_len");
    }
    let k = choose("flush", 0, 3) as u8;
    let hs: Vec<_> = (1..=k).map(H256::repeat_byte).collect();
    let there = hs.iter().filter(|h| block_on(p.contains(Context::new(), h)).unwrap()).count();
    c.flush(&hs, 1);
    check(p.len() + there == n, "c17.room_given_back");
    cover("c17.room.done");
}
fn sys(id: u8, sender: u8, data: u8) -> SignedTransaction {
    let mut t = tx(id, sender, 0, 1);
    t.transaction.unsigned = UnsignedTransaction::Legacy(LegacyTransaction { nonce: 0.into(), gas_price: 1.into(), gas_limit: 21000.into(), action: TransactionAction::Call(H160::repeat_byte(0xff)), value: U256::zero(), data: vec![data].into() });
    t
}
/// System transactions: one per payload is offered, ahead of the others; a
/// committed one settles its payload and gives all its room back.
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c17_system() {
    let p = pool(16, 20);
    let c = p.get_tx_cache();
    let d: [u8; 3] = [0, choose("data", 0, 1) as u8, choose("data", 0, 2) as u8];
    for i in 0..3u8 { check(c.insert_system_script_tx(sys(i + 1, i % 2, d[i as usize])).is_ok(), "c17.system_insert"); }
    c.insert(tx(9, 0, 0, 1), true, 0.into()).unwrap();
    check(p.len() == 4, "c17.system_len");
    let l = c.package(U256::zero(), 4);
    let k = l.call_system_script_count as usize;
    let mut seen: Vec<u8> = l.hashes[..k].iter().map(|h| d[h.0[0] as usize - 1]).collect();
    seen.sort();
    let mut want = d.to_vec();
    want.sort();
    want.dedup();
    check(seen == want, "c17.system_offered");
    check(l.hashes[k..] == [H256::repeat_byte(9)], "c17.system_first");
    let f = choose("flush", 1, 3) as u8;
    c.flush(&[H256::repeat_byte(f)], 1);
    let gone = d.iter().filter(|x| **x == d[f as usize - 1]).count();
    for i in 0..3u8 {
        let h = H256::repeat_byte(i + 1);
        check(block_on(p.contains(Context::new(), &h)).unwrap() == (d[i as usize] != d[f as usize - 1]), "c17.system_settled");
    }
    check(p.len() == 4 - gone, "c17.system_room");
    let l = c.package(U256::zero(), 4);
    check(l.call_system_script_count as usize == want.len() - 1, "c17.system_not_again");
    cover("c17.system.done");
}
/// Transactions that waited too long leave, and what is offered stays in order,
/// also for those sent again.
//@ shards=4 cost=3
#[no_mangle]
pub extern "C" fn h_c17_timeout() {
    const GAP: u64 = 2;
    let p = pool(16, GAP);
    let c = p.get_tx_cache();
    // (id, nonce, height after which it was inserted)
    let mut held: Vec<(u8, u64, u64)> = Vec::new();
    let mut id = 0;
    for number in 1..=5u64 {
        if number != 4 || choose("@late", 0, 1) == 1 {
            let k = choose("nonce", 0, 3);
            if k < 3 && !held.iter().any(|t| t.1 == k) {
                id += 1;
                check(c.insert(tx(id, 0, k, 1), true, k.into()).is_ok(), "c17.timeout_insert");
                held.push((id, k, number));
            }
        }
        c.flush(&[], number);
        held.retain(|t| number < t.2 + GAP);
        for i in 1..=id {
            let here = held.iter().any(|t| t.0 == i);
            check(block_on(p.contains(Context::new(), &H256::repeat_byte(i))).unwrap() == here, "c17.timeout_gone");
        }
        check(p.len() == held.len(), "c17.timeout_room");
        let l = c.package(U256::zero(), 8);
        let mut want = Vec::new();
        while let Some(t) = held.iter().find(|t| t.1 == want.len() as u64) { want.push(H256::repeat_byte(t.0)) }
        check(l.hashes == want, "c17.timeout_offered");
    }
    cover("c17.timeout.done");
}
/// Two calls at once: the second runs whole at any lock, queue or map operation
/// of the first (or after it); no transaction is lost or counted twice, none
/// deadlocks.
//@ shards=4 cost=3
#[no_mangle]
pub extern "C" fn h_c17_concurrent() {
    let p = pool(16, 20);
    let c = p.get_tx_cache();
    c.insert(tx(1, 0, 0, 5), true, 0.into()).unwrap();
    if bool("refill") { sched::poll(0); }
    c.insert(tx(2, 0, 1, 5), true, 1.into()).unwrap();
    let (a, b) = (choose("@first", 0, 4), choose("second", 0, 4));
    fn op(p: &MemPoolImpl<Env>, k: u64, id: u8, nonce: u64) {
        let c = p.get_tx_cache();
        match k {
            0 => { let _ = c.insert(tx(id, 0, nonce, 7), true, nonce.into()); }
            1 => { let _ = c.insert(tx(5, 1, 0, 7), true, 0.into()); }
            2 => c.flush(&[H256::repeat_byte(1)], 1),
            3 => { let l = c.package(U256::zero(), 8); check(l.hashes.len() <= 4, "c17.concurrent_package"); }
            _ => { sched::poll(0); }
        }
    }
    let q: &'static MemPoolImpl<Env> = unsafe { &*(&p as *const _) };
    unsafe { sched::OTHER = Some(Box::new(move || op(q, b, 3, 2))) }
    op(&p, a, 4, if b == 0 { 3 } else { 2 });
    sched::run_other();
    unsafe { sched::OTHER = None }
    let (flushed, mut n) = (a == 2 || b == 2, 2);
    if a == 0 { n += 1 }
    if b == 0 { n += 1 }
    if a == 1 || b == 1 { n += 1 }
    if flushed { n -= 1 }
    check(p.len() == n, "c17.concurrent_len");
    let l = c.package(U256::zero(), 8);
    check(l.hashes.len() == n, "c17.concurrent_offered");
    let mine: Vec<u8> = l.hashes.iter().map(|h| h.0[0]).filter(|i| *i != 5).collect();
    let mut want = if flushed { vec![2] } else { vec![1, 2] };
    if b == 0 { want.push(3) }
    if a == 0 { want.push(4) }
    check(mine == want, "c17.concurrent_order");
    cover("c17.concurrent.done");
}
