//! C18: which transactions the node takes into its pool.
//! bound: legacy, EIP-2930 and EIP-1559 transactions without data or access list; every nonce, price, gas limit, value, chain id, account nonce and balance; signatures of 65 bytes, CKB-VM signatures with one shape of lock script
//! outside: elliptic curve and CKB-VM runs (oracles); the validator contract's storage (oracle)
use core_mempool::{DefaultMemPoolAdapter, MemPoolImpl};
use core_executor as ex;
use core_interoperation as vm;
use protocol::{async_trait, traits::*, types::*, ProtocolError, ProtocolErrorKind, ProtocolResult};
use sched::block_on;
use std::sync::Arc;
use symrt::*;

#[derive(Clone)]
pub struct Net;
pub static mut REPORTS: Vec<TrustFeedback> = Vec::new();
pub static mut PEER: Vec<SignedTransaction> = Vec::new();
pub static mut SENT: usize = 0;
fn err() -> ProtocolError { ProtocolError::new(ProtocolErrorKind::Network, Box::new(std::fmt::Error)) }
#[async_trait]
impl Rpc for Net {
    async fn call<M, R>(&self, _: Context, _: &str, _: M, _: Priority) -> ProtocolResult<R> where M: MessageCodec, R: MessageCodec {
        // the peer's answer, handed over as it is
        let b = Box::new(BatchSignedTxs(unsafe { PEER.clone() }));
        if std::mem::size_of::<R>() != std::mem::size_of::<BatchSignedTxs>() { return Err(err()) }
        Ok(*unsafe { Box::from_raw(Box::into_raw(b) as *mut R) })
    }
    async fn response<M>(&self, _: Context, _: &str, _: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> where M: MessageCodec { Ok(()) }
}
#[async_trait]
impl Gossip for Net {
    async fn broadcast<M>(&self, _: Context, _: &str, _: M, _: Priority) -> ProtocolResult<()> where M: MessageCodec { unsafe { SENT += 1 } Ok(()) }
    async fn gossip<M>(&self, _: Context, _: Option<usize>, _: &str, _: M, _: Priority) -> ProtocolResult<()> where M: MessageCodec { unsafe { SENT += 1 } Ok(()) }
    async fn multicast<'a, M, P>(&self, _: Context, _: &str, _: P, _: M, _: Priority) -> ProtocolResult<()> where M: MessageCodec, P: AsRef<[Bytes]> + Send + 'a { Ok(()) }
}
impl PeerTrust for Net { fn report(&self, _: Context, f: TrustFeedback) { unsafe { REPORTS.push(f) } } }

pub struct Store;
pub static mut STORED: Vec<SignedTransaction> = Vec::new();
pub static mut HEIGHT: u64 = 0;
fn header() -> Header { let mut h = Header::default(); h.number = unsafe { HEIGHT }; h }
#[async_trait]
impl ReadOnlyStorage for Store {
    async fn get_block(&self, _: Context, _: u64) -> ProtocolResult<Option<Block>> { Ok(None) }
    async fn get_block_header(&self, _: Context, _: u64) -> ProtocolResult<Option<Header>> { Ok(None) }
    async fn get_latest_block(&self, _: Context) -> ProtocolResult<Block> { let mut b = Block::default(); b.header = header(); Ok(b) }
    async fn get_latest_block_header(&self, _: Context) -> ProtocolResult<Header> { Ok(header()) }
    async fn get_block_by_hash(&self, _: Context, _: &Hash) -> ProtocolResult<Option<Block>> { Ok(None) }
    async fn get_block_number_by_hash(&self, _: Context, _: &Hash) -> ProtocolResult<Option<u64>> { Ok(None) }
    async fn get_transactions(&self, _: Context, _: u64, h: &[Hash]) -> ProtocolResult<Vec<Option<SignedTransaction>>> { Ok(h.iter().map(|h| unsafe { STORED.iter().find(|t| t.transaction.hash == *h).cloned() }).collect()) }
    async fn get_transaction_by_hash(&self, _: Context, h: &Hash) -> ProtocolResult<Option<SignedTransaction>> { Ok(unsafe { STORED.iter().find(|t| t.transaction.hash == *h).cloned() }) }
    async fn get_code_by_hash(&self, _: Context, _: &Hash) -> ProtocolResult<Option<Bytes>> { Ok(None) }
    async fn get_code_by_address(&self, _: Context, _: &H256) -> ProtocolResult<Option<Bytes>> { Ok(None) }
    async fn get_receipt_by_hash(&self, _: Context, _: &Hash) -> ProtocolResult<Option<Receipt>> { Ok(None) }
    async fn get_receipts(&self, _: Context, _: u64, _: &[Hash]) -> ProtocolResult<Vec<Option<Receipt>>> { Ok(vec![]) }
    async fn get_latest_proof(&self, _: Context) -> ProtocolResult<Proof> { Ok(Proof::default()) }
    async fn hardfork_proposal(&self, _: Context) -> ProtocolResult<Option<HardforkInfoInner>> { Ok(None) }
}
type Adapter = DefaultMemPoolAdapter<common_crypto::Secp256k1Recoverable, Net, Store, protocol::trie::MemoryDB, vm::InteroperationImpl>;
const CHAIN: u64 = 0x41;
pub fn adapter(max: usize) -> Adapter { Adapter::new(Net, Arc::new(Store), Arc::new(protocol::trie::MemoryDB::new(true)), CHAIN, max, 200, 200) }
struct F { nonce: u64, price: u64, gas: u64, value: U256, chain: Option<u64>, to: TransactionAction, kind: u64, data: usize }
impl Default for F { fn default() -> Self { F { nonce: 3, price: 0x1111, gas: 0x9999, value: U256::one(), chain: Some(CHAIN), to: TransactionAction::Call(H160::repeat_byte(7)), kind: 0, data: 0 } } }
fn utx(f: &F, sig: Option<SignatureComponents>) -> UnverifiedTransaction {
    let (nonce, gas_price, gas_limit, action, value, data): (U64, U64, U64, _, _, Bytes) = (f.nonce.into(), f.price.into(), f.gas.into(), f.to, f.value, vec![1u8; f.data].into());
    let unsigned = match f.kind {
        0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price, gas_limit, action, value, data }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_price, gas_limit, action, value, data, access_list: vec![] }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction { nonce, max_priority_fee_per_gas: gas_price, gas_price, gas_limit, action, value, data, access_list: vec![] }),
    };
    UnverifiedTransaction { unsigned, signature: sig, chain_id: f.chain, hash: H256::zero() }
}
fn sig() -> SignatureComponents { SignatureComponents { r: vec![5u8; 32].into(), s: vec![6u8; 32].into(), standard_v: 1 } }
fn stx(f: &F) -> SignedTransaction { SignedTransaction::from_unverified(utx(f, Some(sig()))).unwrap() }
static mut ACC: (u64, [u8; 32]) = (0, [0; 32]);
fn account(_: H160) -> (U256, U256) { unsafe { (ACC.0.into(), U256::from_little_endian(&ACC.1)) } }
fn sum(a: U256, b: U256) -> (U256, bool) { a.overflowing_add(b) }

/// Nonce and balance, by a fresh look at the account and from the cache alike.
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c18_account() {
    let mut f = F::default();
    f.kind = choose("kind", 0, 2);
    let t0 = stx(&f);
    let (nonce, price, gas) = (u64("nonce"), u64("price"), u64("gas"));
    let value = U256::from_little_endian(&arr::<32>("value"));
    unsafe { ACC = (u64("account"), arr("balance")); ex::ACCOUNT = account }
    let mut t = t0;
    t.transaction.unsigned = { let f = F { nonce, price, gas, value, ..f }; utx(&f, None).unsigned };
    let a = adapter(4096);
    let first = block_on(a.check_authorization(Context::new(), &t)).unwrap().ok();
    let again = block_on(a.check_authorization(Context::new(), &t)).unwrap().ok();
    let cost = U256::from(price as u128 * gas as u128);
    let (all, over) = sum(cost, value);
    let balance = U256::from_little_endian(unsafe { &ACC.1 });
    let good = (nonce >= unsafe { ACC.0 }) & ((!over & (all <= balance)) | (over & (balance == U256::max_value())));
    check(first.is_some() == good, "c18.account");
    check(again.is_some() == good, "c18.account_cached");
    if let (Some(x), Some(y)) = (first, again) {
        check((x.as_u64() == nonce - unsafe { ACC.0 }) & (x == y), "c18.account_distance");
    }
    // a new block: the account is looked up again
    let next = u64("account");
    unsafe { ACC.0 = next }
    a.clear_nonce_cache();
    let r = block_on(a.check_authorization(Context::new(), &t)).unwrap().is_ok();
    if nonce < next { check(!r, "c18.account_refreshed") }
    cover("c18.account.done");
}
/// System contract calls: validators of the next block only.
#[no_mangle]
pub extern "C" fn h_c18_system() {
    let mut f = F::default();
    let last = u8("address");
    let mut to = [0xffu8; 20];
    to[19] = last;
    if choose("@plain", 0, 1) == 1 { to[0] = 0xfe }
    f.to = TransactionAction::Call(H160(to));
    let t = stx(&f);
    let sender = t.sender;
    static mut WANT: (u64, H160, bool) = (0, H160([0; 20]), false);
    fn validator(n: u64, a: H160) -> bool { unsafe { WANT.2 && n == WANT.0 && same(&a.0, &WANT.1.0) } }
    fn rich(_: H160) -> (U256, U256) { (3.into(), U256::max_value()) }
    unsafe {
        HEIGHT = 41;
        WANT = (42, sender, bool("validator"));
        ex::VALIDATOR = validator;
        ex::ACCOUNT = rich;
    }
    let r = block_on(adapter(4096).check_authorization(Context::new(), &t)).unwrap().is_ok();
    let want = if to[0] == 0xfe { true } else { (last < 4) & unsafe { WANT.2 } };
    check(r == want, "c18.system");
    cover("c18.system.done");
}
/// Price, gas, size and chain id.
//@ shards=4 cost=4
#[no_mangle]
pub extern "C" fn h_c18_fields() {
    let mut f = F::default();
    f.kind = choose("@kind", 0, 2);
    match choose("field", 0, 2) {
        0 => f.price = u64("price"),
        1 => f.gas = u64("gas"),
        _ => {
            let c = u64("chain");
            assume(c < 1 << 62);
            f.chain = if f.kind == 0 && bool("no_chain") { None } else { Some(c) };
        }
    }
    f.data = 8;
    let t = stx(&f);
    let size = t.transaction.encode().unwrap().len();
    let max = choose("max", 0, 2) as usize + size - 1;
    let r = block_on(adapter(max).check_transaction(Context::new(), &t)).unwrap().is_ok();
    let good = (f.price > 0) & (f.price < 500_000_000_000) & (f.gas >= 21_000) & (f.gas <= 30_000_000) & f.chain.map_or(true, |c| c == CHAIN) & (size <= max);
    check(r == good, "c18.fields");
    cover("c18.fields.done");
}
use protocol::codec::ProtocolCodec;
/// A signature by another key, over other fields or with no key is refused.
//@ cost=2
#[no_mangle]
pub extern "C" fn h_c18_signature() {
    let f = F { kind: choose("@kind", 0, 2), ..F::default() };
    let mut t = stx(&f);
    match choose("what", 0, 5) {
        0 => {
            let s = SignatureComponents { r: vec(&"r", 32).into(), s: vec(&"s", 32).into(), standard_v: u8("v") };
            let u = utx(&f, Some(s));
            let key = t.public.unwrap();
            let own = SignedTransaction::from_unverified(u.clone()).ok();
            t.transaction.signature = u.signature;
            let r = block_on(adapter(4096).check_transaction(Context::new(), &t)).unwrap().is_ok();
            check(r == own.map_or(false, |o| same(&o.public.unwrap().0, &key.0)), "c18.signature");
        }
        1 => {
            let k = arr::<64>("public");
            let own = same(&k, &t.public.unwrap().0);
            t.public = Some(Public::from_slice(&k));
            let r = block_on(adapter(4096).check_transaction(Context::new(), &t)).unwrap().is_ok();
            check(r == own, "c18.signature_key");
        }
        2 => { t.public = None; check(block_on(adapter(4096).check_transaction(Context::new(), &t)).unwrap().is_err(), "c18.signature_no_key") }
        3 => { t.transaction.signature = None; check(block_on(adapter(4096).check_transaction(Context::new(), &t)).unwrap().is_err(), "c18.signature_none") }
        4 => {
            // the value is signed
            let v = u8("value");
            t.transaction.unsigned = utx(&F { value: v.into(), ..f }, None).unsigned;
            let r = block_on(adapter(4096).check_transaction(Context::new(), &t)).unwrap().is_ok();
            check(r == (v == 1), "c18.signature_covers");
        }
        _ => {
            // a CKB-VM signature: the verdict is the machine's, over the key and the signature given
            let key = vec("key", 20);
            let dep = CellDep { tx_hash: H256::repeat_byte(3), index: 1, dep_type: 0 };
            let r = [&[0u8][..], &rlp::encode(&CellDepWithPubKey { cell_dep: dep, pub_key: key.clone().into() })].concat();
            let s = vec("s", 6); // (65 bytes in all would read as an Ethereum signature)
            let u = utx(&f, Some(SignatureComponents { r: r.into(), s: s.clone().into(), standard_v: 0 }));
            let t = SignedTransaction::from_unverified(u).unwrap();
            unsafe { vm::VM_OK = bool("vm") }
            let ok = block_on(adapter(4096).check_transaction(Context::new(), &t)).unwrap().is_ok();
            unsafe {
                check(ok == vm::VM_OK, "c18.vm_verdict");
                check(vm::VM_ARGS.len() == 2 && same(&vm::VM_ARGS[0], &key) && same(&vm::VM_ARGS[1], &s), "c18.vm_args");
            }
        }
    }
    cover("c18.signature.done");
}
fn rich(_: H160) -> (U256, U256) { (3.into(), U256::max_value()) }
/// Sending a transaction: in the pool and passed on exactly when it passes, not
/// when it is committed already; a second time it changes nothing.
#[no_mangle]
pub extern "C" fn h_c18_send() {
    unsafe { ex::ACCOUNT = rich }
    let kind = choose("@kind", 0, 2);
    let f = match choose("bad", 0, 5) { 0 => F { kind, ..F::default() }, 1 => F { kind, nonce: 2, ..F::default() }, 2 => F { kind, price: 0, ..F::default() }, 3 => F { kind, gas: 20_999, ..F::default() }, 4 => F { kind, chain: Some(CHAIN + 1), ..F::default() }, _ => F { kind, nonce: 5, ..F::default() } };
    let t = stx(&f);
    let h = t.transaction.hash;
    let stored = bool("stored");
    if stored { unsafe { STORED.push(t.clone()) } }
    let good = (f.nonce >= 3) & (f.price > 0) & (f.gas >= 21_000) & (f.chain == Some(CHAIN)) & !stored;
    let p = block_on(MemPoolImpl::new(8, 20, adapter(4096), vec![])).unwrap();
    let r = block_on(p.insert(Context::new(), t.clone())).unwrap().is_ok();
    check(r == good, "c18.send");
    check(block_on(p.contains(Context::new(), &h)) == Some(good), "c18.send_held");
    check(block_on(p.insert(Context::new(), t)).unwrap().is_ok() == good, "c18.send_again");
    check(p.len() == good as usize, "c18.send_once");
    cover("c18.send.done");
}
/// The transactions of a proposal: fetched, verified and held, or the proposal
/// is refused; given back in the order asked for.
//@ shards=4 cost=2
#[no_mangle]
pub extern "C" fn h_c18_proposal() {
    unsafe { ex::ACCOUNT = rich }
    let t: Vec<SignedTransaction> = (0..4).map(|i| stx(&F { nonce: 3 + i, ..F::default() })).collect();
    let bad = stx(&F { nonce: 5, price: 0, ..F::default() });
    let p = block_on(MemPoolImpl::new(8, 20, adapter(4096), vec![])).unwrap();
    if bool("has0") { block_on(p.insert(Context::new(), t[0].clone())).unwrap().unwrap() }
    if bool("has1") { block_on(p.insert(Context::new(), t[1].clone())).unwrap().unwrap() }
    let pick = |k: u64| if k == 4 { bad.clone() } else { t[k as usize].clone() };
    let order: Vec<SignedTransaction> = (0..3).map(|_| pick(choose("order", 0, 4))).collect();
    let hashes: Vec<Hash> = order.iter().map(|t| t.transaction.hash).collect();
    let dup = hashes[0] == hashes[1] || hashes[1] == hashes[2] || hashes[0] == hashes[2];
    let missing: Vec<SignedTransaction> = order.iter().filter(|t| !block_on(p.contains(Context::new(), &t.transaction.hash)).unwrap()).cloned().collect();
    // the peer: truthful, short, or with another transaction in place of the last
    let peer = choose("@peer", 0, 3);
    unsafe {
        PEER = missing.clone();
        match peer {
            1 => { PEER.reverse() }
            2 => { PEER.pop(); }
            3 => { PEER.pop(); PEER.push(t[3].clone()); }
            _ => {}
        }
    }
    let truthful = missing.is_empty() || peer < 2 || (peer == 3 && missing.last().unwrap().transaction.hash == t[3].transaction.hash);
    let good = !dup && truthful && !missing.iter().any(|m| m.transaction.hash == bad.transaction.hash);
    let r = block_on(p.ensure_order_txs(Context::new(), None, &hashes)).unwrap().is_ok();
    check(r == good, "c18.proposal");
    if r {
        let full = block_on(p.get_full_txs(Context::new(), None, &hashes)).unwrap();
        check(full.map_or(false, |v| v == order), "c18.proposal_full");
    }
    cover("c18.proposal.done");
}
/// Full transactions come from the pool or from storage, in the order asked for.
#[no_mangle]
pub extern "C" fn h_c18_full() {
    unsafe { ex::ACCOUNT = rich }
    let t: Vec<SignedTransaction> = (0..3).map(|i| stx(&F { nonce: 3 + i, ..F::default() })).collect();
    let p = block_on(MemPoolImpl::new(8, 20, adapter(4096), vec![])).unwrap();
    let mut known = true;
    for i in 0..3 {
        match choose("where", 0, 2) {
            0 => block_on(p.insert(Context::new(), t[i].clone())).unwrap().unwrap(),
            1 => unsafe { STORED.push(t[i].clone()) },
            _ => known = false,
        }
    }
    let (a, b) = (choose("a", 0, 2) as usize, choose("b", 0, 2) as usize);
    if a == b { return }
    let ask = [a, b, 3 - a - b];
    let height = if bool("height") { Some(1) } else { None };
    let r = block_on(p.get_full_txs(Context::new(), height, &ask.map(|i| t[i].transaction.hash))).unwrap();
    match r {
        Ok(v) => check(known && v == ask.map(|i| t[i].clone()), "c18.full"),
        Err(_) => check(!known, "c18.full_missing"),
    }
    cover("c18.full.done");
}
