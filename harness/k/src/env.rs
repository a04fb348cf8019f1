//! A node around the consensus crate: storage, pool, network and executor in
//! memory, a chain of two blocks with proofs, and four validators.
use common_crypto::{BlsPrivateKey, BlsSignature, HashValue, PrivateKey, Signature, ToBlsPublicKey, PublicKey};
use core_consensus::{engine::ConsensusEngine, status::*, stop_signal::StopSignal, util::OverlordCrypto, ConsensusWal, OverlordConsensusAdapter, SignedTxsWAL};
use core_executor as ex;
use overlord::types::{Vote, VoteType};
use protocol::{async_trait, codec::ProtocolCodec, tokio::sync::Mutex as AsyncMutex, traits::*, types::*, ProtocolError, ProtocolErrorKind, ProtocolResult};
use std::any::Any;
use std::collections::HashMap;
use std::sync::Arc;
use symrt::*;

pub const CHAIN: u64 = 0x2022;
pub const LIMIT: u64 = protocol::constants::MAX_BLOCK_GAS_LIMIT;
pub fn err() -> ProtocolError { ProtocolError::new(ProtocolErrorKind::Storage, Box::new(std::fmt::Error)) }

// ---- what the node stores, and a fault at one of its writes
#[derive(Default)]
pub struct Disk { pub blocks: Vec<Block>, pub latest: u64, pub txs: Vec<(u64, SignedTransaction)>, pub receipts: Vec<(u64, Receipt)>, pub proof: Proof, pub fork: Option<HardforkInfoInner>, pub writes: usize, pub fail_at: Option<usize> }
pub static mut DISK: Option<Disk> = None;
pub fn disk() -> &'static mut Disk { unsafe { DISK.get_or_insert_with(Disk::default) } }
fn write() -> ProtocolResult<&'static mut Disk> { let d = disk(); d.writes += 1; if d.fail_at == Some(d.writes - 1) { return Err(err()) } Ok(d) }
pub fn block(n: u64) -> Option<Block> { disk().blocks.iter().rev().find(|b| b.header.number == n).cloned() }
fn find(h: &Hash) -> Option<SignedTransaction> { disk().txs.iter().find(|t| t.1.transaction.hash == *h).map(|t| t.1.clone()) }
pub struct Store;
#[async_trait]
impl ReadOnlyStorage for Store {
    async fn get_block(&self, _: Context, n: u64) -> ProtocolResult<Option<Block>> { Ok(block(n)) }
    async fn get_block_header(&self, _: Context, n: u64) -> ProtocolResult<Option<Header>> { Ok(block(n).map(|b| b.header)) }
    async fn get_latest_block(&self, _: Context) -> ProtocolResult<Block> { block(disk().latest).ok_or_else(err) }
    async fn get_latest_block_header(&self, _: Context) -> ProtocolResult<Header> { block(disk().latest).map(|b| b.header).ok_or_else(err) }
    async fn get_block_by_hash(&self, _: Context, h: &Hash) -> ProtocolResult<Option<Block>> { Ok(disk().blocks.iter().find(|b| b.hash() == *h).cloned()) }
    async fn get_block_number_by_hash(&self, _: Context, h: &Hash) -> ProtocolResult<Option<u64>> { Ok(disk().blocks.iter().find(|b| b.hash() == *h).map(|b| b.header.number)) }
    async fn get_transactions(&self, _: Context, _: u64, h: &[Hash]) -> ProtocolResult<Vec<Option<SignedTransaction>>> { Ok(h.iter().map(find).collect()) }
    async fn get_transaction_by_hash(&self, _: Context, h: &Hash) -> ProtocolResult<Option<SignedTransaction>> { Ok(find(h)) }
    async fn get_code_by_hash(&self, _: Context, _: &Hash) -> ProtocolResult<Option<Bytes>> { Ok(None) }
    async fn get_code_by_address(&self, _: Context, _: &H256) -> ProtocolResult<Option<Bytes>> { Ok(None) }
    async fn get_receipt_by_hash(&self, _: Context, h: &Hash) -> ProtocolResult<Option<Receipt>> { Ok(disk().receipts.iter().find(|r| r.1.tx_hash == *h).map(|r| r.1.clone())) }
    async fn get_receipts(&self, _: Context, _: u64, h: &[Hash]) -> ProtocolResult<Vec<Option<Receipt>>> { Ok(h.iter().map(|h| disk().receipts.iter().find(|r| r.1.tx_hash == *h).map(|r| r.1.clone())).collect()) }
    async fn get_latest_proof(&self, _: Context) -> ProtocolResult<Proof> { Ok(disk().proof.clone()) }
    async fn hardfork_proposal(&self, _: Context) -> ProtocolResult<Option<HardforkInfoInner>> { Ok(disk().fork.clone()) }
}
#[async_trait]
impl Storage for Store {
    async fn insert_block(&self, _: Context, b: Block) -> ProtocolResult<()> { let d = write()?; d.latest = b.header.number; d.blocks.push(b); Ok(()) }
    async fn set_block(&self, _: Context, b: Block) -> ProtocolResult<()> { write()?.blocks.push(b); Ok(()) }
    async fn remove_block(&self, _: Context, n: u64) -> ProtocolResult<()> { write()?.blocks.retain(|b| b.header.number != n); Ok(()) }
    async fn set_latest_block(&self, _: Context, b: Block) -> ProtocolResult<()> { write()?.latest = b.header.number; Ok(()) }
    async fn insert_transactions(&self, _: Context, n: u64, t: Vec<SignedTransaction>) -> ProtocolResult<()> { let d = write()?; d.txs.retain(|x| x.0 != n); d.txs.extend(t.into_iter().map(|t| (n, t))); Ok(()) }
    async fn insert_receipts(&self, _: Context, n: u64, r: Vec<Receipt>) -> ProtocolResult<()> { let d = write()?; d.receipts.retain(|x| x.0 != n); d.receipts.extend(r.into_iter().map(|r| (n, r))); Ok(()) }
    async fn insert_code(&self, _: Context, _: H256, _: Hash, _: Bytes) -> ProtocolResult<()> { Ok(()) }
    async fn update_latest_proof(&self, _: Context, p: Proof) -> ProtocolResult<()> { write()?.proof = p; Ok(()) }
    async fn set_hardfork_proposal(&self, _: Context, h: HardforkInfoInner) -> ProtocolResult<()> { write()?.fork = Some(h); Ok(()) }
    async fn remove_hardfork_proposal(&self, _: Context) -> ProtocolResult<()> { write()?.fork = None; Ok(()) }
}

// ---- pool
#[derive(Default)]
pub struct PoolState { pub txs: Vec<SignedTransaction>, pub refuse: bool, pub flushed: Vec<(u64, Vec<Hash>)>, pub args: Option<(MerkleRoot, u64, u64)>, pub asked: Vec<u64> }
pub static mut POOL: Option<PoolState> = None;
pub fn pool() -> &'static mut PoolState { unsafe { POOL.get_or_insert_with(PoolState::default) } }
pub struct Pool;
#[async_trait]
impl MemPool for Pool {
    async fn insert(&self, _: Context, t: SignedTransaction) -> ProtocolResult<()> { pool().txs.push(t); Ok(()) }
    async fn contains(&self, _: Context, h: &Hash) -> bool { pool().txs.iter().any(|t| t.transaction.hash == *h) }
    async fn package(&self, _: Context, _: U256, n: u64) -> ProtocolResult<PackedTxHashes> { Ok(PackedTxHashes { hashes: pool().txs.iter().take(n as usize).map(|t| t.transaction.hash).collect(), call_system_script_count: 0 }) }
    async fn flush(&self, _: Context, h: &[Hash], n: u64) -> ProtocolResult<()> { pool().flushed.push((n, h.to_vec())); Ok(()) }
    async fn get_full_txs(&self, _: Context, _: Option<u64>, h: &[Hash]) -> ProtocolResult<Vec<SignedTransaction>> { h.iter().map(|h| pool().txs.iter().find(|t| t.transaction.hash == *h).cloned().ok_or_else(err)).collect() }
    async fn ensure_order_txs(&self, _: Context, n: Option<u64>, h: &[Hash]) -> ProtocolResult<()> { let _ = n; if pool().refuse || h.iter().any(|h| !pool().txs.iter().any(|t| t.transaction.hash == *h)) { Err(err()) } else { Ok(()) } }
    async fn get_tx_count_by_address(&self, _: Context, _: H160) -> ProtocolResult<(usize, Option<u64>)> { Ok((0, None)) }
    fn get_tx_from_mem(&self, _: Context, h: &Hash) -> Option<SignedTransaction> { pool().txs.iter().find(|t| t.transaction.hash == *h).cloned() }
    fn set_args(&self, _: Context, r: MerkleRoot, g: u64, m: u64) { pool().args = Some((r, g, m)) }
}

// ---- network: what the peer answers
#[derive(Default)]
pub struct Peer { pub blocks: Vec<Block>, pub proofs: Vec<Proof>, pub txs: Vec<SignedTransaction>, pub sent: Vec<u64>, pub answers: Vec<Box<dyn Any>>, pub silent: bool, pub tagged: Vec<Vec<Bytes>> }
pub static mut PEER: Option<Peer> = None;
pub fn peer() -> &'static mut Peer { unsafe { PEER.get_or_insert_with(Peer::default) } }
#[derive(Clone)]
pub struct Net;
fn cast<A: 'static, B: 'static>(a: A) -> Option<B> { (Box::new(a) as Box<dyn Any>).downcast::<B>().ok().map(|b| *b) }
#[async_trait]
impl Rpc for Net {
    async fn call<M, R>(&self, _: Context, _: &str, m: M, _: Priority) -> ProtocolResult<R> where M: MessageCodec, R: MessageCodec {
        use core_consensus::types::PullTxsRequest;
        let p = peer();
        if p.silent { return Err(err()) }
        let m = match cast::<M, PullTxsRequest>(m) {
            Some(q) => { let _ = q; let t = p.txs.clone(); return cast(BatchSignedTxs(t)).ok_or_else(err) }
            None => (),
        };
        let _ = m;
        if let Some(r) = p.blocks.first().cloned().and_then(cast::<Block, R>) { p.blocks.remove(0); return Ok(r) }
        if let Some(r) = p.proofs.first().cloned().and_then(cast::<Proof, R>) { p.proofs.remove(0); return Ok(r) }
        Err(err())
    }
    async fn response<M>(&self, _: Context, _: &str, r: ProtocolResult<M>, _: Priority) -> ProtocolResult<()> where M: MessageCodec { if let Ok(m) = r { peer().answers.push(Box::new(m)) } Ok(()) }
}
#[async_trait]
impl Gossip for Net {
    async fn broadcast<M>(&self, _: Context, _: &str, m: M, _: Priority) -> ProtocolResult<()> where M: MessageCodec { if let Some(n) = cast::<M, u64>(m) { peer().sent.push(n) } Ok(()) }
    async fn gossip<M>(&self, _: Context, _: Option<usize>, _: &str, _: M, _: Priority) -> ProtocolResult<()> where M: MessageCodec { Ok(()) }
    async fn multicast<'a, M, P>(&self, _: Context, _: &str, _: P, _: M, _: Priority) -> ProtocolResult<()> where M: MessageCodec, P: AsRef<[Bytes]> + Send + 'a { Ok(()) }
}
impl PeerTrust for Net { fn report(&self, _: Context, _: TrustFeedback) {} }
impl Network for Net {
    fn tag(&self, _: Context, _: Bytes, _: PeerTag) -> ProtocolResult<()> { Ok(()) }
    fn untag(&self, _: Context, _: Bytes, _: &PeerTag) -> ProtocolResult<()> { Ok(()) }
    fn tag_consensus(&self, _: Context, k: Vec<Bytes>) -> ProtocolResult<()> { peer().tagged.push(k); Ok(()) }
    fn peer_count(&self, _: Context) -> ProtocolResult<usize> { Ok(1) }
}

// ---- validators
pub fn key(i: usize) -> BlsPrivateKey { BlsPrivateKey::try_from(&[i as u8 + 1; 32][..]).unwrap() }
/// Node keys: in the order of the list, their sorted order is another.
pub const NODE: [u8; 4] = [0x33, 0x11, 0x44, 0x22];
pub static mut WEIGHTS: [u32; 4] = [1; 4];
pub static mut VALIDATORS: usize = 4;
pub fn node_key(i: usize) -> Bytes { let mut k = vec![2u8]; k.extend_from_slice(&[NODE[i]; 32]); k.into() }
pub fn validator(i: usize) -> ValidatorExtend { ValidatorExtend { bls_pub_key: Hex::encode(key(i).pub_key(&String::new()).to_bytes()), pub_key: Hex::encode(node_key(i)), address: H160::repeat_byte(NODE[i]), propose_weight: 1, vote_weight: unsafe { WEIGHTS[i] } } }
pub static mut EPOCH_END: u64 = 1000;
fn metadata(n: u64) -> Option<Metadata> {
    let cfg = ConsensusConfig { gas_limit: LIMIT, interval: 3000, propose_ratio: 15, prevote_ratio: 10, precommit_ratio: 10, brake_ratio: 10, tx_num_limit: 10, max_tx_size: 4096, max_contract_limit: 0x6000 };
    let end = unsafe { EPOCH_END };
    let mut list: Vec<ValidatorExtend> = (0..unsafe { VALIDATORS }).map(validator).collect();
    let version = if n <= end { MetadataVersion::new(0, end) } else { list.reverse(); list.truncate(3); MetadataVersion::new(end + 1, end + 1000) };
    Some(Metadata { version, epoch: if n <= end { 0 } else { 1 }, verifier_list: list, propose_counter: vec![], consensus_config: cfg })
}
/// What the executor makes of a state, a block's environment and transactions.
pub static mut EXECUTED: usize = 0;
fn exec(root: H256, ctx: &ExecutorContext, txs: &[SignedTransaction], _: &[ValidatorExtend]) -> ExecResp {
    unsafe { EXECUTED += 1 }
    let mut b = root.0.to_vec();
    b.extend_from_slice(&ctx.block_number.low_u64().to_be_bytes());
    b.extend_from_slice(&ctx.block_coinbase.0);
    b.extend_from_slice(&ctx.block_timestamp.low_u64().to_be_bytes());
    b.extend_from_slice(&ctx.chain_id.low_u64().to_be_bytes());
    for t in txs { b.extend_from_slice(&t.transaction.hash.0) }
    let state_root = H256(keccak(&b));
    let logs = |i: usize| if i == 0 { vec![Log { address: H160::repeat_byte(9), topics: vec![H256::repeat_byte(8)], data: vec![1] }] } else { vec![] };
    ExecResp { state_root, receipt_root: H256(keccak(&state_root.0)), gas_used: 21_000 * txs.len() as u64, tx_resp: (0..txs.len()).map(|i| TxResp { gas_used: 21_000, logs: logs(i), ..TxResp::default() }).collect() }
}
pub fn tx(v: u64) -> SignedTransaction {
    let unsigned = UnsignedTransaction::Legacy(LegacyTransaction { nonce: v.into(), gas_price: 1.into(), gas_limit: 21_000.into(), action: TransactionAction::Call(H160::repeat_byte(4)), value: 1.into(), data: Bytes::new() });
    let sig = SignatureComponents { r: vec![5u8; 32].into(), s: vec![6u8; 32].into(), standard_v: 1 };
    SignedTransaction::from_unverified(UnverifiedTransaction { unsigned, signature: Some(sig), chain_id: Some(CHAIN), hash: H256::zero() }.calc_hash()).unwrap()
}
pub fn vote_hash(number: u64, round: u64, hash: &Hash) -> HashValue {
    let v = Vote { height: number, round, vote_type: VoteType::Precommit, block_hash: hash.0.to_vec().into() };
    HashValue::try_from(&keccak(&rlp::encode(&v))[..]).unwrap()
}
/// The signers' votes for a proposal, with the bitmap over the sorted keys.
pub fn sign(number: u64, round: u64, hash: &Hash, signers: &[usize]) -> Proof {
    let m = vote_hash(number, round, hash);
    let l: Vec<_> = signers.iter().map(|i| (key(*i).sign_message(&m), key(*i).pub_key(&String::new()))).collect();
    let signature = if l.is_empty() { vec![0u8; 96].into() } else { BlsSignature::combine(l).unwrap().to_bytes() };
    Proof { number, round, block_hash: *hash, signature, bitmap: vec![bits(signers)].into() }
}
pub fn bits(signers: &[usize]) -> u8 { signers.iter().fold(0, |b, i| b | 0x80 >> place(*i)) }
/// A validator's place among the sorted keys.
pub fn place(i: usize) -> usize { (0..unsafe { VALIDATORS }).filter(|j| NODE[*j] < NODE[i]).count() }
pub fn root(h: &[Hash]) -> MerkleRoot { if h.is_empty() { return RLP_NULL } common_merkle::TrieMerkle::from_iter(h.iter().enumerate()).root_hash().unwrap() }
/// The right proposal on top of the stored chain.
pub fn proposal(txs: &[SignedTransaction]) -> Proposal {
    let last = block(disk().latest).unwrap();
    let tx_hashes: Vec<Hash> = txs.iter().map(|t| t.transaction.hash).collect();
    Proposal { version: BlockVersion::V0, prev_hash: last.hash(), proposer: H160::repeat_byte(0x77), prev_state_root: last.header.state_root, transactions_root: root(&tx_hashes), signed_txs_hash: if txs.is_empty() { RLP_EMPTY_LIST } else { H256(keccak(&rlp::encode_list(txs))) }, timestamp: last.header.timestamp + 3, number: last.header.number + 1, gas_limit: LIMIT.into(), extra_data: vec![], base_fee_per_gas: protocol::constants::BASE_FEE_PER_GAS.into(), proof: disk().proof.clone(), chain_id: CHAIN, call_system_script_count: 0, tx_hashes }
}
pub fn executed(p: &Proposal, txs: &[SignedTransaction]) -> ExecResp { let r = exec(p.prev_state_root, &p.clone().into(), txs, &[]); unsafe { EXECUTED -= 1 } r }
/// The block a proposal makes, and the votes for it.
pub fn consented(p: &Proposal, txs: &[SignedTransaction], signers: &[usize]) -> (Block, Proof) { (Block::new(p.clone(), executed(p, txs)), sign(p.number, 2, &p.hash(), signers)) }
/// Genesis and two blocks.
pub fn chain() { chain_of(2) }
pub fn chain_of(n: usize) {
    fakefs::reset();
    unsafe { ex::METADATA = metadata; ex::EXEC = exec; EXECUTED = 0; fakefs::NOW = 1_000_000; fakefs::TICK = || {}; DISK = None; POOL = None; PEER = None }
    let mut g = Block::default();
    g.header.chain_id = CHAIN;
    g.header.timestamp = 100;
    g.header.state_root = H256::repeat_byte(0xee);
    g.header.gas_limit = LIMIT.into();
    disk().blocks.push(g);
    for i in 0..n { push(&proposal(&[]), &[0, 1, 2 + i % 2]) }
}
pub fn push(p: &Proposal, signers: &[usize]) { let (b, pf) = consented(p, &[], signers); disk().latest = b.header.number; disk().blocks.push(b); disk().proof = pf }
/// The status a node starts with from what it stored.
pub fn status() -> StatusAgent {
    let last = block(disk().latest).unwrap();
    StatusAgent::new(CurrentStatus { prev_hash: last.hash(), last_number: last.header.number, last_state_root: last.header.state_root, tx_num_limit: 10, max_tx_size: 4096.into(), proof: disk().proof.clone() })
}
pub type Adapter = OverlordConsensusAdapter<Pool, Net, Store, protocol::trie::MemoryDB>;
pub fn crypto() -> Arc<OverlordCrypto> {
    let m: HashMap<Bytes, _> = (0..unsafe { VALIDATORS }).map(|i| (node_key(i), key(i).pub_key(&String::new()))).collect();
    Arc::new(OverlordCrypto::new(key(0), m, String::new()))
}
pub fn adapter() -> Arc<Adapter> { adapter_with(crypto()) }
fn adapter_with(c: Arc<OverlordCrypto>) -> Arc<Adapter> { Arc::new(OverlordConsensusAdapter::new(Arc::new(Net), Arc::new(Pool), Arc::new(Store), Arc::new(protocol::trie::MemoryDB::new(false)), c).unwrap()) }
pub struct Node { pub engine: ConsensusEngine<Adapter>, pub status: StatusAgent, pub lock: Arc<AsyncMutex<()>>, pub info: NodeInfo, pub wal: Arc<SignedTxsWAL>, pub adapter: Arc<Adapter>, pub crypto: Arc<OverlordCrypto> }
pub fn peer_id(i: usize) -> Bytes { use core_network::{PeerId, PeerIdExt}; PeerId::from_pubkey_bytes(node_key(i)).unwrap().into_bytes_ext() }
pub fn node(fork: Option<HardforkInfoInner>) -> Node {
    let (s, _r) = protocol::tokio::sync::oneshot::channel();
    node_stop(fork, StopSignal::new(s))
}
pub fn node_stop(fork: Option<HardforkInfoInner>, stop: StopSignal) -> Node {
    let me = common_crypto::Secp256k1PublicKey::try_from(&node_key(0)[..]).unwrap();
    let info = NodeInfo::new(CHAIN, me, fork);
    let crypto = crypto();
    let (status, lock, wal, adapter) = (status(), Arc::new(AsyncMutex::new(())), Arc::new(SignedTxsWAL::new("/txs")), adapter_with(Arc::clone(&crypto)));
    let engine = ConsensusEngine::new(status.clone(), info.clone(), Arc::clone(&wal), Arc::clone(&adapter), Arc::clone(&crypto), Arc::clone(&lock), Arc::new(ConsensusWal::new("/wal")), stop);
    Node { engine, status, lock, info, wal, adapter, crypto }
}
