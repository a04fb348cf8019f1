//! C05: execution results, receipts and logs are stored, numbered and encoded faithfully.
//! bound: one integer or byte-string field at a time takes every value; every exit reason with error texts up to two ASCII bytes; at most 2 logs of at most 4 topics and 3 data bytes in the codecs, at most 3 transactions of at most 2 logs in receipt numbering, blooms of two logs with three topics of which one address or topic is arbitrary and the others are fixed
//! outside: longer lists; total gas beyond 2^64
use crate::gen::*;
use crate::spec;
use protocol::codec::ProtocolCodec;
use protocol::types::*;
use rlp::{Decodable, Encodable, Rlp};
use symrt as s;

fn rt<T: Encodable + Decodable + PartialEq + ProtocolCodec>(x: &T) -> bool {
    let wire = x.rlp_bytes();
    s::observe("wire", &wire);
    matches!(<T as Decodable>::decode(&Rlp::new(&wire)), Ok(y) if y == *x) && matches!(<T as ProtocolCodec>::decode(&wire), Ok(y) if y == *x)
}
//@ shards=6
#[no_mangle]
pub extern "C" fn h_c05_receipt() {
    let r = receipt(Sel::pick(RECEIPT_FIELDS));
    s::check(rt(&r), "c05.receipt");
}
//@ shards=6
#[no_mangle]
pub extern "C" fn h_c05_resp() {
    let r = tx_resp(Sel::pick(RESP_FIELDS));
    s::check(rt(&r), "c05.tx_resp");
}
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c05_context() {
    let c = context(Sel::pick(CONTEXT_FIELDS));
    s::check(rt(&c), "c05.context");
}
fn ok(r: &ExitReason) -> bool { matches!(r, ExitReason::Succeed(_)) }
#[no_mangle]
pub extern "C" fn h_c05_status() {
    let mut r = receipt(Sel { focus: 99, other: C::Wide });
    r.ret = exit_reason(C::Full);
    s::check(r.status() == U64::from(ok(&r.ret) as u64), "c05.status");
}
/// The consensus encoding of a receipt: status, gas, bloom, logs, behind the type byte.
//@ shards=4
#[no_mangle]
pub extern "C" fn h_c05_encode_receipt() {
    let p = Sel { focus: s::choose("@focus", 0, RESP_FIELDS - 1), other: C::Wide };
    let (r, b) = (tx_resp(p), bloom("bloom"));
    let kind = s::choose("kind", 0, 2);
    let q = Sel { focus: 99, other: C::Tiny };
    let stx = SignedTransaction { transaction: UnverifiedTransaction { unsigned: unsigned(kind, q), signature: None, chain_id: None, hash: H256::zero() }, sender: h160("sender"), public: None };
    let logs: Vec<Vec<u8>> = r.logs.iter().map(spec::log).collect();
    let body = spec::list(&[spec::n(ok(&r.exit_reason) as u64), spec::n(r.gas_used), spec::string(&b.0), spec::list(&logs)]);
    let want = if kind == 0 { body } else { [vec![kind as u8], body].concat() };
    s::check(s::same(&stx.encode_receipt(&r, b), &want), "c05.encode_receipt");
    s::check(stx.type_() == kind, "c05.type");
}
fn stx(i: usize) -> SignedTransaction {
    let q = Sel { focus: 99, other: C::Tiny };
    SignedTransaction { transaction: UnverifiedTransaction { unsigned: unsigned(0, q), signature: None, chain_id: None, hash: h256("txhash") }, sender: h160("sender"), public: None }
}
/// One receipt per transaction, in order, with block-wide log numbers.
//@ shards=7
#[no_mangle]
pub extern "C" fn h_c05_generate() {
    let (n, focus) = [(3, 0), (3, 1), (3, 2), (2, 0), (2, 1), (1, 0), (0, 0)][s::choose("@txs", 0, 6) as usize];
    let flag = |name: &str, i: usize| if i == focus { s::bool(name) } else { i == 1 };
    let counts: Vec<u64> = (0..n).map(|_| s::choose("nlogs", 0, 2)).collect();
    let txs: Vec<_> = (0..n).map(stx).collect();
    let resp: Vec<TxResp> = (0..n).map(|i: usize| {
        let logs = (0..counts[i]).map(|k| Log { address: H160([k as u8 + 1; 20]), topics: vec![H256([i as u8 + 1; 32])], data: s::vec("data", k as usize) }).collect();
        TxResp { exit_reason: if flag("ok", i) { ExitReason::Succeed(ExitSucceed::Stopped) } else { ExitReason::Revert(ExitRevert::Reverted) }, ret: vec![], gas_used: s::u64("gas"), remain_gas: 0, fee_cost: U256::zero(), logs, code_address: if flag("code", i) { Some(h256("code")) } else { None }, removed: flag("removed", i) }
    }).collect();
    let er = ExecResp { state_root: h256("state"), receipt_root: h256("rroot"), gas_used: s::u64("total"), tx_resp: resp };
    let block = Block { header: header(Sel { focus: 99, other: C::Wide }), tx_hashes: vec![] };
    let (receipts, logs) = RichBlock { block: block.clone(), txs: txs.clone() }.generate_receipts_and_logs(&er);
    s::check(receipts.len() == n && logs.len() == n, "c05.one_receipt_per_tx");
    let mut base = 0u32;
    for i in 0..receipts.len() {
        let (r, t, e) = (&receipts[i], &txs[i], &er.tx_resp[i]);
        s::check(r.tx_hash == t.transaction.hash && r.sender == t.sender, "c05.receipt_tx");
        s::check(r.block_number == block.header.number && r.block_hash == block.hash() && r.state_root == block.header.state_root, "c05.receipt_block");
        s::check(r.tx_index == i as u32, "c05.tx_index");
        s::check(r.log_index == base, "c05.log_index");
        s::check(r.used_gas == U64::from(e.gas_used) && r.code_address == e.code_address && r.ret == e.exit_reason && r.removed == e.removed && r.logs == e.logs, "c05.receipt_result");
        s::check(logs[i] == e.logs, "c05.logs");
        s::check(r.logs_bloom == logs_bloom(e.logs.iter()), "c05.receipt_bloom");
        base += e.logs.len() as u32;
    }
}
fn bits(item: &[u8]) -> [usize; 3] {
    let h = s::keccak(item);
    let f = |i: usize| ((h[i] as usize) << 8 | h[i + 1] as usize) & 2047;
    [f(0), f(2), f(4)]
}
/// The bloom of some logs is the union of three bits per address and topic, exactly.
//@ symmem=1 shards=5 cost=60
#[no_mangle]
pub extern "C" fn h_c05_bloom() {
    let k = s::choose("@item", 0, 4);
    let item = |i: u64| if i == k { h256("item") } else { H256([i as u8 * 11 + 3; 32]) };
    let addr = |i: u64| if i == k { h160("addr") } else { H160([i as u8 * 11 + 3; 20]) };
    let ls = vec![Log { address: addr(0), topics: vec![item(1), item(2)], data: vec![] }, Log { address: addr(3), topics: vec![item(4)], data: s::vec("d", 2) }];
    let got = logs_bloom(ls.iter());
    let mut all = vec![];
    for l in &ls { all.push(bits(&l.address.0)); for t in &l.topics { all.push(bits(&t.0)); } }
    let mut want = [0u8; 256];
    for k in 0..256usize {
        for t in 0..8 { let mut on = false; for b in all.iter().flatten() { on |= *b == 8 * k + t; } want[255 - k] |= (on as u8) << t; }
    }
    for k in 0..256 { s::check(got.0[k] == want[k], "c05.bloom"); }
}
#[no_mangle]
pub extern "C" fn h_c05_bloom_empty() {
    s::check(logs_bloom([].iter()) == Bloom::zero(), "c05.bloom_empty");
    let k = s::choose("@k", 0, 3) as u8;
    let l = Log { address: H160([k * 7 + 1; 20]), topics: vec![H256([k; 32])], data: vec![] };
    let got = logs_bloom([l.clone()].iter());
    let mut want = Bloom::zero();
    for b in [bits(&l.address.0), bits(&l.topics[0].0)].iter().flatten() { want.0[255 - b / 8] |= 1 << (b % 8); }
    s::check(got == want, "c05.bloom_exact");
}
/// A block's bloom covers the logs of its transactions.
#[no_mangle]
pub extern "C" fn h_c05_header_bloom() {
    let k = s::choose("@k", 0, 3) as u8;
    let l = Log { address: H160([k * 7 + 1; 20]), topics: vec![], data: vec![] };
    let r = TxResp { logs: vec![l.clone()], ..Default::default() };
    let b = Block::new(proposal(Sel { focus: 99, other: C::Wide }), ExecResp { state_root: H256::zero(), receipt_root: H256::zero(), gas_used: 0, tx_resp: vec![r] });
    s::check(b.header.log_bloom.contains_bloom(&logs_bloom([l].iter())), "c05.header_bloom");
}
