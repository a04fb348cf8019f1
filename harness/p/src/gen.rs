//! Arbitrary values of the protocol's types.
//!
//! Integers take part in RLP length arithmetic, one path per byte length, so a
//! value is generated in one of three classes: `Full` (any value), `Tiny`
//! (1..=0x7f, one encoded byte) and `Wide` (top byte set, the longest form).
use protocol::types::*;
use self::src as s;

/// Where values come from: the engine, or with `fixed` set a fixed stream (used to
/// build a concrete encoding of which only one place is then made arbitrary).
pub mod src {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    static STATE: AtomicU64 = AtomicU64::new(0);
    pub fn fixed(seed: u64) { STATE.store(seed, Relaxed) }
    fn next() -> Option<u64> {
        let x = STATE.load(Relaxed);
        if x == 0 { return None; }
        let y = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
        STATE.store(y, Relaxed);
        Some(y >> 33)
    }
    fn byte() -> Option<u8> { next().map(|x| (x % 255) as u8 + 1) }
    pub fn u8(n: &str) -> u8 { match byte() { Some(b) => (b & 0x7f).max(1), None => symrt::u8(n) } }
    pub fn arr<const N: usize>(n: &str) -> [u8; N] {
        if STATE.load(Relaxed) == 0 { return symrt::arr(n); }
        let mut a = [0; N];
        for x in a.iter_mut() { *x = byte().unwrap(); }
        a
    }
    pub fn vec(n: &str, k: usize) -> Vec<u8> { if STATE.load(Relaxed) == 0 { symrt::vec(n, k) } else { (0..k).map(|_| byte().unwrap()).collect() } }
    pub fn u16(n: &str) -> u16 { u16::from_le_bytes(arr(n)) }
    pub fn u32(n: &str) -> u32 { u32::from_le_bytes(arr(n)) }
    pub fn u64(n: &str) -> u64 { u64::from_le_bytes(arr(n)) }
    pub fn bool(n: &str) -> bool { u8(n) & 1 == 1 }
    pub fn choose(n: &str, lo: u64, hi: u64) -> u64 { match next() { Some(x) => lo + x % (hi - lo + 1), None => symrt::choose(n, lo, hi) } }
    pub fn assume(b: bool) { if STATE.load(Relaxed) == 0 { symrt::assume(b) } }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum C { Full, Tiny, Wide }

/// Makes the field number `k` full and every other field `other`.
#[derive(Clone, Copy)]
pub struct Sel { pub focus: u64, pub other: C }
impl Sel {
    pub fn pick(n: u64) -> Sel {
        let focus = s::choose("@focus", 0, n - 1);
        let other = if s::choose("other", 0, 1) == 0 { C::Tiny } else { C::Wide };
        Sel { focus, other }
    }
    pub fn at(&self, k: u64) -> C { if k == self.focus { C::Full } else { self.other } }
}

pub fn n64(name: &str, c: C) -> u64 {
    match c {
        C::Full => s::u64(name),
        C::Tiny => { let v = s::u8(name); s::assume(v >= 1 && v < 0x80); v as u64 }
        C::Wide => { let v = s::u64(name); s::assume(v >> 56 != 0); v }
    }
}
pub fn n32(name: &str, c: C) -> u32 {
    match c {
        C::Full => s::u32(name),
        C::Tiny => { let v = s::u8(name); s::assume(v >= 1 && v < 0x80); v as u32 }
        C::Wide => { let v = s::u32(name); s::assume(v >> 24 != 0); v }
    }
}
pub fn n256(name: &str, c: C) -> U256 {
    match c {
        C::Full => U256::from_little_endian(&s::arr::<32>(name)),
        C::Tiny => { let v = s::u8(name); s::assume(v >= 1 && v < 0x80); U256::from(v) }
        C::Wide => { let v = s::arr::<32>(name); s::assume(v[31] != 0); U256::from_little_endian(&v) }
    }
}
pub fn h256(name: &str) -> H256 { H256(s::arr(name)) }
pub fn h160(name: &str) -> H160 { H160(s::arr(name)) }
pub fn bloom(name: &str) -> Bloom { Bloom(s::arr(name)) }
/// Byte string: `Full` any length 0..=max, `Tiny` empty, `Wide` exactly `max` bytes.
pub fn bytes(name: &str, c: C, max: u64) -> Bytes {
    let n = match c { C::Full => s::choose(&format_len(name), 0, max), C::Tiny => 0, C::Wide => max };
    Bytes::from(s::vec(name, n as usize))
}
pub fn format_len(name: &str) -> String { let mut t = String::from(name); t.push_str(".len"); t }

pub fn action(name: &str) -> TransactionAction {
    if s::choose(name, 0, 1) == 0 { TransactionAction::Create } else { TransactionAction::Call(h160("to")) }
}
/// Access list with `items` entries of up to two keys each.
pub fn access(c: C) -> AccessList {
    let n = match c { C::Full => s::choose("acl.len", 0, 2), C::Tiny => 0, C::Wide => 1 };
    (0..n).map(|_| {
        let k = if c == C::Full { s::choose("acl.keys", 0, 2) } else { 1 };
        AccessListItem { address: h160("acl.addr"), storage_keys: (0..k).map(|_| h256("acl.key")).collect() }
    }).collect()
}
pub const TX_FIELDS: u64 = 9;
/// An unsigned transaction of the chosen kind (0 legacy, 1 EIP-2930, 2 EIP-1559).
pub fn unsigned(kind: u64, p: Sel) -> UnsignedTransaction {
    let nonce = U64::from(n64("nonce", p.at(0)));
    let gas_price = U64::from(n64("gas_price", p.at(1)));
    let gas_limit = U64::from(n64("gas_limit", p.at(2)));
    let value = n256("value", p.at(3));
    let data = bytes("data", p.at(4), 5);
    let action = action("create");
    match kind {
        0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price, gas_limit, action, value, data }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_price, gas_limit, action, value, data, access_list: access(p.at(5)) }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction { nonce, max_priority_fee_per_gas: U64::from(n64("priority", p.at(6))), gas_price, gas_limit, action, value, data, access_list: access(p.at(5)) }),
    }
}
/// Ethereum signature: 32-byte r and s (leading zero bytes allowed), y parity 0 or 1.
pub fn eth_sig(p: Sel) -> SignatureComponents {
    let be = |name: &str, c: C| { let mut b = [0u8; 32]; n256(name, c).to_big_endian(&mut b); Bytes::from(b.to_vec()) };
    let v = s::u8("v") & 1;
    SignatureComponents { r: be("r", p.at(7)), s: be("s", p.at(8)), standard_v: v }
}
/// Interoperability signature: r and s are byte strings, together longer than 64 bytes.
pub fn interop_sig() -> SignatureComponents {
    let lens = [(1u64, 64u64), (65, 0), (0, 65), (33, 32), (40, 40)];
    let (a, b) = lens[s::choose("siglen", 0, 4) as usize];
    let v = s::u8("v") & 1;
    SignatureComponents { r: Bytes::from(s::vec("ir", a as usize)), s: Bytes::from(s::vec("is", b as usize)), standard_v: v }
}

// ---- blocks, receipts, consensus data.  `p` says which field is arbitrary.
pub fn extra(c: C) -> Vec<ExtraData> {
    let n = match c { C::Full => s::choose("extra.len", 0, 2), C::Tiny => 0, C::Wide => 1 };
    (0..n).map(|_| ExtraData { inner: bytes("extra", if c == C::Full { C::Full } else { C::Wide }, 3) }).collect()
}
pub fn hashes(name: &str, c: C) -> Vec<H256> {
    let n = match c { C::Full => s::choose(&format_len(name), 0, 3), C::Tiny => 0, C::Wide => 1 };
    (0..n).map(|_| h256(name)).collect()
}
/// fields `k`..`k`+4
pub fn proof(p: Sel, k: u64) -> Proof {
    Proof { number: n64("proof.number", p.at(k)), round: n64("proof.round", p.at(k + 1)), block_hash: h256("proof.hash"), signature: bytes("proof.sig", p.at(k + 2), 3), bitmap: bytes("proof.bitmap", p.at(k + 3), 3) }
}
pub const HEADER_FIELDS: u64 = 12;
pub fn header(p: Sel) -> Header {
    Header {
        version: BlockVersion::V0, prev_hash: h256("prev_hash"), proposer: h160("proposer"), state_root: h256("state_root"), transactions_root: h256("transactions_root"),
        signed_txs_hash: h256("signed_txs_hash"), receipts_root: h256("receipts_root"), log_bloom: bloom("log_bloom"),
        timestamp: n64("timestamp", p.at(0)), number: n64("number", p.at(1)), gas_used: U64::from(n64("gas_used", p.at(2))), gas_limit: U64::from(n64("gas_limit", p.at(3))),
        extra_data: extra(p.at(4)), base_fee_per_gas: U64::from(n64("base_fee", p.at(5))), proof: proof(p, 6),
        call_system_script_count: n32("script_count", p.at(10)), chain_id: n64("chain", p.at(11)),
    }
}
pub const PROPOSAL_FIELDS: u64 = 10;
/// `base_fee_per_gas` and `chain_id` are not carried by the encoding: the decoder
/// fills in the protocol constant and the node's chain id.
pub fn proposal(p: Sel) -> Proposal {
    Proposal {
        version: BlockVersion::V0, prev_hash: h256("prev_hash"), proposer: h160("proposer"), prev_state_root: h256("prev_state_root"), transactions_root: h256("transactions_root"),
        signed_txs_hash: h256("signed_txs_hash"), timestamp: n64("timestamp", p.at(0)), number: n64("number", p.at(1)), gas_limit: U64::from(n64("gas_limit", p.at(2))),
        extra_data: extra(p.at(3)), base_fee_per_gas: U64::from(protocol::constants::BASE_FEE_PER_GAS), proof: proof(p, 4), chain_id: **protocol::lazy::CHAIN_ID.load(),
        call_system_script_count: n32("script_count", p.at(8)), tx_hashes: hashes("txh", p.at(9)),
    }
}
pub fn log(c: C) -> Log {
    let n = match c { C::Full => s::choose("topics", 0, 4), C::Tiny => 0, C::Wide => 1 };
    Log { address: h160("log.addr"), topics: (0..n).map(|_| h256("log.topic")).collect(), data: s::vec("log.data", match c { C::Full => s::choose("log.data.len", 0, 3), C::Tiny => 0, C::Wide => 3 } as usize) }
}
pub fn logs(c: C) -> Vec<Log> {
    let n = match c { C::Full => s::choose("logs", 0, 2), C::Tiny => 0, C::Wide => 1 };
    (0..n).map(|i| log(if i == 0 { c } else { C::Wide })).collect()
}
/// Every exit reason, error texts up to two bytes.
pub fn exit_reason(c: C) -> ExitReason {
    use evm::{ExitError as E, ExitFatal as F, ExitRevert, ExitSucceed as S};
    if c == C::Tiny { return ExitReason::Succeed(S::Returned); }
    if c == C::Wide { return ExitReason::Revert(ExitRevert::Reverted); }
    let err = |k: u64| -> E {
        match k {
            0 => E::StackUnderflow, 1 => E::StackOverflow, 2 => E::InvalidJump, 3 => E::InvalidRange, 4 => E::DesignatedInvalid, 5 => E::CallTooDeep, 6 => E::CreateCollision, 7 => E::CreateContractLimit,
            8 => E::OutOfOffset, 9 => E::OutOfGas, 10 => E::OutOfFund, 11 => E::PCUnderflow, 12 => E::CreateEmpty,
            13 => { let a = s::u8("why"); s::assume(a < 128); let n = s::choose("why.len", 0, 2); let mut t = String::new(); for _ in 0..n { t.push(a as char); } E::Other(t.into()) }
            _ => E::InvalidCode(evm::Opcode(s::u8("opcode"))),
        }
    };
    match s::choose("exit", 0, 3) {
        0 => ExitReason::Succeed(match s::choose("ok", 0, 2) { 0 => S::Stopped, 1 => S::Returned, _ => S::Suicided }),
        1 => ExitReason::Error(err(s::choose("err", 0, 14))),
        2 => ExitReason::Revert(ExitRevert::Reverted),
        _ => ExitReason::Fatal(match s::choose("fatal", 0, 2) { 0 => F::NotSupported, 1 => F::UnhandledInterrupt, _ => F::CallErrorAsFatal(err(s::choose("ferr", 0, 13))) }),
    }
}
pub fn receipt(p: Sel) -> Receipt {
    Receipt {
        tx_hash: h256("tx_hash"), block_number: n64("number", p.at(0)), block_hash: h256("block_hash"), tx_index: n32("tx_index", p.at(1)), state_root: h256("state_root"),
        used_gas: U64::from(n64("used_gas", p.at(2))), logs_bloom: bloom("bloom"), logs: logs(p.at(3)), log_index: n32("log_index", p.at(4)),
        code_address: if s::choose("code", 0, 1) == 1 { Some(h256("code_address")) } else { None }, sender: h160("sender"), ret: exit_reason(p.at(5)), removed: s::bool("removed"),
    }
}
pub const RECEIPT_FIELDS: u64 = 6;
pub fn tx_resp(p: Sel) -> TxResp {
    TxResp {
        exit_reason: exit_reason(p.at(0)), ret: bytes("ret", p.at(1), 4).to_vec(), gas_used: n64("gas_used", p.at(2)), remain_gas: n64("remain_gas", p.at(3)), fee_cost: n256("fee_cost", p.at(4)),
        logs: logs(p.at(5)), code_address: if s::choose("code", 0, 1) == 1 { Some(h256("code_address")) } else { None }, removed: s::bool("removed"),
    }
}
pub const RESP_FIELDS: u64 = 6;
pub fn context(p: Sel) -> ExecutorContext {
    ExecutorContext {
        block_number: n256("number", p.at(0)), block_coinbase: h160("coinbase"), block_timestamp: n256("timestamp", p.at(1)), chain_id: n256("chain", p.at(2)), origin: h160("origin"),
        gas_price: n256("gas_price", p.at(3)), block_gas_limit: U64::from(n64("gas_limit", p.at(4))), block_base_fee_per_gas: U64::from(n64("base_fee", p.at(5))), extra_data: extra(p.at(6)),
    }
}
pub const CONTEXT_FIELDS: u64 = 7;
pub fn hex(name: &str, c: C, max: u64) -> Hex { Hex::encode(bytes(name, c, max)) }
pub fn validator(p: Sel, k: u64) -> ValidatorExtend {
    ValidatorExtend { bls_pub_key: hex("bls", p.at(k), 3), pub_key: hex("pub", p.at(k + 1), 3), address: h160("address"), propose_weight: n32("pw", p.at(k + 2)), vote_weight: n32("vw", p.at(k + 3)) }
}
pub fn plain_validator(p: Sel, k: u64) -> Validator {
    Validator { bls_pub_key: hex("bls", p.at(k), 3), pub_key: hex("pub", p.at(k + 1), 3), propose_weight: n32("pw", p.at(k + 2)), vote_weight: n32("vw", p.at(k + 3)) }
}
/// fields `k`..`k`+9
pub fn consensus_config(p: Sel, k: u64) -> ConsensusConfig {
    ConsensusConfig {
        gas_limit: n64("cc.gas_limit", p.at(k)), interval: n64("cc.interval", p.at(k + 1)), propose_ratio: n64("cc.propose", p.at(k + 2)), prevote_ratio: n64("cc.prevote", p.at(k + 3)), precommit_ratio: n64("cc.precommit", p.at(k + 4)),
        brake_ratio: n64("cc.brake", p.at(k + 5)), tx_num_limit: n64("cc.num", p.at(k + 6)), max_tx_size: n64("cc.size", p.at(k + 7)), max_contract_limit: n64("cc.contract", p.at(k + 8)),
    }
}
pub fn version(p: Sel, k: u64) -> MetadataVersion { MetadataVersion { start: n64("start", p.at(k)), end: n64("end", p.at(k + 1)) } }
pub const METADATA_FIELDS: u64 = 19;
/// With at most two validators and two counters.
pub fn metadata(p: Sel) -> Metadata {
    let n = if p.focus == 17 { s::choose("validators", 0, 2) } else { 1 };
    let m = if p.focus == 18 { s::choose("counters", 0, 2) } else { 1 };
    Metadata {
        version: version(p, 0), epoch: n64("epoch", p.at(2)), verifier_list: (0..n).map(|_| validator(p, 3)).collect(),
        propose_counter: (0..m).map(|_| ProposeCount { address: h160("pc.addr"), count: n64("pc.count", p.at(7)) }).collect(), consensus_config: consensus_config(p, 8),
    }
}
pub fn cell_dep(p: Sel, k: u64) -> CellDep { CellDep { tx_hash: h256("dep.hash"), index: n32("dep.index", p.at(k)), dep_type: s::u8("dep.type") } }
pub fn script(p: Sel, k: u64) -> Script { Script { code_hash: h256("code_hash"), args: bytes("args", p.at(k), 3), hash_type: s::u8("hash_type") } }
pub fn witness(p: Sel, k: u64) -> Witness {
    let mut f = |name: &str, c: C| if c == C::Tiny { None } else if c == C::Full && s::choose(name, 0, 1) == 0 { None } else { Some(bytes("witness", c, 3)) };
    Witness { lock: f("lock?", p.at(k)), input_type: f("input?", p.at(k + 1)), output_type: f("output?", p.at(k + 2)) }
}
