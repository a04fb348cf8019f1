//! C10: a transaction's parts, its cost and its class are what its fields say.
//! bound: every value of nonce, prices, gas limit and value; call data up to 3 bytes; access lists up to 2 entries with up to 2 keys
//! outside: signed transactions are looked at through their unsigned part (their encodings are C01's and C03's subject)
use crate::gen::*;
use crate::spec;
use protocol::traits::PeerTag;
use protocol::types::*;
use rlp::Encodable;
use symrt as s;

const FULL: C = C::Full;
/// Raw field values next to the transaction built from them.
struct Parts { kind: u64, nonce: u64, price: u64, priority: u64, gas: u64, action: TransactionAction, value: [u8; 32], data: Vec<u8>, acl: AccessList }
fn parts() -> Parts {
    Parts {
        kind: s::choose("@kind", 0, 2), nonce: s::u64("nonce"), price: s::u64("price"), priority: s::u64("priority"), gas: s::u64("gas"),
        action: action("create"), value: s::arr("value"), data: s::vec("data", s::choose("data.len", 0, 3) as usize), acl: access(FULL),
    }
}
fn build(p: &Parts) -> UnsignedTransaction {
    let (nonce, gas_price, gas_limit, action, value, data) = (U64::from(p.nonce), U64::from(p.price), U64::from(p.gas), p.action, U256::from_little_endian(&p.value), Bytes::from(p.data.clone()));
    match p.kind {
        0 => UnsignedTransaction::Legacy(LegacyTransaction { nonce, gas_price, gas_limit, action, value, data }),
        1 => UnsignedTransaction::Eip2930(Eip2930Transaction { nonce, gas_price, gas_limit, action, value, data, access_list: p.acl.clone() }),
        _ => UnsignedTransaction::Eip1559(Eip1559Transaction { nonce, max_priority_fee_per_gas: U64::from(p.priority), gas_price, gas_limit, action, value, data, access_list: p.acl.clone() }),
    }
}
fn price(p: &Parts) -> u64 { if p.kind == 2 { if p.price > p.priority { p.price } else { p.priority } } else { p.price } }
fn le(v: &U256) -> [u8; 32] { let mut b = [0; 32]; v.to_little_endian(&mut b); b }
#[no_mangle]
pub extern "C" fn h_c10_parts() {
    let p = parts();
    let t = build(&p);
    s::check(t.type_() == p.kind && t.is_legacy() == (p.kind == 0) && t.is_eip1559() == (p.kind == 2), "c10.kind");
    s::check(t.nonce().as_u64() == p.nonce && t.gas_limit().as_u64() == p.gas, "c10.nonce_gas");
    s::check(s::same(&le(t.value()), &p.value) && s::same(t.data(), &p.data), "c10.value_data");
    let to = match p.action { TransactionAction::Call(a) => Some(a), TransactionAction::Create => None };
    s::check(*t.action() == p.action && t.to() == to, "c10.action");
    s::check(t.gas_price().as_u64() == price(&p), "c10.gas_price");
    s::check(t.max_priority_fee_per_gas().as_u64() == if p.kind == 2 { p.priority } else { p.price }, "c10.priority");
    s::check(t.access_list() == if p.kind == 0 { vec![] } else { p.acl.clone() }, "c10.access_list");
    match t.get_legacy() {
        Some(l) => s::check(p.kind == 0 && UnsignedTransaction::Legacy(l.clone()) == t && l.get_to() == to, "c10.get_legacy"),
        None => s::check(p.kind != 0, "c10.typed_not_legacy"),
    }
    if p.kind != 0 { s::check(t.as_u8() as u64 == p.kind, "c10.type_byte"); }
    let signed = SignedTransaction { transaction: UnverifiedTransaction { unsigned: t, signature: None, chain_id: if s::bool("protected") { Some(s::u64("chain")) } else { None }, hash: H256::zero() }, sender: h160("sender"), public: None };
    s::check(signed.type_() == p.kind && signed.get_to() == to, "c10.signed_parts");
    s::check(signed.is_eip155() == signed.transaction.chain_id.is_some(), "c10.protected");
}
/// The most a transaction may take from its sender: price x gas limit + value, capped at 2^256 - 1.
#[no_mangle]
pub extern "C" fn h_c10_cost() {
    let p = Parts { data: vec![], acl: vec![], ..parts_plain() };
    let t = build(&p);
    let gas = (price(&p) as u128 * p.gas as u128).to_le_bytes();
    let mut x = [0u8; 33];
    let mut y = [0u8; 33];
    x[..16].copy_from_slice(&gas);
    y[..32].copy_from_slice(&p.value);
    let sum = s::wide('+', x, y);
    let c = t.may_cost();
    s::check(c.is_ok(), "c10.cost_known");
    let c = le(&c.unwrap());
    let capped = sum[32] != 0;
    let mut want = [0u8; 32];
    for i in 0..32 { want[i] = if capped { 0xff } else { sum[i] }; }
    s::check(s::same(&c, &want), "c10.cost");
}
fn parts_plain() -> Parts {
    Parts { kind: s::choose("@kind", 0, 2), nonce: 0, price: s::u64("price"), priority: s::u64("priority"), gas: s::u64("gas"), action: TransactionAction::Create, value: s::arr("value"), data: vec![], acl: vec![] }
}
/// Replacing the action or the data replaces that and nothing else.
#[no_mangle]
pub extern "C" fn h_c10_set() {
    let mut p = parts();
    let mut t = build(&p);
    if s::choose("which", 0, 1) == 0 {
        let a = action("create2");
        t.set_action(a);
        p.action = a;
    } else {
        let d = s::vec("data2", s::choose("data2.len", 0, 2) as usize);
        t.set_data(Bytes::from(d.clone()));
        p.data = d;
    }
    s::check(t == build(&p), "c10.set");
}
/// `encode` gives the bytes of the transaction with that chain id and signature, and a typed one begins with its type.
#[no_mangle]
pub extern "C" fn h_c10_encode() {
    let kind = s::choose("@kind", 0, 2);
    let p = Sel { focus: 99, other: if s::choose("form", 0, 1) == 0 { C::Tiny } else { C::Wide } };
    let t = unsigned(kind, p);
    let chain = Some(s::u32("chain") as u64 | 1 << 24);
    let sig = match s::choose("sig", 0, 2) { 0 => None, 1 => Some(eth_sig(p)), _ => Some(interop_sig()) };
    let whole = UnverifiedTransaction { unsigned: t.clone(), signature: sig.clone(), chain_id: chain, hash: h256("hash") };
    let bytes = t.encode(chain, sig);
    s::check(s::same(&bytes, &whole.rlp_bytes()), "c10.encode");
    if kind == 0 { s::check(bytes[0] >= 0xc0, "c10.legacy_list"); } else { s::check(bytes[0] as u64 == t.type_() && bytes[1] >= 0xc0, "c10.typed_envelope"); }
}
/// Signature bytes: r, s and the parity in one string, and back.
#[no_mangle]
pub extern "C" fn h_c10_signature_bytes() {
    let raw = s::vec("sig", 65);
    let sig = SignatureComponents::from(Bytes::from(raw.clone()));
    s::check(s::same(&sig.r, &raw[..32]) && s::same(&sig.s, &raw[32..64]) && sig.standard_v == raw[64], "c10.split_signature");
    s::check(s::same(&sig.as_bytes(), &raw) && s::same(&Bytes::from(sig.clone()), &raw), "c10.join_signature");
    s::check(sig.len() == 65 && sig.is_eth_sig(), "c10.eth_signature");
    let other = interop_sig();
    s::check(!other.is_eth_sig() || other.r.len() + other.s.len() == 64, "c10.interop_signature");
    s::check(other.len() == other.r.len() + other.s.len() + 1 && other.as_bytes().len() == other.len(), "c10.signature_len");
}
/// The receipt of a transaction begins with the same envelope as the transaction.
#[no_mangle]
pub extern "C" fn h_c10_receipt_envelope() {
    let kind = s::choose("@kind", 0, 2);
    let t = unsigned(kind, Sel { focus: 99, other: C::Tiny });
    let stx = SignedTransaction { transaction: UnverifiedTransaction { unsigned: t, signature: None, chain_id: Some(1), hash: H256::zero() }, sender: h160("sender"), public: None };
    let r = TxResp { exit_reason: exit_reason(C::Full), gas_used: s::u64("gas"), logs: logs(C::Wide), ..Default::default() };
    let bl = bloom("bloom");
    let e = stx.encode_receipt(&r, bl);
    let ok = matches!(r.exit_reason, ExitReason::Succeed(_));
    let body = spec::list(&[spec::n(ok as u64), spec::n(r.gas_used), spec::string(&bl.0), { let l: Vec<Vec<u8>> = r.logs.iter().map(spec::log).collect(); spec::list(&l) }]);
    let want = if kind == 0 { body } else { [vec![kind as u8], body].concat() };
    s::check(s::same(&e, &want), "c10.receipt");
}
/// Peer tags are equal exactly when their names are, equal ones hash alike, and reserved names cannot be made.
#[no_mangle]
pub extern "C" fn h_c10_peer_tags() {
    struct Rec(Vec<u8>);
    impl std::hash::Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } }
    let name = |n: &str, l: usize| { let v = s::vec(n, l); for b in v.iter() { s::assume(*b < 128); } unsafe { String::from_utf8_unchecked(v) } };
    let tag = |n: &str| match s::choose(n, 0, 3) { 0 => PeerTag::Consensus, 1 => PeerTag::AlwaysAllow, 2 => PeerTag::ban(s::u64(n)), _ => PeerTag::Custom(name(n, s::choose(&format_len(n), 0, 3) as usize)) };
    let (a, b) = (tag("a"), tag("b"));
    let text = |t: &PeerTag| match t { PeerTag::Consensus => "consensus".to_string(), PeerTag::AlwaysAllow => "always_allow".to_string(), PeerTag::Ban { .. } => "ban".to_string(), PeerTag::Custom(s) => s.clone() };
    let equal = s::same(text(&a).as_bytes(), text(&b).as_bytes());
    s::check((a == b) == equal, "c10.tag_equality");
    let hash = |t: &PeerTag| { let mut r = Rec(vec![]); std::hash::Hash::hash(t, &mut r); r.0 };
    s::check(!equal || s::same(&hash(&a), &hash(&b)), "c10.tag_hash");
    let n = [0usize, 3, 4, 9, 12][s::choose("len", 0, 4) as usize];
    let t = name("custom", n);
    let reserved = s::same(t.as_bytes(), b"ban") | s::same(t.as_bytes(), b"consensus") | s::same(t.as_bytes(), b"always_allow");
    match PeerTag::custom(&t) { None => s::check(reserved, "c10.reserved_tag"), Some(x) => s::check(!reserved && s::same(x.str().as_bytes(), t.as_bytes()), "c10.custom_tag") }
}
