//! C03: what is signed, hashed and recovered is the Ethereum payload, and it binds every field.
//! bound: as C01: one field at a time takes every value, the others are one encoded byte or full width; chain id below 2^62; two transactions compared differ in at most one field
//! outside: secp256k1 itself (recovery is an arbitrary deterministic function of hash and signature); collisions of keccak-256
use crate::gen::*;
use crate::spec;
use common_crypto::secp256k1_recover;
use protocol::codec::ProtocolCodec;
use protocol::types::*;
use rlp::{Encodable, Rlp};
use symrt as s;

fn chain(p: Sel, k: u64) -> u64 {
    let id = n64("chain", if p.focus == k { C::Full } else { C::Tiny });
    s::assume(id < 1 << 62);
    id
}
fn spec_sig(sig: &SignatureComponents) -> (u8, Vec<u8>, Vec<u8>) {
    if sig.r.len() == 32 && sig.s.len() == 32 { (sig.standard_v, spec::int(&sig.r), spec::int(&sig.s)) } else { (sig.standard_v, spec::string(&sig.r), spec::string(&sig.s)) }
}
fn against_spec(unsigned: UnsignedTransaction, chain: Option<u64>, sig: SignatureComponents) {
    let want = spec::tx(&unsigned, chain, None);
    s::check(s::same(&unsigned.encode(chain, None), &want), "c03.signing_payload");
    let utx = UnverifiedTransaction { unsigned, signature: Some(sig), chain_id: chain, hash: H256::zero() };
    let signed = spec::tx(&utx.unsigned, chain, Some(spec_sig(utx.signature.as_ref().unwrap())));
    s::check(s::same(&utx.rlp_bytes(), &signed), "c03.signed_payload");
    s::check(utx.get_hash().0 == s::keccak(&signed), "c03.tx_hash");
    let h = utx.signature_hash(true);
    s::check(h.0 == s::keccak(&want), "c03.signature_hash");
    let sig = utx.signature.clone().unwrap();
    if sig.is_eth_sig() {
        let bytes = [&sig.r[..], &sig.s[..], &[sig.standard_v][..]].concat();
        let rec = secp256k1_recover(&s::keccak(&want), &bytes);
        let got = SignedTransaction::from_unverified(utx.clone());
        s::check(rec.is_ok() == got.is_ok(), "c03.accepts_recoverable");
        s::check(utx.recover_public(true).is_ok() == rec.is_ok(), "c03.recover_agrees");
        if let (Ok(key), Ok(stx)) = (rec, got) {
            let key = key.serialize_uncompressed();
            s::check(stx.public.map(|p| s::same(&p.0, &key[1..65])) == Some(true), "c03.public");
            s::check(stx.sender.0 == s::keccak(&key[1..65])[12..], "c03.sender");
            s::check(stx.transaction.hash.0 == s::keccak(&signed), "c03.signed_hash");
            s::check(stx.transaction.unsigned == utx.unsigned && stx.transaction.signature == utx.signature && stx.transaction.chain_id == chain, "c03.signed_keeps");
            s::check(stx.is_eip155() == chain.is_some(), "c03.is_eip155");
            if let Ok(p) = utx.recover_public(true) { s::check(Some(p) == stx.public, "c03.recover_public"); }
        }
    }
}
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c03_legacy() {
    let p = Sel::pick(10);
    let c = if s::choose("eip155", 0, 1) == 1 { Some(chain(p, 9)) } else { None };
    against_spec(unsigned(0, p), c, eth_sig(p));
}
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c03_typed() {
    let p = Sel::pick(10);
    let c = chain(p, 9);
    against_spec(unsigned(s::choose("kind", 1, 2), p), Some(c), eth_sig(p));
}
#[no_mangle]
pub extern "C" fn h_c03_interop() {
    let p = Sel { focus: 99, other: C::Wide };
    against_spec(unsigned(s::choose("@kind", 0, 2), p), Some(5), interop_sig());
}
/// v <-> (chain id, parity)
#[no_mangle]
pub extern "C" fn h_c03_replay() {
    let v = s::u8("v") & 1;
    let id = s::u64("id");
    s::assume(id < (1 << 63) - 18);
    let sig = SignatureComponents { r: Bytes::new(), s: Bytes::new(), standard_v: v };
    let w = sig.add_chain_replay_protection(Some(id));
    s::check(w as u128 == id as u128 * 2 + 35 + v as u128, "c03.eip155_v");
    s::check(SignatureComponents::extract_chain_id(w) == Some(id), "c03.eip155_chain");
    s::check(SignatureComponents::extract_standard_v(w) == Some(v), "c03.eip155_parity");
    let w = sig.add_chain_replay_protection(None);
    s::check(w == 27 + v as u64, "c03.plain_v");
    s::check(SignatureComponents::extract_chain_id(w).is_none() && SignatureComponents::extract_standard_v(w) == Some(v), "c03.plain_parity");
}
#[no_mangle]
pub extern "C" fn h_c03_any_v() {
    let w = s::u64("w");
    let (id, par) = (SignatureComponents::extract_chain_id(w), SignatureComponents::extract_standard_v(w));
    match par {
        None => s::check(w < 27 || (w > 28 && w < 35), "c03.invalid_v"),
        Some(par) => {
            s::check(par <= 1 && (w == 27 || w == 28 || w >= 35), "c03.valid_v");
            s::check(id.is_some() == (w >= 35), "c03.chain_presence");
            s::check(SignatureComponents { r: Bytes::new(), s: Bytes::new(), standard_v: par }.add_chain_replay_protection(id) == w, "c03.v_inverse");
        }
    }
}
/// The signature hash does not depend on the signature or the stored hash.
#[no_mangle]
pub extern "C" fn h_c03_independent() {
    let p = Sel { focus: 99, other: C::Wide };
    let u = unsigned(s::choose("@kind", 0, 2), p);
    let a = UnverifiedTransaction { unsigned: u.clone(), signature: Some(eth_sig(p)), chain_id: Some(5), hash: h256("ha") };
    let b = UnverifiedTransaction { unsigned: u, signature: None, chain_id: Some(5), hash: h256("hb") };
    s::check(a.signature_hash(true) == b.signature_hash(true), "c03.independent_of_signature");
    s::check(a.get_hash() == UnverifiedTransaction { hash: H256::zero(), ..a.clone() }.get_hash(), "c03.hash_ignores_stored");
    let ok = a.check_hash().is_ok();
    s::check(ok == (a.hash == a.get_hash()), "c03.check_hash");
    s::check(SignedTransaction::from_unverified(b).is_err(), "c03.unsigned_rejected");
}
/// Two transactions that differ in one field have different signature hashes and different hashes.
//@ shards=8
#[no_mangle]
pub extern "C" fn h_c03_binding() {
    let f = s::choose("@field", 0, 11);
    let kind = s::choose("kind", 0, 2);
    let p = Sel { focus: 99, other: C::Wide };
    let (a, sig) = (unsigned(kind, p), eth_sig(p));
    let mut b = a.clone();
    let (mut ca, mut cb) = (5, 5);
    let mut tb = sig.clone();
    macro_rules! set { ($field:ident, $e:expr) => { match &mut b { UnsignedTransaction::Legacy(t) => t.$field = $e, UnsignedTransaction::Eip2930(t) => t.$field = $e, UnsignedTransaction::Eip1559(t) => t.$field = $e } } }
    match f {
        0 => set!(nonce, U64::from(s::u64("x"))),
        1 => set!(gas_price, U64::from(s::u64("x"))),
        2 => set!(gas_limit, U64::from(s::u64("x"))),
        3 => set!(action, action("create2")),
        4 => set!(value, n256("x", C::Wide)),
        5 => set!(data, Bytes::from(s::vec("x", s::choose("n", 4, 6) as usize))),
        6 => match &mut b { UnsignedTransaction::Eip1559(t) => t.max_priority_fee_per_gas = U64::from(s::u64("x")), _ => {} },
        7 => match &mut b { UnsignedTransaction::Eip1559(t) => t.access_list = access(C::Full), UnsignedTransaction::Eip2930(t) => t.access_list = access(C::Full), _ => {} },
        8 => { ca = s::u32("ca") as u64; cb = s::u32("cb") as u64; }
        9 => tb.r = Bytes::from(s::vec("x", 32)),
        10 => tb.s = Bytes::from(s::vec("x", 32)),
        _ => tb.standard_v = s::u8("x") & 1,
    }
    let x = UnverifiedTransaction { unsigned: a, signature: Some(sig), chain_id: Some(ca), hash: H256::zero() };
    let y = UnverifiedTransaction { unsigned: b, signature: Some(tb), chain_id: Some(cb), hash: H256::zero() };
    let payload = x.unsigned == y.unsigned && ca == cb;
    s::check((x.signature_hash(true) == y.signature_hash(true)) == payload, "c03.signature_hash_binds");
    s::check((x.get_hash() == y.get_hash()) == (payload && x.signature == y.signature), "c03.tx_hash_binds");
}
/// Pre-EIP-155 signing payload of a legacy transaction: six fields.
#[no_mangle]
pub extern "C" fn h_c03_pre155() {
    let p = Sel { focus: 99, other: C::Wide };
    let u = unsigned(0, p);
    let want = s::keccak(&spec::tx(&u, None, None));
    let utx = UnverifiedTransaction { unsigned: u, signature: None, chain_id: Some(s::u32("c") as u64), hash: H256::zero() };
    s::check(utx.signature_hash(false).0 == want, "c03.pre155");
}
