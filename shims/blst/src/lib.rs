//! Stand-in for the BLS12-381 library: pairing arithmetic is trusted, not
//! verified.  A key is 48 bytes, a signature 96; the aggregate key depends on
//! exactly the multiset of keys; a signature verifies iff it is the one value
//! derived from (aggregate key, message, domain tag).  Same code in the
//! symbolic run and in the native replay.
#![allow(non_camel_case_types)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BLST_ERROR { BLST_SUCCESS = 0, BLST_BAD_ENCODING = 1, BLST_POINT_NOT_ON_CURVE = 2, BLST_POINT_NOT_IN_GROUP = 3, BLST_AGGR_TYPE_MISMATCH = 4, BLST_VERIFY_FAIL = 5, BLST_PK_IS_INFINITY = 6, BLST_BAD_SCALAR = 7 }
pub mod min_pk {
    use crate::BLST_ERROR;
    use tiny_keccak::{Hasher, Keccak};
    fn k(parts: &[&[u8]]) -> [u8; 32] { let mut h = Keccak::v256(); for p in parts { h.update(p); } let mut o = [0u8; 32]; h.finalize(&mut o); o }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct PublicKey { pub agg: [u8; 32] }
    impl PublicKey {
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> { if b.len() != 48 { return Err(BLST_ERROR::BLST_BAD_ENCODING); } Ok(PublicKey { agg: k(&[b]) }) }
        pub fn from_aggregate(a: &AggregatePublicKey) -> Self { PublicKey { agg: a.0 } }
    }
    pub struct AggregatePublicKey(pub [u8; 32]);
    impl AggregatePublicKey {
        pub fn aggregate(pks: &[&PublicKey], _validate: bool) -> Result<Self, BLST_ERROR> {
            if pks.is_empty() { return Err(BLST_ERROR::BLST_AGGR_TYPE_MISMATCH); }
            let mut s = [0u64; 4];
            for p in pks { for i in 0..4 { let mut w = [0u8; 8]; w.copy_from_slice(&p.agg[8 * i..8 * i + 8]); s[i] = s[i].wrapping_add(u64::from_le_bytes(w)); } }
            let mut o = [0u8; 32];
            for i in 0..4 { o[8 * i..8 * i + 8].copy_from_slice(&s[i].to_le_bytes()); }
            Ok(AggregatePublicKey(o))
        }
    }
    pub struct Signature([u8; 96]);
    /// The only signature accepted for these arguments.
    pub fn expected(pk: &PublicKey, msg: &[u8], dst: &[u8]) -> [u8; 96] {
        let mut o = [0u8; 96];
        o[..32].copy_from_slice(&k(&[b"bls", &pk.agg, msg, dst]));
        o
    }
    impl Signature {
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> { if b.len() != 96 { return Err(BLST_ERROR::BLST_BAD_ENCODING); } let mut o = [0u8; 96]; o.copy_from_slice(b); Ok(Signature(o)) }
        pub fn verify(&self, _group: bool, msg: &[u8], dst: &[u8], aug: &[u8], pk: &PublicKey, _validate: bool) -> BLST_ERROR {
            if !aug.is_empty() { return BLST_ERROR::BLST_VERIFY_FAIL; }
            if self.0[..] == expected(pk, msg, dst)[..] { BLST_ERROR::BLST_SUCCESS } else { BLST_ERROR::BLST_VERIFY_FAIL }
        }
    }
}
