//! Stand-in for BLS signatures: pairing arithmetic is trusted, not verified.
//! A key is 48 bytes, a signature 96. Keys and signatures add up as the real
//! ones do: a signature is valid for a message and a key - of one signer or
//! aggregated - exactly when it is the one value the signers' keys and the
//! message make.
use ophelia::{BlsSignatureVerify, Bytes, CryptoRng, Error, HashValue, PrivateKey, PublicKey, RngCore, Signature, ToBlsPublicKey};
use std::convert::TryFrom;
use tiny_keccak::{Hasher, Keccak};
fn k(parts: &[&[u8]]) -> [u8; 32] { let mut h = Keccak::v256(); for p in parts { h.update(p); } let mut o = [0u8; 32]; h.finalize(&mut o); o }
fn words(b: &[u8; 32]) -> [u64; 4] { let mut s = [0u64; 4]; for i in 0..4 { let mut w = [0u8; 8]; w.copy_from_slice(&b[8 * i..8 * i + 8]); s[i] = u64::from_le_bytes(w); } s }
fn bytes(s: &[u64; 4]) -> [u8; 32] { let mut o = [0u8; 32]; for i in 0..4 { o[8 * i..8 * i + 8].copy_from_slice(&s[i].to_le_bytes()); } o }
fn add(a: [u64; 4], b: [u64; 4]) -> [u64; 4] { let mut o = a; for i in 0..4 { o[i] = o[i].wrapping_add(b[i]); } o }
#[derive(Debug)]
pub enum BlsError { Deserialize, InvalidSignature, AggregatePublicKey, AggregateSignature }
impl std::fmt::Display for BlsError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("bls") } }
impl std::error::Error for BlsError {}
#[derive(Clone)]
pub struct BlsPrivateKey([u8; 32]);
impl TryFrom<&[u8]> for BlsPrivateKey { type Error = Error; fn try_from(b: &[u8]) -> Result<Self, Error> { if b.len() != 32 { return Err(BlsError::Deserialize.into()); } let mut o = [0u8; 32]; o.copy_from_slice(b); Ok(BlsPrivateKey(o)) } }
impl PrivateKey for BlsPrivateKey {
    type Signature = BlsSignature;
    const LENGTH: usize = 32;
    fn generate<R: RngCore + CryptoRng>(r: &mut R) -> Self { let mut o = [0u8; 32]; r.fill_bytes(&mut o); BlsPrivateKey(o) }
    fn sign_message(&self, m: &HashValue) -> BlsSignature { BlsSignature { keys: self.pub_key(&String::new()).agg, msg: k(&[m.as_ref()]), rest: [0; 32] } }
    fn to_bytes(&self) -> Bytes { Bytes::from(self.0.to_vec()) }
}
impl ToBlsPublicKey for BlsPrivateKey {
    type PublicKey = BlsPublicKey;
    type CommonReference = String;
    fn pub_key(&self, _: &String) -> BlsPublicKey { let mut b = [0u8; 48]; b[..32].copy_from_slice(&k(&[b"pk", &self.0])); BlsPublicKey::try_from(&b[..]).unwrap() }
}
#[derive(Debug, PartialEq, Clone)]
pub struct BlsPublicKey { raw: [u8; 48], agg: [u64; 4] }
impl BlsPublicKey {
    pub fn aggregate(keys: Vec<BlsPublicKey>) -> Result<Self, BlsError> {
        if keys.is_empty() { return Err(BlsError::AggregatePublicKey); }
        let mut s = [0u64; 4];
        for p in &keys { s = add(s, p.agg); }
        let mut raw = [0u8; 48];
        raw[..32].copy_from_slice(&bytes(&s));
        Ok(BlsPublicKey { raw, agg: s })
    }
}
impl TryFrom<&[u8]> for BlsPublicKey { type Error = Error; fn try_from(b: &[u8]) -> Result<Self, Error> { if b.len() != 48 { return Err(BlsError::Deserialize.into()); } let mut raw = [0u8; 48]; raw.copy_from_slice(b); Ok(BlsPublicKey { raw, agg: words(&k(&[b])) }) } }
impl PublicKey for BlsPublicKey { type Signature = BlsPublicKey; const LENGTH: usize = 48; fn to_bytes(&self) -> Bytes { Bytes::from(self.raw.to_vec()) } }
#[derive(Debug, PartialEq, Clone)]
pub struct BlsSignature { keys: [u64; 4], msg: [u8; 32], rest: [u8; 32] }
impl BlsSignature {
    pub fn combine(l: Vec<(BlsSignature, BlsPublicKey)>) -> Result<Self, BlsError> {
        let Some((first, _)) = l.first() else { return Err(BlsError::AggregateSignature) };
        let mut o = first.clone();
        for (s, _) in &l[1..] { o.keys = add(o.keys, s.keys); if s.msg != o.msg || s.rest != o.rest { o.rest = [1; 32] } }
        Ok(o)
    }
}
impl TryFrom<&[u8]> for BlsSignature {
    type Error = Error;
    fn try_from(b: &[u8]) -> Result<Self, Error> {
        if b.len() != 96 { return Err(BlsError::Deserialize.into()); }
        let (mut a, mut msg, mut rest) = ([0u8; 32], [0u8; 32], [0u8; 32]);
        a.copy_from_slice(&b[..32]); msg.copy_from_slice(&b[32..64]); rest.copy_from_slice(&b[64..]);
        Ok(BlsSignature { keys: words(&a), msg, rest })
    }
}
impl Signature for BlsSignature { fn to_bytes(&self) -> Bytes { let mut v = bytes(&self.keys).to_vec(); v.extend_from_slice(&self.msg); v.extend_from_slice(&self.rest); Bytes::from(v) } }
impl BlsSignatureVerify for BlsSignature {
    type PublicKey = BlsPublicKey;
    type CommonReference = String;
    fn verify(&self, m: &HashValue, p: &BlsPublicKey, _: &String) -> Result<(), Error> {
        let ok = (bytes(&self.keys) == bytes(&p.agg)) & (self.msg == k(&[m.as_ref()])) & (self.rest == [0u8; 32]);
        if ok { Ok(()) } else { Err(BlsError::InvalidSignature.into()) }
    }
}
