//! Stand-in for the secp256k1 wrapper: elliptic-curve arithmetic is trusted,
//! not verified.  Recovery is a deterministic function of exactly the message
//! and the 65 signature bytes, with the real wrapper's length, recovery-id and
//! zero-component rejections.  Used by the symbolic run and by the native
//! replay alike, so counterexamples mean the same in both.
use ophelia::{Bytes, Error, HashValue};

#[derive(Debug)]
pub struct Invalid;
impl std::fmt::Display for Invalid { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("invalid") } }
impl std::error::Error for Invalid {}
use std::convert::TryFrom;
use tiny_keccak::{Hasher, Keccak};

pub mod secp256k1 {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct PublicKey(pub [u8; 64]);
    impl PublicKey {
        pub fn serialize_uncompressed(&self) -> [u8; 65] {
            let mut r = [4u8; 65];
            r[1..].copy_from_slice(&self.0);
            r
        }
        pub fn serialize(&self) -> [u8; 33] {
            let mut r = [2u8; 33];
            r[1..].copy_from_slice(&self.0[..32]);
            r
        }
    }
}

fn h(tag: u8, msg: &[u8], sig: &[u8]) -> [u8; 32] {
    let mut k = Keccak::v256();
    k.update(&[tag]);
    k.update(msg);
    k.update(sig);
    let mut o = [0u8; 32];
    k.finalize(&mut o);
    o
}

pub fn recover(msg: &[u8], sig: &[u8]) -> Result<secp256k1::PublicKey, Error> {
    let _ = HashValue::try_from(msg)?;
    let rs = &sig[0..64];
    if *sig.last().unwrap() > 3 {
        return Err(Error::new(Invalid));
    }
    if rs[..32] == [0u8; 32] || rs[32..] == [0u8; 32] {
        return Err(Error::new(Invalid));
    }
    let mut p = [0u8; 64];
    p[..32].copy_from_slice(&h(1, msg, sig));
    p[32..].copy_from_slice(&h(2, msg, sig));
    Ok(secp256k1::PublicKey(p))
}

macro_rules! opaque { ($($n:ident),*) => { $(
    #[derive(Clone, Debug, PartialEq)]
    pub struct $n(Bytes);
    impl TryFrom<&[u8]> for $n { type Error = Error; fn try_from(b: &[u8]) -> Result<Self, Error> { Ok($n(Bytes::copy_from_slice(b))) } }
    
)* } }
opaque!(Secp256k1PrivateKey, Secp256k1Signature, Secp256k1RecoverablePublicKey, Secp256k1RecoverableSignature);
/// A public key given by its x coordinate and parity; the uncompressed form is
/// a deterministic function of the 33 compressed bytes.
#[derive(Clone, Debug, PartialEq)]
pub struct Secp256k1PublicKey([u8; 33]);
impl TryFrom<&[u8]> for Secp256k1PublicKey {
    type Error = Error;
    fn try_from(b: &[u8]) -> Result<Self, Error> {
        if b.len() != 33 || (b[0] != 2 && b[0] != 3) { return Err(Error::new(Invalid)); }
        let mut k = [0u8; 33];
        k.copy_from_slice(b);
        Ok(Self(k))
    }
}
impl ophelia::PublicKey for Secp256k1PublicKey {
    type Signature = Secp256k1Signature;
    const LENGTH: usize = 33;
    fn to_bytes(&self) -> Bytes { Bytes::copy_from_slice(&self.0) }
}
impl ophelia::UncompressedPublicKey for Secp256k1PublicKey {
    type Signature = Secp256k1Signature;
    const LENGTH: usize = 65;
    fn to_uncompressed_bytes(&self) -> Bytes {
        let mut r = [4u8; 65];
        r[1..33].copy_from_slice(&self.0[1..]);
        r[33..].copy_from_slice(&h(3, &self.0, &[]));
        Bytes::copy_from_slice(&r)
    }
}
pub struct Secp256k1;
pub struct Secp256k1Recoverable;

#[derive(Clone, Debug, PartialEq)]
pub struct Secp256k1RecoverablePrivateKey(Bytes);
impl TryFrom<&[u8]> for Secp256k1RecoverablePrivateKey { type Error = Error; fn try_from(b: &[u8]) -> Result<Self, Error> { Ok(Self(Bytes::copy_from_slice(b))) } }
impl ophelia::Signature for Secp256k1RecoverableSignature { fn to_bytes(&self) -> Bytes { self.0.clone() } }
impl ophelia::PrivateKey for Secp256k1RecoverablePrivateKey {
    type Signature = Secp256k1RecoverableSignature;
    const LENGTH: usize = 32;
    fn generate<R: ophelia::RngCore + ophelia::CryptoRng>(_: &mut R) -> Self { unimplemented!() }
    fn sign_message(&self, _: &HashValue) -> Self::Signature { unimplemented!() }
    fn to_bytes(&self) -> Bytes { self.0.clone() }
}
impl ophelia::PublicKey for Secp256k1RecoverablePublicKey {
    type Signature = Secp256k1RecoverableSignature;
    const LENGTH: usize = 33;
    fn to_bytes(&self) -> Bytes { self.0.clone() }
}
impl ophelia::ToPublicKey for Secp256k1RecoverablePrivateKey {
    type PublicKey = Secp256k1RecoverablePublicKey;
    fn pub_key(&self) -> Self::PublicKey { unimplemented!() }
}
/// A recoverable signature is good for a key when recovery yields that key.
impl ophelia::SignatureVerify for Secp256k1RecoverableSignature {
    type PublicKey = Secp256k1RecoverablePublicKey;
    fn verify(&self, msg: &HashValue, k: &Self::PublicKey) -> Result<(), Error> {
        if self.0.len() != 65 { return Err(Error::new(Invalid)) }
        let r = recover(msg.as_ref(), &self.0)?;
        let good = match k.0.len() { 65 => k.0[1..] == r.0[..], _ => false };
        if good { Ok(()) } else { Err(Error::new(Invalid)) }
    }
}
impl ophelia::Crypto for Secp256k1Recoverable {
    type PrivateKey = Secp256k1RecoverablePrivateKey;
    type PublicKey = Secp256k1RecoverablePublicKey;
    type Signature = Secp256k1RecoverableSignature;
}
