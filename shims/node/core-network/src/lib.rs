//! Stand-in: the part of the network layer's context that the pool reads.
use protocol::{traits::Context, ProtocolError, ProtocolErrorKind};
#[derive(Clone, Copy, Debug)]
pub struct SessionId(usize);
impl SessionId { pub fn new(v: usize) -> Self { SessionId(v) } pub fn value(&self) -> usize { self.0 } }
#[derive(Debug)]
pub struct NetworkError;
impl std::fmt::Display for NetworkError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("no session") } }
impl std::error::Error for NetworkError {}
impl From<NetworkError> for ProtocolError { fn from(e: NetworkError) -> Self { ProtocolError::new(ProtocolErrorKind::Network, Box::new(e)) } }
pub trait NetworkContext: Sized { fn session_id(&self) -> Result<SessionId, NetworkError>; }
impl NetworkContext for Context { fn session_id(&self) -> Result<SessionId, NetworkError> { self.get::<usize>("session_id").map(|s| SessionId(*s)).ok_or(NetworkError) } }

/// A peer's identity: here, the public key it is made from.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PeerId(pub Vec<u8>);
pub trait PeerIdExt {
    fn from_pubkey_bytes<'a, B: AsRef<[u8]> + 'a>(bytes: B) -> Result<PeerId, NetworkError> { Ok(PeerId(bytes.as_ref().to_vec())) }
    fn from_bytes<'a, B: AsRef<[u8]> + 'a>(bytes: B) -> Result<PeerId, NetworkError> { Ok(PeerId(bytes.as_ref().to_vec())) }
    fn into_bytes_ext(self) -> protocol::types::Bytes;
}
impl PeerIdExt for PeerId { fn into_bytes_ext(self) -> protocol::types::Bytes { self.0.into() } }
