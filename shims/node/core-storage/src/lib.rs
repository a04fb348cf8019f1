//! Stand-in: the storage error only; storage itself is a harness object.
use protocol::{ProtocolError, ProtocolErrorKind};
#[derive(Debug)]
pub enum StorageError { GetNone(String) }
impl std::fmt::Display for StorageError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("none") } }
impl std::error::Error for StorageError {}
impl From<StorageError> for ProtocolError { fn from(e: StorageError) -> Self { ProtocolError::new(ProtocolErrorKind::Storage, Box::new(e)) } }
