//! Stand-in: account state and the validator set are oracles set by the harness.
use protocol::{types::*, ProtocolError, ProtocolErrorKind, ProtocolResult};
use std::{marker::PhantomData, sync::Arc};
pub static mut ACCOUNT: fn(H160) -> (U256, U256) = |_| (U256::zero(), U256::zero());
pub static mut VALIDATOR: fn(u64, H160) -> bool = |_, _| false;
const PREFIX: [u8; 19] = [0xff; 19];
pub fn is_call_system_script(action: &TransactionAction) -> ProtocolResult<bool> {
    let a = match action { TransactionAction::Call(a) => a, TransactionAction::Create => return Ok(false) };
    if a.0[..19] != PREFIX { return Ok(false) }
    if a.0[19] < 4 { Ok(true) } else { Err(ProtocolError::new(ProtocolErrorKind::Executor, Box::new(std::fmt::Error))) }
}
pub fn is_system_contract_address_format(a: &H160) -> bool { a.0[..19] == PREFIX }
pub struct AxonExecutorReadOnlyAdapter<S, DB> { root: H256, p: PhantomData<(S, DB)> }
impl<S, DB> AxonExecutorReadOnlyAdapter<S, DB> {
    pub fn from_root(root: MerkleRoot, _: Arc<DB>, _: Arc<S>, _: ExecutorContext) -> ProtocolResult<Self> { Ok(Self { root, p: PhantomData }) }
    pub fn get_metadata_root(&self) -> H256 { self.root }
    pub fn get_image_cell_root(&self) -> H256 { self.root }
    pub fn basic(&self, a: H160) -> evm::backend::Basic { let (nonce, balance) = unsafe { ACCOUNT(a) }; evm::backend::Basic { nonce, balance } }
}
pub static mut METADATA: fn(u64) -> Option<Metadata> = |_| None;
pub static mut HARDFORKS: fn(H256) -> HardforkInfo = |_| HardforkInfo { inner: Vec::new() };
pub static mut EXEC: fn(H256, &ExecutorContext, &[SignedTransaction], &[ValidatorExtend]) -> ExecResp = |_, _, _, _| panic!("no executor");
fn none() -> ProtocolError { ProtocolError::new(ProtocolErrorKind::Executor, Box::new(std::fmt::Error)) }
pub mod system_contract { pub mod metadata { pub use crate::MetadataHandle; } }
pub struct AxonExecutorApplyAdapter<S, DB> { root: H256, ctx: ExecutorContext, p: PhantomData<(S, DB)> }
impl<S, DB> AxonExecutorApplyAdapter<S, DB> {
    pub fn from_root(root: MerkleRoot, _: Arc<DB>, _: Arc<S>, ctx: ExecutorContext) -> ProtocolResult<Self> { Ok(Self { root, ctx, p: PhantomData }) }
    pub fn get_metadata_root(&self) -> H256 { self.root }
    pub fn get_image_cell_root(&self) -> H256 { self.root }
}
pub struct AxonExecutor;
impl AxonExecutor {
    pub fn exec<S, DB>(&self, b: &mut AxonExecutorApplyAdapter<S, DB>, txs: &[SignedTransaction], v: &[ValidatorExtend]) -> ExecResp { unsafe { EXEC(b.root, &b.ctx, txs, v) } }
}
pub struct MetadataHandle(H256);
impl MetadataHandle {
    pub fn get_metadata_by_block_number(&self, n: u64) -> ProtocolResult<Metadata> { unsafe { METADATA(n) }.ok_or_else(none) }
    pub fn get_metadata_by_epoch(&self, n: u64) -> ProtocolResult<Metadata> { unsafe { METADATA(n) }.ok_or_else(none) }
    pub fn is_last_block_in_current_epoch(&self, n: u64) -> ProtocolResult<bool> { Ok(self.get_metadata_by_block_number(n)?.version.end == n) }
    pub fn hardfork_infos(&self) -> ProtocolResult<HardforkInfo> { Ok(unsafe { HARDFORKS(self.0) }) }
    pub fn new(r: H256) -> Self { MetadataHandle(r) }
    pub fn is_validator(&self, number: u64, a: H160) -> ProtocolResult<bool> { Ok(unsafe { VALIDATOR(number, a) }) }
}
#[derive(Clone)]
pub struct DataProvider(pub H256);
impl DataProvider { pub fn new(r: H256) -> Self { DataProvider(r) } }
impl ckb_traits::CellDataProvider for DataProvider {
    fn get_cell_data(&self, _: &ckb_types::packed::OutPoint) -> Option<Bytes> { None }
    fn get_cell_data_hash(&self, _: &ckb_types::packed::OutPoint) -> Option<ckb_types::packed::Byte32> { None }
}
