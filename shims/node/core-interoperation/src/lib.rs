//! Stand-in: CKB-VM runs are an oracle set by the harness.
use protocol::{traits::{Context, Interoperation}, types::*, ProtocolError, ProtocolErrorKind, ProtocolResult};
pub static mut VM_OK: bool = true;
pub static mut VM_ARGS: Vec<Bytes> = Vec::new();
pub struct InteroperationImpl;
impl Interoperation for InteroperationImpl {
    fn call_ckb_vm<DL: ckb_traits::CellDataProvider>(_: Context, _: &DL, _: CellDep, args: &[Bytes], _: u64) -> ProtocolResult<VMResp> {
        unsafe {
            VM_ARGS = args.to_vec();
            if VM_OK { Ok(VMResp { exit_code: 0, cycles: 0 }) } else { Err(ProtocolError::new(ProtocolErrorKind::Interoperation, Box::new(std::fmt::Error))) }
        }
    }
}
