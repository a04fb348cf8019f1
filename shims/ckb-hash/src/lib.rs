//! Stand-in used only in the checks' build.  CKB's blake2b is not a subject of
//! any property; here it is the engine's injective digest under a prefix of
//! its own, so that it is collision-free and unlike keccak-256 of the same bytes.
extern "C" {
    fn sym_keccak256(data: *const u8, len: usize, out: *mut u8);
}
pub const BLAKE2B_KEY: &[u8] = &[];
pub const BLAKE2B_LEN: usize = 32;
pub const CKB_HASH_PERSONALIZATION: &[u8] = b"ckb-default-hash";
pub const BLANK_HASH: [u8; 32] = [
    68, 244, 198, 151, 68, 213, 248, 197, 93, 100, 32, 98, 148, 157, 202, 228, 155, 196, 231, 239,
    67, 211, 136, 197, 161, 47, 66, 181, 99, 61, 22, 62,
];
#[derive(Clone)]
pub struct Blake2b { buf: Vec<u8> }
impl Blake2b {
    #[inline(never)]
    pub fn update(&mut self, data: &[u8]) { self.buf.extend_from_slice(data) }
    #[inline(never)]
    pub fn finalize(self, dst: &mut [u8]) {
        assert!(dst.len() == 32);
        unsafe { sym_keccak256(self.buf.as_ptr(), self.buf.len(), dst.as_mut_ptr()) }
    }
}
pub fn new_blake2b() -> Blake2b { Blake2b { buf: CKB_HASH_PERSONALIZATION.to_vec() } }
pub fn blake2b_256<T: AsRef<[u8]>>(s: T) -> [u8; 32] {
    let mut b = new_blake2b();
    b.update(s.as_ref());
    let mut o = [0u8; 32];
    b.finalize(&mut o);
    o
}
