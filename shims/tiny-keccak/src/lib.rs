//! Stand-in used only in the symbolic build.  The hash function itself is not
//! a subject of any property: the engine evaluates it exactly on concrete
//! input and treats it as an injective uninterpreted function on symbolic
//! input.  The native replay build uses the real crate.
extern "C" {
    fn sym_keccak256(data: *const u8, len: usize, out: *mut u8);
}
pub trait Hasher {
    fn update(&mut self, input: &[u8]);
    fn finalize(self, output: &mut [u8]);
}
#[derive(Clone)]
pub struct Keccak { buf: Vec<u8> }
impl Keccak {
    pub fn v256() -> Keccak { Keccak { buf: Vec::new() } }
    pub fn v512() -> Keccak { panic!("keccak512 is not modelled") }
    pub fn v224() -> Keccak { panic!("keccak224 is not modelled") }
    pub fn v384() -> Keccak { panic!("keccak384 is not modelled") }
}
impl Hasher for Keccak {
    #[inline(never)]
    fn update(&mut self, input: &[u8]) { self.buf.extend_from_slice(input) }
    #[inline(never)]
    fn finalize(self, output: &mut [u8]) {
        assert!(output.len() == 32);
        unsafe { sym_keccak256(self.buf.as_ptr(), self.buf.len(), output.as_mut_ptr()) }
    }
}
