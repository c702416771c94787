//! Stand-in for blake3: the digest of a byte string is an injective function of it, decided by the engine
//! (collision-free hash) or by a fixed mixing function (native replay).
extern "C" {
    fn vp_hash(p: *const u8, n: usize, out: *mut u8);
}
pub const OUT_LEN: usize = 32;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Hash([u8; 32]);
impl Hash {
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
}
impl From<Hash> for [u8; 32] {
    fn from(h: Hash) -> Self {
        h.0
    }
}
#[derive(Clone, Debug, Default)]
pub struct Hasher(Vec<u8>);
impl Hasher {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn update(&mut self, b: &[u8]) -> &mut Self {
        self.0.extend_from_slice(b);
        self
    }
    pub fn finalize(&self) -> Hash {
        let mut out = [0u8; 32];
        unsafe { vp_hash(self.0.as_ptr(), self.0.len(), out.as_mut_ptr()) };
        Hash(out)
    }
    pub fn finalize_xof(&self) -> OutputReader {
        OutputReader(self.finalize().0)
    }
}
pub struct OutputReader([u8; 32]);
impl OutputReader {
    pub fn fill(&mut self, b: &mut [u8]) {
        let n = b.len();
        b.copy_from_slice(&self.0[..n]);
    }
}
pub fn hash(b: &[u8]) -> Hash {
    Hasher::new().update(b).finalize()
}
