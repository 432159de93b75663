//! Environment stub used only in the symbolic build: a hash function under which every key collides.
//! Every map operation therefore goes through the key type's `Eq`; that equal keys also hash equally is
//! decided separately (property C04) with a recording hasher.
#![no_std]
use core::hash::{BuildHasher, Hasher};

#[derive(Clone, Debug, Default)]
pub struct RandomState;
#[derive(Clone, Debug, Default)]
pub struct AHasher;

impl RandomState {
    pub fn new() -> Self {
        RandomState
    }
}
impl BuildHasher for RandomState {
    type Hasher = AHasher;
    fn build_hasher(&self) -> AHasher {
        AHasher
    }
}
impl Hasher for AHasher {
    fn write(&mut self, _: &[u8]) {}
    fn write_u8(&mut self, _: u8) {}
    fn write_u16(&mut self, _: u16) {}
    fn write_u32(&mut self, _: u32) {}
    fn write_u64(&mut self, _: u64) {}
    fn write_usize(&mut self, _: usize) {}
    fn finish(&self) -> u64 {
        0x5a5a_5a5a_5a5a_5a5a
    }
}
