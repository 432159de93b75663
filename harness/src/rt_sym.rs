//! Runtime of the symbolic build: every `vp_*` symbol is interpreted by the engine.
extern "C" {
    pub fn vp_bytes(p: *mut u8, n: usize);
    pub fn vp_choose(n: u32) -> u32;
    pub fn vp_assume(b: bool);
    pub fn vp_assert(b: bool, id: u64);
    pub fn vp_cover(id: u64);
    pub fn vp_out(v: u64);
    pub fn vp_out_bytes(p: *const u8, n: usize);
    pub fn vp_conc(v: u64) -> u64;
    fn vp_alloc(n: usize, al: usize) -> *mut u8;
}
struct A;
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        vp_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, _: *mut u8, _: std::alloc::Layout) {}
}
#[global_allocator]
static GA: A = A;
