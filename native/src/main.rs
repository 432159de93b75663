//! Native replay: runs a harness on concrete input bytes against the real crate (real hasher, real std).
//! stdin: lines "<harness> x<hex bytes>"; stdout: one line "<outcome> <out hash>" per case.
#[path = "rt_nat.rs"]
pub mod rt;
#[path = "../../harness/src/all.rs"]
pub mod all;

fn main() {
    rt::main(&all::all())
}
