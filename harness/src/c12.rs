use super::util::*;
use yaml_peg::repr::*;
#[path = "anchors.rs"]
mod anchors;
use anchors::*;
/// Scalars have symbolic content.
const CONTENT: bool = false;

fn go(b: B, again: bool) {
    cyclic::<RcRepr>(&b, again);
    forget(b)
}
fn any<const L: usize>(set: &[u8], pre: &str, post: &str) {
    let b = sym::<L>();
    for c in b {
        assume(in_set(c, set))
    }
    let mut d = pre.as_bytes().to_vec();
    d.extend_from_slice(&b);
    d.extend_from_slice(post.as_bytes());
    both::<RcRepr>(&d);
    forget(d)
}
harness! {
    c12_x5 => any::<5>(b"&*ab ,[", "[", "]");
    c12_x6 => any::<6>(b"&*ab ,[", "[", "]");
    c12_w5 => any::<5>(b"&*a ,{}:", "[&a b, ", "]");
    c12_x7 => any::<6>(b"&*a ,{}:", "[&a b, ", "]");
    c12_y5 => any::<5>(b"&*a \n:-", "- &b a\n- ", "\n- *a\n");
    c12_y6 => any::<6>(b"&*a \n:-", "- &b a\n- ", "\n- *a\n");
    c12_z6 => any::<6>(b"&*a -\n", "", "\n- *a");
    c12_z7 => any::<7>(b"&*a -\n", "", "\n- *a");
    c12_z8 => any::<8>(b"&*a -\n", "", "");
    c12_s6 => any::<6>(b"&*a\n-.", "&a b\n---\n", "");
    c12_m5 => any::<5>(b"&*a\n: ", "", ": *a");
    c12_m6 => any::<6>(b"&*a\n: ", "", ": *a");

    c12_fs => go(build(0, 5, false), true);
    c12_fs6 => go(build(0, 6, false), true);
    c12_bs => go(build(1, 5, false), true);
    c12_bs6 => go(build(1, 6, false), true);
    c12_bm => go(build(2, 5, false), true);
    c12_as => go(build(3, 5, false), true);
    c12_am => go(build(4, 5, false), true);
    c12_k => go(build(5, 6, false), true);
    c12_kl => go(build(11, 6, false), true);
    c12_q => go(build(6, 6, false), true);
    c12_qs => go(build(6, 5, true), true);
    c12_qa => go(build(7, 6, false), true);
    c12_r => go(build(8, 6, false), true);
    c12_fm => go(build(9, 6, false), true);
    c12_fms => go(build(9, 5, true), true);
    c12_rs => go(build(8, 5, true), true);
    c12_d2 => go(stream(4, 2), true);
    c12_d3 => go(stream(3, 3), true);
    c12_mn => many::<RcRepr>(true);
}
