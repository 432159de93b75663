use super::util::*;
#[path = "gen.rs"]
mod gen;
use gen::*;

fn r(c: Cfg) {
    run(c, |n, t| is(n, t) && at(n, t))
}
harness! {
    c14_b3 => r(Cfg { left: 3, ind: 3, root: 5, ..CFG });
    c14_o3 => r(Cfg { left: 3, own: true, ind: 2, ..CFG });
    c14_l1 => r(Cfg { left: 1, leaf: 6, empty: 2, own: true, ..CFG });
    c14_p1 => r(Cfg { left: 1, leaf: 4, props: true, own: true, empty: 2, ..CFG });
    c14_po => r(Cfg { left: 2, props: true, own: true, ind: 0, ..CFG });
    c14_p2 => r(Cfg { left: 2, props: true, ind: 2, entries: 2, ..CFG });
    c14_pf => r(Cfg { left: 2, props: true, flow: true, block: false, ..CFG });
    c14_pm => r(Cfg { left: 3, props: true, flow: true, entries: 1, ind: 0, own: true, ..CFG });
    c14_pc => r(Cfg { left: 2, props: true, complex: true, entries: 1, ind: 2, ..CFG });
    c14_q1 => r(Cfg { left: 1, props: true, lone: true, own: true, root: 4, ..CFG });
    c14_q2 => r(Cfg { left: 2, entries: 1, leaf: 2, props: true, lone: true, own: true, ..CFG });
    c14_q4 => r(Cfg { left: 3, props: true, lone: true, own: true, entries: 1, ..CFG });
    c14_q3 => r(Cfg { left: 2, props: true, lone: true, ind: 3, entries: 1, ..CFG });
    c14_qf => r(Cfg { left: 2, entries: 1, props: true, lone: true, flow: true, block: false, ..CFG });
    c14_qm => r(Cfg { left: 2, entries: 1, props: true, lone: true, flow: true, ..CFG });
    c14_c2 => r(Cfg { left: 2, complex: true, empty: 1, ..CFG });
    c14_f3 => r(Cfg { left: 3, flow: true, block: false, complex: true, ..CFG });
    c14_w2 => r(Cfg { left: 2, flow: true, block: false, wide: 2, ..CFG });
    c14_m3 => r(Cfg { left: 3, flow: true, ind: 2, ..CFG });
    c14_g1 => r(Cfg { left: 2, fill: 9, entries: 1, props: true, ..CFG });
    c14_g2 => r(Cfg { left: 2, flow: true, block: false, fill: 16, entries: 1, props: true, ..CFG });
    c14_g3 => r(Cfg { left: 1, leaf: 6, empty: 1, own: true, fill: 16, entries: 1, pad: 70, props: true, ..CFG });
    c14_g4 => r(Cfg { left: 2, wrap: true, complex: true, flow: true, entries: 1, pad: 140, ..CFG });
    c14_u1 => r(Cfg { left: 1, leaf: 6, empty: 1, own: true, entries: 1, props: true, uni: 3, ..CFG });
    c14_u2 => r(Cfg { left: 2, flow: true, complex: true, entries: 1, uni: 2, ..CFG });
    c14_r1 => r(Cfg { left: 1, props: true, lone: true, wrap: true, own: true, root: 4, ..CFG });
    c14_r2 => r(Cfg { left: 2, entries: 1, props: true, lone: true, wrap: true, own: true, ind: 2, ..CFG });
}
