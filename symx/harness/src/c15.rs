//! Combined mass properties of end effector and load.
use crate::common::*;
use crate::srv::*;

pub fn all() -> Vec<H> {
    #[allow(unused_mut)]
    let mut v = vec![
        h("center_of_mass", "RobotState::from, combine_center_of_mass", com),
        h("inertia", "RobotState::from, combine_inertia_tensor, skew_symmetric_matrix_from_vector", inertia),
    ];
    v
}
struct In {
    me: R,
    ml: R,
    ce: [R; 3],
    cl: [R; 3],
    ie: [R; 9],
    il: [R; 9],
}
fn input() -> In {
    let mass = |n: &str| match choose(2, n) {
        0 => l(0.0),
        _ => real_in(n, 1e-3, 20.0),
    };
    In {
        me: mass("m_ee"),
        ml: mass("m_load"),
        ce: reals("c_ee", -1.0, 1.0),
        cl: reals("c_load", -1.0, 1.0),
        ie: reals("I_ee", -1.0, 1.0),
        il: reals("I_load", -1.0, 1.0),
    }
}
fn state(i: &In) -> franka::RobotState {
    let mut sim = Sim::new();
    let (me, ml, ce, cl, ie, il) = (i.me, i.ml, i.ce, i.cl, i.ie, i.il);
    sim.fill = Some(Box::new(move |_k, s| {
        s.set("m_ee", &[me]);
        s.set("m_load", &[ml]);
        s.set("F_x_Cee", &ce);
        s.set("F_x_Cload", &cl);
        s.set("I_ee", &ie);
        s.set("I_load", &il);
    }));
    let _hd = install(sim);
    let mut r = connect();
    r.read_once().unwrap_or_else(|e| panic!("{}", e))
}
fn com() {
    let i = input();
    let s = state(&i);
    check("total-mass", s.m_total.within(i.me + i.ml, TOL));
    for k in 0..3 {
        // weighted mean: m c = m_ee c_ee + m_load c_load, 0 without mass
        let c = s.F_x_Ctotal[k];
        if i.me.as_const() == Some(0.0) && i.ml.as_const() == Some(0.0) {
            check("no-mass", c.eq_b(0.0));
        } else {
            check("weighted-mean", ((i.me + i.ml) * c).within(i.me * i.ce[k] + i.ml * i.cl[k], 1e-9));
        }
    }
    cover("combined");
}
/// Both inertias about the common center of mass:
/// I = I_ee + I_load + mu (|r|^2 E - r r^T), r = c_ee - c_load, mu = m_ee m_load / (m_ee + m_load),
/// where a part without mass contributes nothing.
fn inertia() {
    let i = input();
    let s = state(&i);
    let none = |m: R| m.as_const() == Some(0.0);
    let m = i.me + i.ml;
    let r: [R; 3] = std::array::from_fn(|k| i.ce[k] - i.cl[k]);
    let rr = r[0] * r[0] + r[1] * r[1] + r[2] * r[2];
    for row in 0..3 {
        for col in 0..3 {
            let k = 3 * col + row;
            let a = if none(i.me) { l(0.0) } else { i.ie[k] };
            let b = if none(i.ml) { l(0.0) } else { i.il[k] };
            let e = if row == col { rr } else { l(0.0) };
            let mu_term = i.me * i.ml * (e - r[row] * r[col]);
            if none(i.me) && none(i.ml) {
                check("no-mass", s.I_total[k].within(0.0, 1e-9));
            } else if none(i.me) || none(i.ml) {
                check("one-part", s.I_total[k].within(a + b, 1e-9));
            } else {
                check("two-parts", (m * s.I_total[k]).within(m * (a + b) + mu_term, 1e-9));
            }
        }
    }
    cover("combined");
}
