//! Low-pass filters: convex combination of request and last value; invalid input is refused.
use crate::common::*;
use crate::drive::*;
use crate::srv::*;
use franka::robot::low_pass_filter::{cartesian_low_pass_filter, low_pass_filter};

pub fn all() -> Vec<H> {
    vec![
        h("induct_control_loop", "ControlLoop::do_loop, RobotImpl::update, RobotImpl::receive_robot_state", crate::induct::control_loop).samples(5),
        h("scalar", "low_pass_filter", scalar),
        h("scalar_refuses", "low_pass_filter", refuses),
        h("cartesian_translation", "cartesian_low_pass_filter", translation),
        h("cartesian_refuses", "cartesian_low_pass_filter", cart_refuses),
        h("cartesian_rotation", "cartesian_low_pass_filter", rotation)
            .samples(3000)
            .bound("rotations: concrete runs only (spherical interpolation is outside the solvers' reach)"),
        h("cutoff_of_a_control_loop", "Robot::control_*, *::convert_motion, ControlLoop::spin_control, low_pass_filter, cartesian_low_pass_filter", cutoff).by("induct_control_loop"),
    ]
}
fn between(name: &str, x: R, a: R, b: R, tol: R) {
    check(name, x.ge_b(a - tol).or(x.ge_b(b - tol)));
    check(name, x.le_b(a + tol).or(x.le_b(b + tol)));
}
fn scalar() {
    let y = real_in("y", -1e6, 1e6);
    let yl = real_in("y_last", -1e6, 1e6);
    let ts = match choose(3, "sample time") {
        0 => l(DT),
        1 => l(0.0),
        _ => real_in("sample_time", 1e-6, 10.0),
    };
    let fc = real_in("cutoff", 1e-3, 1e5);
    let out = low_pass_filter(ts, y, yl, fc);
    let g = ts / (ts + l(1.0) / (l(2.0 * std::f64::consts::PI) * fc));
    check("first-order-gain", out.within(g * y + (l(1.0) - g) * yl, 1e-6));
    between("between-request-and-last", out, y, yl, l(1e-6));
    cover("reached");
}
/// values that are no number, or of the wrong sign
const BAD: [f64; 5] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, 0.0];
fn refuses() {
    let y = real_in("y", -1e6, 1e6);
    let yl = real_in("y_last", -1e6, 1e6);
    let mut a = [l(DT), y, yl, real_in("cutoff", 1e-3, 1e5)];
    let at = choose(4, "argument") as usize;
    let v = BAD[choose(5, "value") as usize];
    a[at] = l(v);
    let bad = match at {
        0 => !(v.is_finite() && v >= 0.0),
        3 => !(v.is_finite() && v > 0.0),
        _ => !v.is_finite(),
    };
    let r = attempt(|| low_pass_filter(a[0], a[1], a[2], a[3]));
    check("refused-iff-invalid", r.is_err() == bad);
    if let Ok(x) = r {
        check("finite", x.is_finite());
        cover("accepted");
    } else {
        cover("refused");
    }
}
fn translation() {
    let (t, tl) = (reals::<3>("t", -1e3, 1e3), reals::<3>("t_last", -1e3, 1e3));
    let ts = match choose(2, "sample time") {
        0 => l(DT),
        _ => real_in("sample_time", 1e-6, 10.0),
    };
    let fc = real_in("cutoff", 1e-3, 1e5);
    let out = cartesian_low_pass_filter(ts, &pose(t), &pose(tl), fc);
    let g = ts / (ts + l(1.0) / (l(2.0 * std::f64::consts::PI) * fc));
    for i in 0..3 {
        check("first-order-gain", out[12 + i].within(g * t[i] + (l(1.0) - g) * tl[i], 1e-6));
        between("between-request-and-last", out[12 + i], t[i], tl[i], l(1e-6));
    }
    for i in 0..16 {
        if !(12..15).contains(&i) {
            check("rotation-kept", out[i].within(IDENT[i], 1e-9));
        }
    }
    cover("reached");
}
fn cart_refuses() {
    let which = choose(4, "argument");
    let (mut y, mut yl) = (pose([l(0.1); 3]), pose([l(0.2); 3]));
    let (mut ts, mut fc) = (l(DT), l(100.0));
    let v = BAD[choose(5, "value") as usize];
    let bad = match which {
        0 => {
            ts = l(v);
            !(v.is_finite() && v >= 0.0)
        }
        1 => {
            fc = l(v);
            !(v.is_finite() && v > 0.0)
        }
        _ => {
            assume_quiet(B::c(!v.is_finite()));
            let at = choose(16, "entry") as usize;
            if which == 2 {
                y[at] = l(v)
            } else {
                yl[at] = l(v)
            }
            true
        }
    };
    let r = attempt(|| cartesian_low_pass_filter(ts, &y, &yl, fc));
    check("refused-iff-invalid", r.is_err() == bad);
    if let Ok(x) = r {
        check("finite", x.iter().all(|a| a.is_finite()));
        cover("accepted");
    } else {
        cover("refused");
    }
}
fn rotation() {
    let ax: [R; 3] = reals("axis", -1.0, 1.0);
    let bx: [R; 3] = reals("last axis", -1.0, 1.0);
    let an = real_in("angle", 0.0, 3.0);
    let bn = real_in("last angle", -3.1, 3.1);
    let fc = real_in("cutoff", 1.0, 2000.0);
    let c = |x: R| x.as_const().unwrap();
    // orientations along the axes, where the arc is defined
    if is_symbolic() || flag("aligned") {
        let last = aligned(choose(24, "last orientation"));
        let want = aligned(choose(24, "requested orientation"));
        let tr: M3 = std::array::from_fn(|i| std::array::from_fn(|j| last[j][i]));
        let d = mul(&want, &tr);
        let cos = (d[0][0] + d[1][1] + d[2][2] - 1.0) / 2.0;
        assume_quiet(B::c(cos > -0.99));
        let ax = [d[2][1] - d[1][2], d[0][2] - d[2][0], d[1][0] - d[0][1]];
        let g = c(gain(l(100.0)));
        let exp = if cos > 0.99 { last } else { mul(&rot(ax, g * cos.acos()), &last) };
        let out = cartesian_low_pass_filter(l(DT), &homog(&want, [0.3, 0.2, 0.1]), &homog(&last, [0.3, 0.2, 0.1]), l(100.0));
        let exp = homog(&exp, [0.3, 0.2, 0.1]);
        for i in 0..16 {
            check("shortest-rotation-by-gain", out[i].within(exp[i], 1e-9));
        }
        cover("aligned");
        return;
    }
    let (ax, bx) = (ax.map(c), bx.map(c));
    let big = |a: [f64; 3]| a.iter().map(|x| x * x).sum::<f64>() > 1e-2;
    assume_quiet(B::c(big(ax) && big(bx)));
    let (an, g) = (c(an), c(gain(fc)));
    let last = rot(bx, c(bn));
    // the request is the last orientation turned by `angle` about some axis
    let want = mul(&rot(ax, an), &last);
    let out = cartesian_low_pass_filter(l(DT), &homog(&want, [0.3, 0.2, 0.1]), &homog(&last, [0.3, 0.2, 0.1]), fc);
    let exp = homog(&mul(&rot(ax, g * an), &last), [0.3, 0.2, 0.1]);
    for i in 0..16 {
        check("shortest-rotation-by-gain", (c(out[i]) - c(exp[i])).abs() < 1e-6);
    }
    cover("rotated");
}
/// a control loop with a cutoff frequency that makes no sense sends nothing
fn cutoff() {
    let m = [M::Q, M::Dq, M::Pose, M::Vel][choose(4, "interface") as usize];
    let torque = flag("with torques");
    let v = [0.0, -0.0, -1.0, f64::NEG_INFINITY, 1e-3, 99.0][choose(6, "cutoff") as usize];
    let elbow = (m == M::Pose || m == M::Vel) && flag("elbow");
    let hd = install(Sim::new());
    let mut r = connect();
    let o = Opt::new(Some(flag("limit")), Some(l(v)));
    let mut k = 0;
    let mut f = move |_s: &franka::robot::robot_state::RobotState, _d: &Duration| {
        k += 1;
        let mut o = Out::zero();
        o.fin = k == 2;
        if elbow {
            o.elbow = Some([l(0.0), l(1.0)]);
        }
        o
    };
    let t = |_s: &franka::robot::robot_state::RobotState, _d: &Duration| Tau { tau: [l(0.0); 7], fin: false };
    let res = attempt(move || if torque { control_t(&mut r, m, o, &mut f, t) } else { control(&mut r, m, o, &mut f) });
    let good = v > 0.0;
    if good {
        check("accepted", matches!(res, Ok(Ok(()))));
        cover("accepted");
    } else {
        check("refused", !matches!(res, Ok(Ok(()))));
        check("nothing-sent", hd.borrow().cmds.is_empty());
        cover("refused");
    }
}
