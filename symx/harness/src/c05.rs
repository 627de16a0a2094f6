//! What the callback returned is what is sent, after exactly the requested processing.
use crate::common::*;
use crate::drive::*;
use crate::srv::*;
use std::cell::RefCell;
use std::rc::Rc;

pub fn all() -> Vec<H> {
    vec![
        h("induct_control_loop", "ControlLoop::do_loop, RobotImpl::update, RobotImpl::receive_robot_state", crate::induct::control_loop).samples(5),
        h("raw_motion", "Robot::control_*, JointPositions::convert_motion, JointVelocities::convert_motion, CartesianPose::convert_motion, CartesianVelocities::convert_motion, ControlLoop::spin_motion, RobotImpl::send_robot_command", raw_motion).by("induct_control_loop"),
        h("raw_torque", "Robot::control_torques*, ControlLoop::spin_control, RobotImpl::send_robot_command", raw_torque).by("induct_control_loop"),
        h("filtered_motion", "*::convert_motion, low_pass_filter, ControlLoop::spin_motion", filtered_motion).by("induct_control_loop"),
        h("long_motion", "Robot::control_*, *::convert_motion, low_pass_filter, ControlLoop::spin_motion, ControlLoop::spin_control", long).bound(LONG).samples(40),
        h("conversions", "Torques::{new, from}, JointPositions::{new, from}, JointVelocities::{new, from}, CartesianVelocities::{new, from}, CartesianPose::{new, from}, MotionFinished::motion_finished, array_to_isometry", conversions),
        h("filtered_torque", "ControlLoop::spin_control, low_pass_filter", filtered_torque).by("induct_control_loop"),
    ]
}
/// outputs can be given as arrays, vectors or isometries; marking them as finished changes nothing
/// else
fn conversions() {
    use franka::robot::control_types::*;
    use franka::utils::{array_to_isometry, Vector7};
    use nalgebra::{Isometry3, Matrix4, Quaternion, Translation3, UnitQuaternion, Vector6};
    let q: [R; 7] = reals("q", -10.0, 10.0);
    let v: [R; 6] = reals("v", -10.0, 10.0);
    let elbow: [R; 2] = reals("elbow", -3.0, 3.0);
    fn ends<T: Finishable + Copy>(x: T) -> T {
        check("not-finished-by-itself", !x.is_finished());
        let mut y = x;
        y.set_motion_finished(true);
        check("finished-when-set", y.is_finished());
        y.set_motion_finished(false);
        check("not-finished-when-reset", !y.is_finished());
        let y = x.motion_finished();
        check("finished-when-marked", y.is_finished());
        y
    }
    let q7 = Vector7::from_row_slice(&q);
    match choose(7, "type") {
        6 => {
            // any rotation and translation
            let x: [R; 4] = if is_symbolic() { reals("unit quaternion", -1.0, 1.0) } else { [l(0.5), l(-0.5), l(0.5), l(-0.5)] };
            let [i, j, k, w] = x;
            let one = i * i + j * j + k * k + w * w;
            assume(one.le_b(l(1.0)).and(one.ge_b(l(1.0))));
            let t: [R; 3] = reals("t", -2.0, 2.0);
            let iso = Isometry3::from_parts(
                Translation3::new(t[0], t[1], t[2]),
                UnitQuaternion::new_unchecked(Quaternion::new(w, i, j, k)),
            );
            let c = ends(CartesianPose::from(iso));
            let two = l(2.0);
            let rot = [
                l(1.0) - two * (j * j + k * k), two * (i * j + k * w), two * (i * k - j * w),
                two * (i * j - k * w), l(1.0) - two * (i * i + k * k), two * (j * k + i * w),
                two * (i * k + j * w), two * (j * k - i * w), l(1.0) - two * (i * i + j * j),
            ];
            for n in 0..9 {
                check("rotation-from-isometry", c.O_T_EE[n / 3 * 4 + n % 3].within(rot[n], 1e-9));
            }
            for n in [3, 7, 11] {
                check("last-row", c.O_T_EE[n].within(l(0.0), 0.0));
            }
            check("translation-from-isometry", same(&c.O_T_EE[12..15], &t));
            check("last-element", c.O_T_EE[15].within(l(1.0), 0.0));
        }
        0 => {
            check("torques", same(&ends(Torques::new(q)).tau_J, &q));
            check("torques-from-vector", same(&ends(Torques::from(q7)).tau_J, &q));
        }
        1 => {
            check("positions", same(&ends(JointPositions::new(q)).q, &q));
            check("positions-from-vector", same(&ends(JointPositions::from(q7)).q, &q));
        }
        2 => {
            check("velocities", same(&ends(JointVelocities::new(q)).dq, &q));
            check("velocities-from-vector", same(&ends(JointVelocities::from(q7)).dq, &q));
        }
        3 => {
            let e = [None, Some(elbow)][choose(2, "elbow") as usize];
            let c = ends(CartesianVelocities::new(v, e));
            check("twist", same(&c.O_dP_EE, &v));
            check("twist-elbow", c.has_elbow() == e.is_some() && c.elbow.is_some() == e.is_some());
            check("twist-elbow-value", c.elbow.map_or(B::c(true), |x| same(&x, &elbow)));
            let c = ends(CartesianVelocities::from(Vector6::from_row_slice(&v)));
            check("twist-from-vector", same(&c.O_dP_EE, &v).and(B::c(!c.has_elbow())));
        }
        4 => {
            let e = [None, Some(elbow)][choose(2, "elbow") as usize];
            let p: [R; 16] = reals("p", -2.0, 2.0);
            let c = ends(CartesianPose::new(p, e));
            check("pose", same(&c.O_T_EE, &p));
            check("pose-elbow", c.has_elbow() == e.is_some() && c.elbow.is_some() == e.is_some());
            check("pose-elbow-value", c.elbow.map_or(B::c(true), |x| same(&x, &elbow)));
            let c = ends(CartesianPose::from(p));
            check("pose-from-array", same(&c.O_T_EE, &p).and(B::c(!c.has_elbow())));
        }
        _ => {
            // any rotation, given by a quaternion
            let t: [R; 3] = reals("t", -2.0, 2.0);
            let m = |x: f64, y: f64, z: f64, w: f64| {
                let n = (x * x + y * y + z * z + w * w).sqrt();
                [x / n, y / n, z / n, w / n]
            };
            let x = if is_symbolic() {
                let i = choose(25, "orientation");
                if i == 24 { m(0.3, -0.2, 0.8, 0.5) } else { quaternion(i as usize) }
            } else {
                let r = reals::<4>("quaternion", -1.0, 1.0).map(|x| x.as_const().unwrap());
                m(r[0], r[1], r[2], r[3] + 1e-9)
            };
            let [i, j, k, w] = x;
            let rot = [
                1.0 - 2.0 * (j * j + k * k), 2.0 * (i * j + k * w), 2.0 * (i * k - j * w),
                2.0 * (i * j - k * w), 1.0 - 2.0 * (i * i + k * k), 2.0 * (j * k + i * w),
                2.0 * (i * k + j * w), 2.0 * (j * k - i * w), 1.0 - 2.0 * (i * i + j * j),
            ];
            let mut want = pose(t);
            for c in 0..3 {
                for n in 0..3 {
                    want[c * 4 + n] = l(rot[c * 3 + n]);
                }
            }
            let near = |a: &[R], b: &[R]| B::all(a.iter().zip(b).map(|(a, b)| a.within(*b, 1e-9)));
            let iso = Isometry3::from_parts(
                Translation3::new(t[0], t[1], t[2]),
                UnitQuaternion::new_unchecked(Quaternion::new(l(w), l(i), l(j), l(k))),
            );
            let c = ends(CartesianPose::from(iso));
            check("pose-from-isometry", near(&c.O_T_EE, &want).and(B::c(!c.has_elbow())));
            let back = array_to_isometry(&want);
            let back: Matrix4<R> = back.to_homogeneous();
            check("isometry-from-pose", near(back.as_slice(), &want));
        }
    }
    cover("converted");
}
/// the 24 orientations along the axes
fn quaternion(k: usize) -> [f64; 4] {
    let mut all: Vec<[f64; 4]> = vec![];
    for a in 0..4 {
        let mut x = [0.0; 4];
        x[a] = 1.0;
        all.push(x);
        for b in a + 1..4 {
            for s in [1.0, -1.0] {
                let mut x = [0.0; 4];
                x[a] = 0.5f64.sqrt();
                x[b] = s * x[a];
                all.push(x);
            }
        }
    }
    for s in 0..8 {
        all.push(std::array::from_fn(|i| if i < 3 && s >> i & 1 == 1 { -0.5 } else { 0.5 }));
    }
    all[k]
}
/// last commanded quantities reported by the robot
fn rich(pfx: &str, s: &mut WState) {
    s.set("q_d", &reals::<7>(&format!("{}.q_d", pfx), -3.0, 3.0));
    s.set("dq_d", &reals::<7>(&format!("{}.dq_d", pfx), -3.0, 3.0));
    s.set("tau_J_d", &reals::<7>(&format!("{}.tau_J_d", pfx), -100.0, 100.0));
    s.set("O_dP_EE_c", &reals::<6>(&format!("{}.O_dP_EE_c", pfx), -3.0, 3.0));
    s.set("O_T_EE_c", &pose(reals::<3>(&format!("{}.O_T_EE_c.t", pfx), -1.0, 1.0)));
    s.set("elbow_c", &reals::<2>(&format!("{}.elbow_c", pfx), -3.0, 3.0));
    // measured values, which must play no role
    s.set("q", &reals::<7>(&format!("{}.q", pfx), -3.0, 3.0));
    s.set("dq", &reals::<7>(&format!("{}.dq", pfx), -3.0, 3.0));
    s.set("tau_J", &reals::<7>(&format!("{}.tau_J", pfx), -100.0, 100.0));
    s.set("elbow", &reals::<2>(&format!("{}.elbow", pfx), -3.0, 3.0));
    s.set("O_T_EE", &pose(reals::<3>(&format!("{}.O_T_EE.t", pfx), -1.0, 1.0)));
    s.set("O_dP_EE_d", &reals::<6>(&format!("{}.O_dP_EE_d", pfx), -3.0, 3.0));
}
fn any_out(k: usize, m: M, elbow: bool) -> Out {
    let mut o = Out::zero();
    match m {
        M::Q => o.q = reals(&format!("out{}.q", k), -3.0, 3.0),
        M::Dq => o.dq = reals(&format!("out{}.dq", k), -3.0, 3.0),
        M::Pose => o.pose = pose(reals(&format!("out{}.t", k), -1.0, 1.0)),
        M::Vel => o.vel = reals(&format!("out{}.v", k), -3.0, 3.0),
        M::None => {}
    }
    if elbow {
        o.elbow = Some([
            real_in(&format!("out{}.elbow", k), -3.0, 3.0),
            l(if flag("elbow sign") { 1.0 } else { -1.0 }),
        ]);
    }
    o
}
/// what has to arrive for output `o`, filter gain `g` and the last commanded values in `s`
fn expect(c: &WCmd, m: M, o: &Out, g: Option<R>, s: &WState) {
    let val = |name: &str, sent: &[R], out: &[R], last: &[R]| match g {
        None => check(name, same(sent, out)),
        Some(g) => {
            for i in 0..sent.len() {
                let w = g * out[i] + (l(1.0) - g) * last[i];
                check(name, sent[i].within(w, TOL));
            }
        }
    };
    let none7 = [l(0.0); 7];
    match m {
        M::Q => val("joint-position", &c.q, &o.q, &s.get("q_d")),
        _ => check("unused-q-zero", same(&c.q, &none7)),
    }
    match m {
        M::Dq => val("joint-velocity", &c.dq, &o.dq, &s.get("dq_d")),
        _ => check("unused-dq-zero", same(&c.dq, &none7)),
    }
    match m {
        M::Pose => {
            val("pose-translation", &c.pose[12..15], &o.pose[12..15], &s.get("O_T_EE_c")[12..15]);
            for i in 0..16 {
                if !(12..15).contains(&i) {
                    check("pose-rotation", c.pose[i].within(o.pose[i], 1e-9));
                }
            }
        }
        _ => check("unused-pose-zero", same(&c.pose, &[l(0.0); 16])),
    }
    match m {
        M::Vel => val("cartesian-velocity", &c.vel, &o.vel, &s.get("O_dP_EE_c")),
        _ => check("unused-velocity-zero", same(&c.vel, &[l(0.0); 6])),
    }
    match (m, o.elbow) {
        (M::Pose, Some(e)) | (M::Vel, Some(e)) => {
            check("elbow-valid", c.valid_elbow == 1);
            val("elbow", &c.elbow[..1], &e[..1], &s.get("elbow_c")[..1]);
            check("elbow-sign", same(&c.elbow[1..], &e[1..]));
        }
        _ => {
            check("elbow-invalid", c.valid_elbow == 0);
            check("elbow-zero", same(&c.elbow, &[l(0.0); 2]));
        }
    }
}
fn run_motion(m: M, g: Option<R>, opt: Opt, n: usize, elbows: &[bool]) {
    let mut sim = Sim::new();
    sim.gaps = true;
    sim.fill = Some(Box::new(|k, s| if k >= 2 { rich(&format!("s{}", k), s) }));
    let hd = install(sim);
    let mut r = connect();
    let outs: Rc<RefCell<Vec<Out>>> = Rc::new(RefCell::new(vec![]));
    let seen: Rc<RefCell<Vec<usize>>> = Rc::new(RefCell::new(vec![]));
    let (o2, h2, s2) = (outs.clone(), hd.clone(), seen.clone());
    let el = elbows.to_vec();
    let res = control(&mut r, m, opt, move |_s, _d| {
        let k = o2.borrow().len();
        let mut o = any_out(k, m, el[k]);
        o.fin = k + 1 == n;
        o2.borrow_mut().push(o.clone());
        s2.borrow_mut().push(h2.borrow().states.len() - 1);
        o
    });
    check("motion-ends-well", res.is_ok());
    let sim = hd.borrow();
    check("one-command-per-callback", sim.cmds.len() == n && sim.bad_cmds.is_empty());
    for (k, c) in sim.cmds.iter().enumerate() {
        let s = &sim.states[seen.borrow()[k]];
        expect(c, m, &outs.borrow()[k], g, s);
        check("no-torque", same(&c.tau, &[l(0.0); 7]));
        check("finish-flag", c.finished == (k + 1 == n) as u8);
    }
    cover("sent");
}
fn elbows(m: M, n: usize) -> Vec<bool> {
    (0..n).map(|_| matches!(m, M::Pose | M::Vel) && flag("elbow given")).collect()
}
fn raw_motion() {
    let m = MOTIONS[choose(4, "interface") as usize];
    let e = elbows(m, 2);
    run_motion(m, None, Opt::raw(), 2, &e);
}
fn cut() -> (Option<R>, R) {
    match choose(3, "cutoff") {
        0 => (None, l(100.0)),
        1 => (Some(l(999.0)), l(999.0)),
        _ => {
            let f = real_in("cutoff", 0.5, 999.999);
            (Some(f), f)
        }
    }
}
fn filtered_motion() {
    let m = MOTIONS[choose(4, "interface") as usize];
    let (c, f) = cut();
    let e = elbows(m, 2);
    run_motion(m, Some(gain(f)), Opt::new(Some(false), c), 2, &e);
}
fn run_torque(m: M, g: Option<R>, opt: Opt) {
    let mut sim = Sim::new();
    sim.gaps = true;
    sim.fill = Some(Box::new(|k, s| if k >= 2 { rich(&format!("s{}", k), s) }));
    let hd = install(sim);
    let mut r = connect();
    let n = 2;
    let el = matches!(m, M::Pose | M::Vel) && flag("elbow given");
    let fin_by_torque = m == M::None || flag("torque ends the motion");
    let outs: Rc<RefCell<Vec<(Out, usize)>>> = Rc::new(RefCell::new(vec![]));
    let taus: Rc<RefCell<Vec<(Tau, usize)>>> = Rc::new(RefCell::new(vec![]));
    let (o2, h2, t2, h3) = (outs.clone(), hd.clone(), taus.clone(), hd.clone());
    let res = control_t(
        &mut r,
        m,
        opt,
        move |_s, _d| {
            let k = o2.borrow().len();
            let mut o = any_out(k, m, el);
            o.fin = !fin_by_torque && k == n;
            o2.borrow_mut().push((o.clone(), h2.borrow().states.len() - 1));
            o
        },
        move |_s, _d| {
            let k = t2.borrow().len();
            let t = Tau {
                tau: reals(&format!("tau{}", k), -100.0, 100.0),
                fin: fin_by_torque && k + 1 == n,
            };
            t2.borrow_mut().push((t.clone(), h3.borrow().states.len() - 1));
            t
        },
    );
    check("motion-ends-well", res.is_ok());
    let sim = hd.borrow();
    let taus = taus.borrow();
    let outs = outs.borrow();
    let total = if fin_by_torque { n } else { n + 1 };
    check("one-command-per-step", sim.cmds.len() == total && sim.bad_cmds.is_empty());
    for (k, c) in sim.cmds.iter().enumerate() {
        if m == M::None {
            let s = &sim.states[taus[k].1];
            // torques alone: a joint velocity of zero is what the motion part has to carry
            expect(c, M::Dq, &Out::zero(), g, s);
        } else {
            expect(c, m, &outs[k].0, g, &sim.states[outs[k].1]);
        }
        let (t, si) = &taus[k.min(taus.len() - 1)];
        let last = sim.states[*si].get("tau_J_d");
        for i in 0..7 {
            let want = match g {
                None => t.tau[i],
                Some(g) => g * t.tau[i] + (l(1.0) - g) * last[i],
            };
            check("torque", c.tau[i].within(want, TOL));
        }
        check("finish-flag", c.finished == (k + 1 == total) as u8);
    }
    cover("sent");
}
fn raw_torque() {
    let m = [M::None, M::Q, M::Dq, M::Pose, M::Vel][choose(5, "interface") as usize];
    run_torque(m, None, Opt::raw());
}
fn filtered_torque() {
    let m = [M::None, M::Q, M::Dq, M::Pose, M::Vel][choose(5, "interface") as usize];
    let (c, f) = cut();
    run_torque(m, Some(gain(f)), Opt::new(Some(false), c));
}
/// what was sent in every cycle of a long motion
fn long() {
    if is_symbolic() {
        return cover("concrete only");
    }
    let m = [M::None, M::Q, M::Dq, M::Pose, M::Vel][choose(5, "interface") as usize];
    let torque = m == M::None || flag("torques too");
    let (opt, g) = long_options(&[Some(false)]);
    let rng = Rng::new();
    let (mut r1, mut r2, mut r3) = (rng.clone(), rng.clone(), rng);
    r2.next();
    r3.next();
    r3.next();
    let cs = long_motion(
        m,
        torque,
        opt,
        long_length(),
        move |_, s| {
            s.set("q_d", &r1.arr::<7>(3.0));
            s.set("dq_d", &r1.arr::<7>(3.0));
            s.set("tau_J_d", &r1.arr::<7>(80.0));
            s.set("O_dP_EE_c", &r1.arr::<6>(2.0));
            s.set("O_T_EE_c", &pose(r1.arr::<3>(1.0)));
            s.set("elbow_c", &[l(r1.f(2.0)), l(1.0)]);
        },
        |_, _| {
            let mut o = Out::zero();
            o.q = r2.arr(3.0);
            o.dq = r2.arr(3.0);
            o.vel = r2.arr(2.0);
            o.pose = pose(r2.arr(1.0));
            if r2.flag() {
                o.elbow = Some([l(r2.f(2.0)), l(if r2.flag() { 1.0 } else { -1.0 })]);
            }
            o
        },
        |_, _| Tau { tau: r3.arr(80.0), fin: false },
    );
    let n = cs.len();
    for (k, c) in cs.iter().enumerate() {
        if m == M::None {
            expect(&c.cmd, M::Dq, &Out::zero(), g, &c.state);
        } else {
            expect(&c.cmd, m, &c.out, g, &c.state);
        }
        let last = c.state.get("tau_J_d");
        for i in 0..7 {
            let want = match (torque, g) {
                (false, _) => l(0.0),
                (_, None) => c.tau.tau[i],
                (_, Some(g)) => g * c.tau.tau[i] + (l(1.0) - g) * last[i],
            };
            check("torque", c.cmd.tau[i].within(want, TOL));
        }
        check("finish-flag", c.cmd.finished == (k + 1 == n) as u8);
    }
    cover("sent");
}
