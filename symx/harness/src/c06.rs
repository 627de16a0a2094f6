//! Nothing that is not a number, no invalid pose and no invalid elbow ever reaches the robot.
use crate::common::*;
use crate::drive::*;
use crate::srv::*;
use franka::robot::robot_state::RobotState;
use std::cell::RefCell;
use std::rc::Rc;

pub fn all() -> Vec<H> {
    vec![
        h("induct_control_loop", "ControlLoop::do_loop, RobotImpl::update, RobotImpl::receive_robot_state", crate::induct::control_loop).samples(5),
        h("callback_values", "*::convert_motion, ControlLoop::spin_motion, ControlLoop::spin_control, limit_rate_*, low_pass_filter, RobotImpl::update", outputs).by("induct_control_loop"),
        h("state_values", "*::convert_motion, ControlLoop::spin_motion, ControlLoop::spin_control, limit_rate_*, low_pass_filter", states).by("induct_control_loop"),
        h("pose_columns", "CartesianPose::convert_motion, is_homogeneous_transformation", columns).by("induct_control_loop"),
        h("any_pose", "CartesianPose::convert_motion, is_homogeneous_transformation", any_pose).by("induct_control_loop"),
        h("pose_rows", "CartesianPose::convert_motion, is_homogeneous_transformation", rows).by("induct_control_loop"),
        h("pose_last_row", "CartesianPose::convert_motion, is_homogeneous_transformation", last_row).by("induct_control_loop"),
        h("processed_pose", "CartesianPose::convert_motion, cartesian_low_pass_filter, limit_rate_cartesian_pose", processed)
            .samples(2000)
            .bound("filtered or rate limited poses: all orientations along the axes, otherwise concrete runs only"),
        h("elbow", "CartesianPose::convert_motion, CartesianVelocities::convert_motion, CartesianPose::check_elbow", elbow).by("induct_control_loop"),
    ]
}
fn options() -> Opt {
    let limit = flag("limit rate");
    let cut = if flag("filter") { 100.0 } else { 1000.0 };
    Opt::new(Some(limit), Some(l(cut)))
}
fn finite(c: &WCmd) -> bool {
    c.reals().iter().all(|x| x.is_finite())
}
fn norm2(v: [R; 3]) -> R {
    v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
}
const LO: f64 = (1.0 - 1.0001e-5) * (1.0 - 1.0001e-5);
const HI: f64 = (1.0 + 1.0001e-5) * (1.0 + 1.0001e-5);
fn unit(v: [R; 3]) -> B {
    let n = norm2(v);
    n.ge_b(LO).and(n.le_b(HI))
}
fn valid_pose(p: &[R; 16]) {
    for (i, w) in [(3, 0.0), (7, 0.0), (11, 0.0), (15, 1.0)] {
        check("last-row", p[i].eq_b(w));
    }
    for j in 0..3 {
        check("unit-columns", unit([p[4 * j], p[4 * j + 1], p[4 * j + 2]]));
        check("unit-rows", unit([p[j], p[4 + j], p[8 + j]]));
    }
}
const BAD: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
fn pick_bad() -> R {
    l(BAD[choose(3, "value") as usize])
}
/// one bad number in what a callback returns, in the first or a later cycle
fn outputs() {
    let m = [M::Q, M::Dq, M::Pose, M::Vel, M::None][choose(5, "interface") as usize];
    let torque = m == M::None || flag("with torques");
    let o = options();
    let bad = pick_bad();
    let cycle = if is_symbolic() { choose(2, "cycle") as usize } else { [0, 1, 2, 7, 60, 400][choose(6, "cycle") as usize] };
    let fin = flag("in the last command");
    // where: motion value, elbow, torque
    let nm = match m {
        M::Q | M::Dq => 7,
        M::Pose => 16 + 2,
        M::Vel => 6 + 2,
        M::None => 0,
    };
    let at = choose((nm + if torque { 7 } else { 0 }) as u32, "position") as usize;
    let hd = install(Sim::new());
    let mut r = connect();
    let h2 = hd.clone();
    let before: Rc<RefCell<Option<usize>>> = Rc::new(RefCell::new(None));
    let (b1, b2) = (before.clone(), before.clone());
    let h3 = hd.clone();
    let mut k = 0;
    let mut f = move |_s: &RobotState, _d: &Duration| {
        let mut o = Out::zero();
        if m == M::Pose || m == M::Vel {
            o.elbow = Some([l(0.1), l(1.0)]);
        }
        if k == cycle && at < nm {
            *b1.borrow_mut() = Some(h2.borrow().cmds.len());
            o.fin = fin;
            match m {
                M::Q => o.q[at] = bad,
                M::Dq => o.dq[at] = bad,
                M::Pose if at < 16 => o.pose[at] = bad,
                M::Vel if at < 6 => o.vel[at] = bad,
                M::Pose => o.elbow.as_mut().unwrap()[at - 16] = bad,
                M::Vel => o.elbow.as_mut().unwrap()[at - 6] = bad,
                M::None => {}
            }
        }
        if k > cycle + 1 {
            o.fin = true;
        }
        k += 1;
        o
    };
    let mut kt = 0;
    let mut t = move |_s: &RobotState, _d: &Duration| {
        let mut x = Tau { tau: [l(0.5); 7], fin: false };
        if kt == cycle && at >= nm {
            *b2.borrow_mut() = Some(h3.borrow().cmds.len());
            x.tau[at - nm] = bad;
            x.fin = fin;
        }
        if kt > cycle + 1 {
            x.fin = true;
        }
        kt += 1;
        x
    };
    let res = attempt(|| if torque { control_t(&mut r, m, o, &mut f, &mut t) } else { control(&mut r, m, o, &mut f) });
    let s = hd.borrow();
    check("all-finite", s.cmds.iter().all(finite));
    check("refused", !matches!(res, Ok(Ok(()))));
    let n = before.borrow().unwrap();
    check("nothing-sent-after-it", s.cmds.len() == n);
    cover("refused");
}
/// a bad number in the robot state that the processing uses
fn states() {
    let m = [M::Q, M::Dq, M::Pose, M::Vel, M::None][choose(5, "interface") as usize];
    let torque = m == M::None || flag("with torques");
    let o = options();
    let bad = pick_bad();
    let fields = ["q_d", "dq_d", "ddq_d", "tau_J_d", "O_T_EE_c", "O_dP_EE_c", "O_ddP_EE_c", "elbow_c", "delbow_c", "ddelbow_c"];
    let fl = fields[choose(fields.len() as u32, "field") as usize];
    let n = FIELDS.iter().find(|x| x.0 == fl).unwrap().1;
    let at = choose(n as u32, "position") as usize;
    let cycle = if is_symbolic() { 0 } else { [0, 1, 8, 70, 500][choose(5, "cycle") as usize] };
    let mut sim = Sim::new();
    sim.fill = Some(Box::new(move |k, s| {
        if k == 3 + cycle {
            let mut v = s.get(fl);
            v[at] = bad;
            s.set(fl, &v);
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    let mut k = 0;
    let mut f = move |_s: &RobotState, _d: &Duration| {
        let mut o = Out::zero();
        if m == M::Pose || m == M::Vel {
            o.elbow = Some([l(0.001), l(1.0)]);
        }
        o.q[1] = l(0.001);
        o.dq[2] = l(0.001);
        o.vel[3] = l(0.001);
        k += 1;
        o.fin = k == 3 + cycle;
        o
    };
    let mut kt = 0;
    let mut t = move |_s: &RobotState, _d: &Duration| {
        kt += 1;
        Tau { tau: [l(0.5); 7], fin: kt == 3 + cycle }
    };
    let _ = attempt(|| if torque { control_t(&mut r, m, o, &mut f, &mut t) } else { control(&mut r, m, o, &mut f) });
    let s = hd.borrow();
    check("all-finite", s.cmds.iter().all(finite));
    if m == M::Pose {
        for c in &s.cmds {
            valid_pose(&c.pose);
        }
    }
    cover("ran");
}
/// sends one pose without any processing; what arrives?
fn send_pose(p: [R; 16], o: Opt) -> Option<WCmd> {
    send_pose_after(None, p, o)
}
fn send_pose_after(last: Option<[R; 16]>, p: [R; 16], o: Opt) -> Option<WCmd> {
    let mut sim = Sim::new();
    if let Some(x) = last {
        sim.fill = Some(Box::new(move |_, s| s.set("O_T_EE_c", &x)));
    }
    let hd = install(sim);
    let mut r = connect();
    let res = attempt(|| {
        control(&mut r, M::Pose, o, |_s, _d| {
            let mut o = Out::zero();
            o.pose = p;
            o.fin = true;
            o
        })
    });
    let s = hd.borrow();
    check("one-answer", matches!(res, Ok(Ok(()))) == (s.cmds.len() == 1));
    s.cmds.first().cloned()
}
/// any three numbers as one column of the rotation; the others a permutation of the unit vectors
fn columns() {
    let j = choose(3, "column") as usize;
    let c: [R; 3] = reals("column", -3.0, 3.0);
    let mut p = pose(reals("t", -1.0, 1.0));
    for i in 0..3 {
        p[4 * j + i] = c[i];
    }
    match send_pose(p, Opt::raw()) {
        Some(k) => {
            valid_pose(&k.pose);
            check("as-requested", same(&k.pose, &p));
            cover("sent");
        }
        None => {
            // away from the threshold a valid pose is not refused
            let near = |v: [R; 3]| norm2(v).within(1.0, 1.9e-5);
            check(
                "refused-only-if-invalid",
                B::all((0..3).map(|i| {
                    near([p[4 * i], p[4 * i + 1], p[4 * i + 2]]).and(near([p[i], p[4 + i], p[8 + i]]))
                }))
                .not(),
            );
            cover("refused");
        }
    }
}
fn any_pose() {
    let p: [R; 16] = reals("entry", -3.0, 3.0);
    match send_pose(p, Opt::raw()) {
        Some(k) => {
            let p = k.pose;
            for (i, w) in [(3, 0.0), (7, 0.0), (11, 0.0), (15, 1.0)] {
                check("last-row", p[i].eq_b(w));
            }
            for j in 0..3 {
                let n = |v: [R; 3]| norm2(v).sqrt().within(1.0, 1e-5);
                check("unit-columns", n([p[4 * j], p[4 * j + 1], p[4 * j + 2]]));
                check("unit-rows", n([p[j], p[4 + j], p[8 + j]]));
            }
            cover("sent");
        }
        None => cover("refused"),
    }
}
fn rows() {
    let j = choose(3, "row") as usize;
    let c: [R; 3] = reals("row", -3.0, 3.0);
    let mut p = pose(reals("t", -1.0, 1.0));
    for i in 0..3 {
        p[4 * i + j] = c[i];
    }
    match send_pose(p, Opt::raw()) {
        Some(k) => {
            valid_pose(&k.pose);
            cover("sent");
        }
        None => cover("refused"),
    }
}
fn last_row() {
    let mut p = pose(reals("t", -1.0, 1.0));
    let (a, b) = (choose(4, "entry") as usize, choose(4, "other entry") as usize);
    p[3 + 4 * a] = real_in("x", -2.0, 2.0);
    p[3 + 4 * b] = real_in("y", -2.0, 2.0);
    match send_pose(p, Opt::raw()) {
        Some(k) => {
            valid_pose(&k.pose);
            cover("sent");
        }
        None => {
            check(
                "refused-only-if-invalid",
                B::all([(3, 0.0), (7, 0.0), (11, 0.0), (15, 1.0)].iter().map(|(i, w)| p[*i].eq_b(*w))).not(),
            );
            cover("refused");
        }
    }
}
/// arbitrary matrices through filter and limiter
fn processed() {
    let limit = flag("limit rate");
    let filter = flag("filter");
    let o = Opt::new(Some(limit), Some(l(if filter { 100.0 } else { 1000.0 })));
    let e: [R; 16] = reals("entry", -1.5, 1.5);
    // orientations along the axes, right- and left-handed
    if is_symbolic() || choose(2, "form") == 0 {
        let a = aligned(choose(24, "last orientation"));
        let mut m = aligned(choose(24, "orientation"));
        let mirror = flag("mirrored");
        if mirror {
            let i = choose(3, "row") as usize;
            m[i] = m[i].map(|x| -x);
        }
        let tr: M3 = std::array::from_fn(|i| std::array::from_fn(|j| a[j][i]));
        let d = mul(&m, &tr);
        let half_turn = d[0][0] + d[1][1] + d[2][2] < -0.99;
        match send_pose_after(Some(homog(&a, [0.3, 0.1, 0.4])), homog(&m, [0.3001, 0.1, 0.4]), o) {
            Some(k) => {
                check("all-finite", finite(&k));
                valid_pose(&k.pose);
                // what is sent after processing lies next to the last pose, not anywhere else
                if limit && !mirror {
                    let last = homog(&a, [0.3, 0.1, 0.4]);
                    check("next-to-the-last-pose", B::all((0..16).map(|i| k.pose[i].within(last[i], 3e-3))));
                }
                cover("sent");
            }
            None => {
                check("refused-only-if-invalid", mirror || half_turn);
                cover("refused");
            }
        }
        return;
    }
    let kind = choose(3, "kind");
    let mut p = e;
    if kind > 0 {
        // a rotation, possibly spoilt in one entry
        let c = |x: R| x.as_const().unwrap();
        let a = rot([c(e[0]), c(e[1]), c(e[2]) + 2.0], c(e[3]));
        p = homog(&a, [c(e[12]), c(e[13]), c(e[14])]);
        if kind == 2 {
            p[(c(e[5]).abs() * 10.0) as usize] = e[7];
        }
    }
    match send_pose(p, o) {
        Some(k) => {
            check("all-finite", finite(&k));
            valid_pose(&k.pose);
        }
        None => check("refused-only-if-invalid", kind != 1),
    }
    cover("ran");
}
fn elbow() {
    let m = if flag("pose") { M::Pose } else { M::Vel };
    let o = options();
    let e = [real_in("elbow", -3.0, 3.0), real_in("sign", -2.0, 2.0)];
    let hd = install(Sim::new());
    let mut r = connect();
    let cycle = choose(2, "cycle");
    let mut k = 0;
    let res = attempt(|| {
        control(&mut r, m, o, |_s, _d| {
            let mut o = Out::zero();
            o.elbow = Some(if k == cycle { e } else { [l(0.0), l(-1.0)] });
            o.fin = k == cycle + 1;
            k += 1;
            o
        })
    });
    let s = hd.borrow();
    for c in &s.cmds {
        check("sign-valid", c.elbow[1].eq_b(1.0).or(c.elbow[1].eq_b(-1.0)));
        check("elbow-announced", c.valid_elbow == 1);
    }
    if matches!(res, Ok(Ok(()))) {
        check("sent", s.cmds.len() == cycle as usize + 2);
        cover("sent");
    } else {
        check("refused-only-if-invalid", e[1].eq_b(1.0).or(e[1].eq_b(-1.0)).not());
        cover("refused");
    }
}
