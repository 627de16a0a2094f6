//! Cartesian velocity, acceleration and jerk limits.
use crate::common::*;
use crate::drive::*;
use crate::srv::*;

pub fn all() -> Vec<H> {
    #[allow(unused_mut)]
    let mut v = vec![
        h("induct_control_loop", "ControlLoop::do_loop, RobotImpl::update, RobotImpl::receive_robot_state", crate::induct::control_loop).samples(5),
        h("sent_velocity_translation", "Robot::control_cartesian_velocities, Robot::control_torques_and_cartesian_velocities, CartesianVelocities::convert_motion, rate_limiting::limit_rate_cartesian_velocity, rate_limiting::limit_rate_single_cartesian_velocity", sent_translation).by("induct_control_loop").samples(2000),
        h("sent_velocity_angular", "Robot::control_cartesian_velocities, Robot::control_torques_and_cartesian_velocities, CartesianVelocities::convert_motion, rate_limiting::limit_rate_cartesian_velocity, rate_limiting::limit_rate_single_cartesian_velocity", sent_angular).by("induct_control_loop").samples(2000),
        h("sent_pose_translation", "Robot::control_cartesian_pose, Robot::control_torques_and_cartesian_pose, CartesianPose::convert_motion, rate_limiting::limit_rate_cartesian_pose", sent_pose).by("induct_control_loop").samples(1500),
        h("sent_pose_rotation", "CartesianPose::convert_motion, rate_limiting::limit_rate_cartesian_pose", sent_rotation).samples(3000).bound("rotations: concrete runs only (quaternion algebra is outside the solvers' reach)"),
        h("long_motion", "Robot::control_cartesian_velocities, Robot::control_cartesian_pose, CartesianVelocities::convert_motion, CartesianPose::convert_motion, rate_limiting::limit_rate_cartesian_*", long).bound(LONG).samples(40),
        h("lemma_unit_vector", "lemma over the contracts", lemma_unit),
        h("lemma_expand", "lemma over the contracts", lemma_expand),
        h("lemma_scalar", "lemma over the contracts", lemma_scalar),
        h("lemma_jerk", "lemma over the contracts", lemma_jerk),
    ];
    #[cfg(not(feature = "public_only"))]
    v.push(h("velocity_limiter", "rate_limiting::limit_rate_cartesian_velocity, rate_limiting::limit_rate_single_cartesian_velocity", internal::velocity).samples(2000));
    v
}
type V3 = [R; 3];
fn dot(a: &V3, b: &V3) -> R {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn n2(a: &V3) -> R {
    dot(a, a)
}
fn sub(a: &V3, b: &V3) -> V3 {
    std::array::from_fn(|i| a[i] - b[i])
}
fn scale(a: &V3, k: R) -> V3 {
    a.map(|x| x * k)
}
fn min(a: R, b: R) -> R {
    R::ite(a.le_b(b), a, b)
}
/// Reference limiter: the acceleration follows the request as far as the jerk limit lets it, along
/// the straight line; it is then shortened so that the speed stays in the ball of radius V.
pub fn spec(lim: (R, R, R), want: &V3, v: &V3, a: &V3) -> V3 {
    let (vm, am, jm) = lim;
    let jerk: V3 = std::array::from_fn(|i| ((want[i] - v[i]) / l(DT) - a[i]) / l(DT));
    let jn = n2(&jerk).sqrt();
    let mut acc = *a;
    if jn > l(f64::EPSILON) {
        let m = R::max(R::min(jn, jm), -jm);
        for i in 0..3 {
            acc[i] = acc[i] + jerk[i] / jn * m * l(DT);
        }
    }
    let an = n2(&acc).sqrt();
    if !(an > l(f64::EPSILON)) {
        return *v;
    }
    let u: V3 = std::array::from_fn(|i| acc[i] / an);
    let w = dot(&u, v);
    let dist = -w + (w * w - n2(v) + vm * vm).sqrt();
    let safe = R::min((jm / am) * dist, am);
    let s = R::min(an, safe);
    std::array::from_fn(|i| v[i] + u[i] * s * l(DT))
}
/// obligations against the published limits, on concrete values
fn judge(pfx: &str, lim: (f64, f64, f64), sent: &V3, want: &V3, v: &V3, a: &V3) {
    if is_symbolic() {
        return;
    }
    let (vm, am, jm) = lim;
    let nm = |s: &str| format!("{}-{}", pfx, s);
    let c = |x: R| x.as_const().unwrap();
    let nrm = |x: &V3| c(n2(x).sqrt());
    let acc = scale(&sub(sent, v), l(1.0 / DT));
    let jerk = scale(&sub(&acc, a), l(1.0 / DT));
    // rounding of positions and of the rotation algebra, divided by the time step
    let (tv, ta, tj) = if pfx.contains("rot") { (2e-3, 0.2, 150.0) } else { (1e-8, 1e-5, 1e-2) };
    note(&format!("{} speed {} acceleration {} jerk {}", pfx, nrm(sent), nrm(&acc), nrm(&jerk)));
    if nrm(v) <= vm - 2e-3 {
        check(&nm("velocity"), nrm(sent) <= vm + tv);
        check(&nm("acceleration"), nrm(&acc) <= am + ta);
    }
    let free = nrm(v) <= vm - 0.06 && nrm(a) <= 0.45 * am;
    if free {
        check(&nm("jerk"), nrm(&jerk) <= jm + tj);
    }
    let ra = scale(&sub(want, v), l(1.0 / DT));
    if nrm(want) <= vm - 0.06 && nrm(v) <= vm - 0.06 && nrm(&ra) <= 0.98 * am && nrm(&sub(&ra, a)) <= 0.98 * jm * DT {
        check(&nm("passthrough"), nrm(&sub(sent, want)) <= if pfx.contains("rot") { 1e-3 } else { 1e-8 });
    }
}
/// a request somewhere between "in limits" and far outside
fn request(n: &str, v: &V3, a: &V3) -> V3 {
    if is_symbolic() {
        return reals(n, -100.0, 100.0);
    }
    let b = [0.5, 5.0, 10.0, 1e3, 1e5][choose(5, "request") as usize];
    let d: [R; 3] = reals(&format!("{}.d", n), -b, b);
    std::array::from_fn(|i| v[i] + (a[i] + d[i]) * l(DT))
}
fn ball(n: &str, r: f64) -> V3 {
    let x: V3 = reals(n, -r, r);
    if is_symbolic() {
        assume_quiet(n2(&x).le_b(r * r));
        return x;
    }
    let m = n2(&x).sqrt().as_const().unwrap();
    if m > r {
        scale(&x, l(r / m * (1.0 - 1e-12)))
    } else {
        x
    }
}
#[cfg(not(feature = "public_only"))]
fn consts() -> [(R, R, R); 2] {
    use franka::robot::rate_limiting::*;
    [
        (MAX_TRANSLATIONAL_VELOCITY(), MAX_TRANSLATIONAL_ACCELERATION(), MAX_TRANSLATIONAL_JERK()),
        (MAX_ROTATIONAL_VELOCITY(), MAX_ROTATIONAL_ACCELERATION(), MAX_ROTATIONAL_JERK()),
    ]
}
#[cfg(feature = "public_only")]
fn consts() -> [(R, R, R); 2] {
    let e = 1e-3;
    let f = |(v, a, j): (f64, f64, f64)| (l(v - e - e * DT * (a - e)), l(a - e), l(j - e));
    [f(TRANS_LIMITS), f(ROT_LIMITS)]
}
fn consts_ok() {
    let c = consts();
    for (k, pl) in [TRANS_LIMITS, ROT_LIMITS].iter().enumerate() {
        let near = |a: R, b: f64| a.le_b(b).and(a.ge_b(b - 1.1e-3));
        check("limits-as-published", near(c[k].0, pl.0).and(near(c[k].1, pl.1)).and(near(c[k].2, pl.2)));
    }
}
fn options() -> (Opt, Option<R>, usize) {
    let c = choose(3, "options");
    let (limit, cutoff, g) = match c {
        0 => (None, None, Some(gain(l(100.0)))),
        1 => (Some(true), Some(l(1000.0)), None),
        _ => (None, Some(l(17.0)), Some(gain(l(17.0)))),
    };
    (Opt::new(limit, cutoff), g, c as usize)
}
/// a motion with output `o` in the given place
fn run(m: M, opt: Opt, o: &Out, torque: bool, mut sim: Sim, (before, after): (usize, usize)) -> Handle {
    // integer unknowns next to the norms would only slow the solvers down
    sim.gaps = !is_symbolic();
    sim.step = 3;
    let hd = install(sim);
    let mut r = connect();
    let mut other = Out::zero();
    other.vel = [0.02, -0.01, 0.03, 0.01, 0.02, -0.03].map(l);
    other.pose = pose([0.001, -0.002, 0.0015].map(l));
    other.elbow = Some([l(0.25), l(1.0)]);
    let mut outs = vec![other.clone(); before];
    outs.push(o.clone());
    outs.extend(vec![other; after]);
    let res = play(&mut r, m, opt, outs, torque);
    check("motion-ends-well", res.is_ok());
    check("sent", hd.borrow().cmds.len() == before + 1 + after);
    hd
}
fn sent_translation() {
    sent_velocity(0)
}
fn sent_angular() {
    sent_velocity(1)
}
fn sent_velocity(part: usize) {
    let torque = flag("torques too");
    let (opt, g, case) = options();
    let lim = [TRANS_LIMITS, ROT_LIMITS][part];
    let v = ball("v", lim.0 - 2.1e-3);
    let a = ball("a", lim.1);
    let mut o = Out::zero();
    let want = request("request", &v, &a);
    // the other half: at rest, in concrete runs anything
    let none = [l(0.0); 3];
    let (ov, oa, ow) = if is_symbolic() {
        (none, none, none)
    } else {
        let lim = [TRANS_LIMITS, ROT_LIMITS][1 - part];
        let (v, a) = (ball("other v", lim.0 - 2.1e-3), ball("other a", lim.1));
        (v, a, request("other request", &v, &a))
    };
    for i in 0..3 {
        o.vel[3 * part + i] = want[i];
        o.vel[3 * (1 - part) + i] = ow[i];
    }
    let (before, after) = place_for(case + torque as usize);
    let mut sim = Sim::new();
    sim.fill = Some(Box::new(move |k, s| {
        if k == 2 + before {
            let at = |x: &V3, y: &V3| {
                let mut r = [l(0.0); 6];
                r[3 * part..3 * part + 3].copy_from_slice(x);
                r[3 * (1 - part)..3 * (1 - part) + 3].copy_from_slice(y);
                r
            };
            s.set("O_dP_EE_c", &at(&v, &ov));
            s.set("O_ddP_EE_c", &at(&a, &oa));
            // what the robot really does, or was told, is another matter
            s.set("O_dP_EE_d", &[l(0.17); 6]);
        }
    }));
    let hd = run(M::Vel, opt, &o, torque, sim, (before, after));
    let sim = hd.borrow();
    let c = &sim.cmds[before];
    let sent: V3 = std::array::from_fn(|i| c.vel[3 * part + i]);
    let rest: V3 = std::array::from_fn(|i| c.vel[3 * (1 - part) + i]);
    let w = match g {
        None => want,
        Some(g) => std::array::from_fn(|i| g * want[i] + (l(1.0) - g) * v[i]),
    };
    consts_ok();
    let sp = spec(consts()[part], &w, &v, &a);
    for i in 0..3 {
        check("as-specified", sent[i].within(sp[i], 1e-7));
    }
    if is_symbolic() {
        check("rest-untouched", B::all(rest.iter().map(|x| x.within(0.0, 1e-12))));
    } else {
        let w: V3 = match g {
            None => ow,
            Some(g) => std::array::from_fn(|i| g * ow[i] + (l(1.0) - g) * ov[i]),
        };
        let sp = spec(consts()[1 - part], &w, &ov, &oa);
        for i in 0..3 {
            check("as-specified", rest[i].within(sp[i], 1e-7));
        }
    }
    judge(["translation", "angular"][part], lim, &sent, &w, &v, &a);
    cover("sent");
}
fn sent_pose() {
    let torque = flag("torques too");
    let (opt, g, case) = options();
    let lim = TRANS_LIMITS;
    let p = reals("p", -1.0, 1.0);
    let v = ball("v", lim.0 - 2.1e-3);
    let a = ball("a", lim.1);
    let rv = request("request", &v, &a);
    let want: V3 = std::array::from_fn(|i| p[i] + rv[i] * l(DT));
    let mut o = Out::zero();
    o.pose = pose(want);
    let (before, after) = place_for(case + torque as usize);
    let mut sim = Sim::new();
    sim.fill = Some(Box::new(move |k, s| {
        if k == 2 + before {
            s.set("O_T_EE_c", &pose(p));
            s.set("O_dP_EE_c", &[v[0], v[1], v[2], l(0.0), l(0.0), l(0.0)]);
            s.set("O_ddP_EE_c", &[a[0], a[1], a[2], l(0.0), l(0.0), l(0.0)]);
            s.set("O_T_EE", &pose([l(3.0); 3]));
            s.set("O_T_EE_d", &pose([l(4.0); 3]));
        }
    }));
    let hd = run(M::Pose, opt, &o, torque, sim, (before, after));
    let sim = hd.borrow();
    let c = &sim.cmds[before];
    let sent: V3 = std::array::from_fn(|i| c.pose[12 + i]);
    let w: V3 = match g {
        None => want,
        Some(g) => std::array::from_fn(|i| g * want[i] + (l(1.0) - g) * p[i]),
    };
    let wv: V3 = std::array::from_fn(|i| (w[i] - p[i]) / l(DT));
    consts_ok();
    let sp = spec(consts()[0], &wv, &v, &a);
    for i in 0..3 {
        check("as-specified", sent[i].within(p[i] + sp[i] * l(DT), 1e-9));
    }
    let id = pose(sent);
    check("rotation-kept", B::all((0..16).map(|i| c.pose[i].within(id[i], 1e-9))));
    let sv: V3 = std::array::from_fn(|i| (sent[i] - p[i]) / l(DT));
    judge("translation", lim, &sv, &wv, &v, &a);
    cover("sent");
}
fn long() {
    if is_symbolic() {
        return cover("concrete only");
    }
    let m = [M::Pose, M::Vel][choose(2, "interface") as usize];
    let torque = flag("torques too");
    let (opt, g) = long_options(&[None, Some(true)]);
    let rng = Rng::new();
    let (mut r1, mut r2) = (rng.clone(), rng);
    r2.next();
    // inside the ball of that radius
    let lims = [TRANS_LIMITS, ROT_LIMITS];
    let six = move |r: &mut Rng, k: usize| {
        let mut v = [l(0.0); 6];
        for p in 0..2 {
            let b = [lims[p].0 - 2.1e-3, lims[p].1][k] / 1.7321;
            let x = r.arr::<3>(b);
            v[3 * p..3 * p + 3].copy_from_slice(&x);
        }
        v
    };
    let cs = long_motion(
        m,
        torque,
        opt,
        long_length(),
        move |_, s| {
            s.set("O_T_EE_c", &pose(r1.arr::<3>(1.0)));
            let (mut v, mut a) = (six(&mut r1, 0), six(&mut r1, 1));
            if m == M::Pose {
                v[3..].fill(l(0.0));
                a[3..].fill(l(0.0));
            }
            s.set("O_dP_EE_c", &v);
            s.set("O_ddP_EE_c", &a);
        },
        |_, s| {
            let mut o = Out::zero();
            let b = [0.5, 5.0, 10.0, 1e3, 1e5][r2.next() as usize % 5];
            let (p, v, a) = (s.get("O_T_EE_c"), s.get("O_dP_EE_c"), s.get("O_ddP_EE_c"));
            o.vel = std::array::from_fn(|i| v[i] + (a[i] + l(r2.f(b))) * l(DT));
            o.pose = pose(std::array::from_fn(|i| p[12 + i] + o.vel[i] * l(DT)));
            o
        },
        |_, _| Tau { tau: [l(0.0); 7], fin: false },
    );
    for c in &cs {
        let s = &c.state;
        let (p, v, a) = (s.get("O_T_EE_c"), s.get("O_dP_EE_c"), s.get("O_ddP_EE_c"));
        for part in 0..if m == M::Vel { 2 } else { 1 } {
            let at = |x: &[R]| -> V3 { std::array::from_fn(|i| x[3 * part + i]) };
            let (v, a) = (at(&v), at(&a));
            let (sent, w): (V3, V3) = if m == M::Vel {
                let want = at(&c.out.vel);
                (at(&c.cmd.vel), std::array::from_fn(|i| g.map_or(want[i], |g| g * want[i] + (l(1.0) - g) * v[i])))
            } else {
                let k = g.unwrap_or(l(1.0));
                (
                    std::array::from_fn(|i| (c.cmd.pose[12 + i] - p[12 + i]) / l(DT)),
                    std::array::from_fn(|i| k * (c.out.pose[12 + i] - p[12 + i]) / l(DT)),
                )
            };
            let sp = spec(consts()[part], &w, &v, &a);
            for i in 0..3 {
                check("as-specified", sent[i].within(sp[i], 1e-6));
            }
            judge(["translation", "angular"][part], lims[part], &sent, &w, &v, &a);
        }
    }
    cover("sent");
}
fn quat(x: [f64; 3], angle: f64) -> [f64; 9] {
    // rotation matrix (column major) about a unit axis
    let (s, c) = angle.sin_cos();
    let t = 1.0 - c;
    let [x, y, z] = x;
    [
        t * x * x + c, t * x * y + s * z, t * x * z - s * y,
        t * x * y - s * z, t * y * y + c, t * y * z + s * x,
        t * x * z + s * y, t * y * z - s * x, t * z * z + c,
    ]
}
fn mat(a: &[f64; 9], b: &[f64; 9]) -> [f64; 9] {
    let mut r = [0.0; 9];
    for c in 0..3 {
        for i in 0..3 {
            r[c * 3 + i] = (0..3).map(|k| a[k * 3 + i] * b[c * 3 + k]).sum();
        }
    }
    r
}
fn tr(a: &[f64; 9]) -> [f64; 9] {
    std::array::from_fn(|i| a[(i % 3) * 3 + i / 3])
}
/// rotation vector of a (small) rotation
fn logm(m: &[f64; 9]) -> [f64; 3] {
    let w = [m[5] - m[7], m[6] - m[2], m[1] - m[3]].map(|x| x / 2.0);
    let s = (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).sqrt();
    let c = (m[0] + m[4] + m[8] - 1.0) / 2.0;
    let ang = s.atan2(c);
    let k = if s < 1e-12 { 1.0 } else { ang / s };
    w.map(|x| x * k)
}
fn expm(w: [f64; 3]) -> [f64; 9] {
    let n = (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).sqrt();
    if n < 1e-15 {
        return quat([1.0, 0.0, 0.0], 0.0);
    }
    quat(w.map(|x| x / n), n)
}
fn hom(r: &[f64; 9], t: V3) -> [R; 16] {
    let mut p = pose(t);
    for c in 0..3 {
        for i in 0..3 {
            p[c * 4 + i] = l(r[c * 3 + i]);
        }
    }
    p
}
fn sent_rotation() {
    let torque = flag("torques too");
    let limit = [None, Some(true)][choose(2, "limit_rate given") as usize];
    // without filter, and with
    let filt = choose(2, "filter") == 1;
    let opt = Opt::new(limit, if filt { None } else { Some(l(1000.0)) });
    let lim = ROT_LIMITS;
    if is_symbolic() {
        // a fixed rotation with a request at rest: the pose is kept
        let al = choose(25, "orientation");
        let mut o = Out::zero();
        o.pose = if al == 24 {
            hom(&mat(&expm([0.3, -0.2, 0.9]), &expm([1.0, 0.1, 0.0])), reals("p", -1.0, 1.0))
        } else {
            homog(&aligned(al), [0.3, -0.1, 0.5])
        };
        let p2 = o.pose;
        let (before, after) = place_for(al as usize);
        let mut sim = Sim::new();
        sim.fill = Some(Box::new(move |k, s| {
            if k == 2 + before {
                s.set("O_T_EE_c", &p2);
            }
        }));
        let hd = run(M::Pose, opt, &o, torque, sim, (before, after));
        let c = &hd.borrow().cmds[before];
        check("held", B::all((0..16).map(|i| c.pose[i].within(p2[i], 1e-7))));
        cover("held");
        return;
    }
    let cv = |x: V3| x.map(|y| y.as_const().unwrap());
    // any orientation, or one along the axes (such as straight down)
    let base = match choose(4, "orientation") {
        0 | 1 => mat(&expm(cv(reals("axis", -3.0, 3.0))), &expm(cv(reals("axis2", -3.0, 3.0)))),
        2 => {
            let m = aligned(choose(24, "aligned"));
            std::array::from_fn(|i| m[i % 3][i / 3])
        }
        _ => {
            // a half turn about any horizontal axis: pointing down
            let x = real_in("yaw", -3.2, 3.2).as_const().unwrap();
            let (s, c) = x.sin_cos();
            [c, s, 0.0, s, -c, 0.0, 0.0, 0.0, -1.0]
        }
    };
    let mut v = ball("v", 0.97 * lim.0);
    let mut a = ball("a", lim.1);
    let mut want_v = request("request", &v, &a);
    // a rotation so slow that no limit comes near it
    let slow = choose(4, "slow") == 0;
    if slow {
        v = [l(0.0); 3];
        a = [l(0.0); 3];
        want_v = ball("slow rotation", 2e-3);
    }
    if flag("about one axis") {
        let i = choose(3, "which") as usize;
        for j in 0..3 {
            if j != i {
                v[j] = l(0.0);
                a[j] = l(0.0);
                want_v[j] = l(0.0);
            }
        }
    }
    let n = cv(want_v).iter().map(|x| x * x).sum::<f64>().sqrt() * DT;
    if n > 3.0 {
        return;
    }
    let target = mat(&expm(cv(scale(&want_v, l(DT)))), &base);
    let t: V3 = reals("t", -1.0, 1.0);
    let mut o = Out::zero();
    o.pose = hom(&target, t);
    let (before, after) = place();
    let mut sim = Sim::new();
    sim.fill = Some(Box::new(move |k, s| {
        if k == 2 + before {
            s.set("O_T_EE_c", &hom(&base, t));
            s.set("O_dP_EE_c", &[l(0.0), l(0.0), l(0.0), v[0], v[1], v[2]]);
            s.set("O_ddP_EE_c", &[l(0.0), l(0.0), l(0.0), a[0], a[1], a[2]]);
        }
    }));
    let hd = run(M::Pose, opt, &o, torque, sim, (before, after));
    let sim = hd.borrow();
    let c = &sim.cmds[before];
    let sr: [f64; 9] = std::array::from_fn(|i| c.pose[(i / 3) * 4 + i % 3].as_const().unwrap());
    let rel = logm(&mat(&sr, &tr(&base)));
    let sv: V3 = rel.map(|x| l(x / DT));
    let g = gain(l(100.0));
    let w: V3 = if filt { scale(&want_v, g) } else { want_v };
    judge("rotation", lim, &sv, &w, &v, &a);
    // limits of the pose interface: 99 % of the published ones, same shape as for velocities
    let f = 0.99;
    let k = consts()[1];
    let sp = spec((k.0 * l(f), k.1 * l(f), k.2 * l(f)), &w, &v, &a);
    note(&format!("sent {:?} reference {:?}", sv, sp));
    // (the angle comes from an arc cosine: good to about 2e-8 rad per period)
    check("rotation-as-specified", n2(&sub(&sv, &sp)).sqrt().le_b(if slow { 2e-4 } else { 1e-3 }));
    check("translation-kept", B::all((0..3).map(|i| c.pose[12 + i].within(t[i], 1e-7))));
    cover("sent");
}
/// normalisation yields a unit vector
fn lemma_unit() {
    let x: V3 = reals("x", -1e6, 1e6);
    let n = real_in("n", 1e-16, 1e7);
    assume_quiet((n * n).eq_b(n2(&x)));
    let u: V3 = [real_in("u1", -10.0, 10.0), real_in("u2", -10.0, 10.0), real_in("u3", -10.0, 10.0)];
    if !is_symbolic() {
        return;
    }
    for i in 0..3 {
        assume_quiet((u[i] * n).eq_b(x[i]));
    }
    check("unit", n2(&u).eq_b(1.0));
    cover("stated");
}
/// |v + d u|^2 = |v|^2 + 2 d (u . v) + d^2 |u|^2
fn lemma_expand() {
    let v: V3 = reals("v", -1e3, 1e3);
    let u: V3 = reals("u", -1.0, 1.0);
    let d = real_in("d", -1e3, 1e3);
    let o: V3 = std::array::from_fn(|i| v[i] + u[i] * d);
    if !is_symbolic() {
        return;
    }
    check("expand", n2(&o).eq_b(n2(&v) + l(2.0) * d * dot(&u, &v) + d * d * n2(&u)));
    check("difference", n2(&sub(&o, &v)).eq_b(d * d * n2(&u)));
    cover("stated");
}
/// with P = |v|^2 <= V^2, W = u . v, Q = sqrt(W^2 - P + V^2) and the step d the limiter takes along
/// the unit vector u: the new speed is at most V and the acceleration at most A
fn lemma_scalar() {
    if !is_symbolic() {
        return;
    }
    let k = choose(3, "limits") as usize;
    let c = consts();
    let (vm, am, jm) = match k {
        0 => c[0],
        1 => c[1],
        _ => (c[1].0 * l(0.99), c[1].1 * l(0.99), c[1].2 * l(0.99)),
    };
    let (p, w, q, n) = (real_in("P", 0.0, 10.0), real_in("W", -10.0, 10.0), real_in("Q", 0.0, 100.0), real_in("n", 0.0, 1e9));
    assume_quiet(p.le_b(vm * vm));
    assume_quiet((q * q).eq_b(w * w - p + vm * vm));
    let dist = -w + q;
    check("room", dist.ge_b(0.0));
    assume_quiet(dist.ge_b(0.0));
    let s = min(n, min(jm / am * dist, am));
    let d = s * l(DT);
    check("step", s.ge_b(0.0).and(s.le_b(am)).and(d.le_b(dist)));
    // cut: from here on only the bounds of the step matter
    let d = real_in("d", 0.0, 1.0);
    assume_quiet(d.le_b(dist));
    check("speed", (p + l(2.0) * d * w + d * d).le_b(vm * vm));
    cover("stated");
}
/// away from the velocity and acceleration limits the limiter is |jerk| <= J alone
fn lemma_jerk() {
    if !is_symbolic() {
        return;
    }
    let k = choose(2, "limits") as usize;
    let (vm, am, jm) = consts()[k];
    // an = |a + e| with |a| <= 0.45 A and |e| <= J dt
    let (a, e, n) = (real_in("|a|", 0.0, 100.0), real_in("|e|", 0.0, 100.0), real_in("n", 0.0, 200.0));
    assume_quiet(a.le_b(l(0.45) * am));
    assume_quiet(e.le_b(jm * l(DT)));
    assume_quiet(n.le_b(a + e));
    let (p, w, q) = (real_in("P", 0.0, 10.0), real_in("W", -10.0, 10.0), real_in("Q", 0.0, 100.0));
    let r = vm - l(0.055);
    assume_quiet(p.le_b(r * r));
    assume_quiet((w * w).le_b(p));
    assume_quiet((q * q).eq_b(w * w - p + vm * vm));
    let dist = -w + q;
    check("room", dist.ge_b(0.054));
    assume_quiet(dist.ge_b(0.054));
    let s = min(n, min(jm / am * dist, am));
    check("acceleration-not-shortened", s.eq_b(n));
    cover("stated");
}
#[cfg(not(feature = "public_only"))]
mod internal {
    use super::*;
    use franka::robot::rate_limiting::*;
    pub fn velocity() {
        // any limits, both halves at once
        let lt = (real_in("V", 0.1, 5.0), real_in("A", 0.1, 100.0), real_in("J", 0.1, 1e5));
        let lr = (real_in("Vr", 0.1, 5.0), real_in("Ar", 0.1, 100.0), real_in("Jr", 0.1, 1e5));
        let part = choose(2, "part") as usize;
        let b = 0.1 / 1.8;
        let mut v = [l(0.0); 6];
        let mut a = [l(0.0); 6];
        let mut w = [l(0.0); 6];
        for i in 0..3 {
            v[3 * part + i] = real_in(&format!("v{}", i), -b, b);
            a[3 * part + i] = real_in(&format!("a{}", i), -100.0, 100.0);
            w[3 * part + i] = real_in(&format!("w{}", i), -100.0, 100.0);
        }
        if !is_symbolic() {
            // the other half moves as well
            for i in 3 * (1 - part)..3 * (1 - part) + 3 {
                v[i] = real_in(&format!("other v{}", i), -b, b);
                a[i] = real_in(&format!("other a{}", i), -100.0, 100.0);
                w[i] = real_in(&format!("other w{}", i), -100.0, 100.0);
            }
        }
        let out = limit_rate_cartesian_velocity(lt.0, lt.1, lt.2, lr.0, lr.1, lr.2, &w, &v, &a);
        for h in 0..2 {
            if h != part && is_symbolic() {
                for i in 0..3 {
                    check("rest-untouched", out[3 * h + i].within(0.0, 1e-12));
                }
                continue;
            }
            let at = |x: &[R; 6]| -> V3 { std::array::from_fn(|i| x[3 * h + i]) };
            let sp = spec([lt, lr][h], &at(&w), &at(&v), &at(&a));
            for i in 0..3 {
                check("as-specified", out[3 * h + i].within(sp[i], 1e-7));
            }
        }
        cover("reached");
    }
}
