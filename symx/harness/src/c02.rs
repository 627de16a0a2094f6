//! Joint (and elbow) velocity, acceleration and jerk limits.
use crate::common::*;
use crate::drive::*;
use crate::srv::*;

pub fn all() -> Vec<H> {
    #[allow(unused_mut)]
    let mut v = vec![
        h("induct_control_loop", "ControlLoop::do_loop, RobotImpl::update, RobotImpl::receive_robot_state", crate::induct::control_loop).samples(5),
        h("sent_joint_positions", "Robot::control_joint_positions, Robot::control_torques_and_joint_positions, JointPositions::convert_motion, rate_limiting::limit_rate_joint_positions", sent_positions).by("induct_control_loop"),
        h("sent_joint_velocities", "Robot::control_joint_velocities, Robot::control_torques_and_joint_velocities, JointVelocities::convert_motion, rate_limiting::limit_rate_joint_velocities", sent_velocities).by("induct_control_loop"),
        h("sent_elbow", "CartesianPose::convert_motion, CartesianVelocities::convert_motion, rate_limiting::limit_rate_position", sent_elbow).by("induct_control_loop"),
    ];
    v.push(h("long_motion", "Robot::control_joint_positions, Robot::control_joint_velocities, Robot::control_cartesian_*, rate_limiting::limit_rate_joint_positions, rate_limiting::limit_rate_joint_velocities, rate_limiting::limit_rate_position", long).bound(LONG).samples(40));
    #[cfg(not(feature = "public_only"))]
    {
        v.push(h("position_limiter", "rate_limiting::limit_rate_position, rate_limiting::limit_rate_velocity", internal::position));
        v.push(h("velocity_limiter", "rate_limiting::limit_rate_joint_velocities, rate_limiting::limit_rate_velocity", internal::velocity));
        v.push(h("velocity_limiter_invariant", "rate_limiting::limit_rate_joint_velocities, rate_limiting::limit_rate_velocity", internal::invariant));
    }
    v
}
/// admissible acceleration closest to the requested one: jerk first, then what keeps the velocity
/// and acceleration limits
pub fn spec_acc(lim: (R, R, R), req_v: R, v: R, a: R) -> R {
    let (vm, am, jm) = lim;
    let req_a = (req_v - v) / l(DT);
    let dj = jm * l(DT);
    let aj = clamp(req_a, a - dj, a + dj);
    let k = jm / am;
    let hi = {
        let x = k * (vm - v);
        R::ite(x.le_b(am), x, am)
    };
    let lo = {
        let x = k * (-vm - v);
        R::ite(x.ge_b(-am), x, -am)
    };
    clamp(aj, lo, hi)
}
/// obligations on a velocity that is really sent, against the published limits
fn judge(pfx: &str, lim: (f64, f64, f64), sent_v: R, want_v: R, v: R, a: R) {
    let (vm, am, jm) = lim;
    let nm = |s: &str| format!("{}-{}", pfx, s);
    let tol = 1e-8;
    check(&nm("velocity"), sent_v.within(0.0, vm + tol));
    let acc = (sent_v - v) / l(DT);
    check(&nm("acceleration"), acc.within(0.0, am + tol));
    // far enough from the velocity and acceleration limits only the jerk limit applies
    let free = v.within(0.0, vm - 0.06).and(a.within(0.0, 0.45 * am));
    let jerk = (acc - a) / l(DT);
    check(&nm("jerk"), free.implies(jerk.within(0.0, jm + 1e-3)));
    let req_a = (want_v - v) / l(DT);
    let in_limits = want_v
        .within(0.0, vm - 0.06)
        .and(v.within(0.0, vm - 0.06))
        .and(req_a.within(0.0, 0.99 * am))
        .and((req_a - a).within(0.0, 0.99 * jm * DT));
    check(&nm("passthrough"), in_limits.implies(sent_v.within(want_v, tol)));
    let s = spec_acc((l(vm), l(am), l(jm)), want_v, v, a);
    check(&nm("closest"), sent_v.within(v + s * l(DT), 1.2e-3));
    // the request is approached, never overshot, as seen from the motion going on
    check(
        &nm("free-closest"),
        free.implies(acc.within(clamp(req_a, a - l(jm * DT), a + l(jm * DT)), 1e-5)),
    );
}
fn options() -> (Opt, Option<R>) {
    let limit = [None, Some(true)][choose(2, "limit_rate given") as usize];
    let (cutoff, g) = match choose(3, "cutoff") {
        0 => (None, Some(gain(l(100.0)))),
        1 => (Some(l(1000.0)), None),
        _ => (Some(l(17.0)), Some(gain(l(17.0)))),
    };
    (Opt::new(limit, cutoff), g)
}
fn sent_positions() {
    sent_joint(M::Q)
}
fn sent_velocities() {
    sent_joint(M::Dq)
}
fn sent_joint(m: M) {
    let torque = flag("torques too");
    let (opt, g) = options();
    // one joint at a time is symbolic, the others rest
    let j = choose(7, "joint") as usize;
    let lim = JOINT_LIMITS[j];
    let (before, after) = place();
    let mut sim = Sim::new();
    sim.gaps = true;
    sim.fill = Some(Box::new(move |k, s| {
        if k == 2 + before {
            let one = |n: &str, b: f64| {
                let mut x = [l(0.0); 7];
                x[j] = real_in(n, -b, b);
                x
            };
            s.set("q_d", &one("p", 3.0));
            s.set("dq_d", &one("v", lim.0));
            s.set("ddq_d", &one("a", lim.1));
            s.set("q", &one("q_measured", 3.0));
            s.set("dq", &one("dq_measured", 3.0));
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    let with = |n: &str| {
        let mut o = Out::zero();
        match m {
            M::Q => o.q[j] = real_in(n, -10.0, 10.0),
            _ => o.dq[j] = real_in(n, -100.0, 100.0),
        }
        o
    };
    let mut outs: Vec<Out> = (0..before).map(|_| with("earlier request")).collect();
    outs.push(with("request"));
    let out = outs[before].clone();
    outs.extend((0..after).map(|_| Out::zero()));
    let res = play(&mut r, m, opt, outs, torque);
    check("motion-ends-well", res.is_ok());
    let sim = hd.borrow();
    check("sent", sim.cmds.len() == before + 1 + after);
    let c = &sim.cmds[before];
    let s = &sim.states[2 + before];
    for i in 0..7 {
        let (p, v, a) = (s.get("q_d")[i], s.get("dq_d")[i], s.get("ddq_d")[i]);
        let (sent_v, want_v) = match m {
            M::Q => {
                let w = match g {
                    None => out.q[i],
                    Some(g) => g * out.q[i] + (l(1.0) - g) * p,
                };
                ((c.q[i] - p) / l(DT), (w - p) / l(DT))
            }
            _ => {
                let w = match g {
                    None => out.dq[i],
                    Some(g) => g * out.dq[i] + (l(1.0) - g) * v,
                };
                (c.dq[i], w)
            }
        };
        judge("joint", JOINT_LIMITS[i], sent_v, want_v, v, a);
    }
    cover("sent");
}
fn long() {
    if is_symbolic() {
        return cover("concrete only");
    }
    let m = MOTIONS[choose(4, "interface") as usize];
    let torque = flag("torques too");
    let (opt, g) = long_options(&[None, Some(true)]);
    let rng = Rng::new();
    let (mut r1, mut r2) = (rng.clone(), rng);
    r2.next();
    let lim = |r: &mut Rng, k: usize| std::array::from_fn::<R, 7, _>(|i| l(r.f([JOINT_LIMITS[i].0, JOINT_LIMITS[i].1][k])));
    let cs = long_motion(
        m,
        torque,
        opt,
        long_length(),
        move |_, s| {
            s.set("q_d", &r1.arr::<7>(2.0));
            s.set("dq_d", &lim(&mut r1, 0));
            s.set("ddq_d", &lim(&mut r1, 1));
            s.set("elbow_c", &[l(r1.f(2.0)), l(1.0)]);
            s.set("delbow_c", &[l(r1.f(ELBOW_LIMITS.0)), l(0.0)]);
            s.set("ddelbow_c", &[l(r1.f(ELBOW_LIMITS.1)), l(0.0)]);
        },
        |_, s| {
            let mut o = Out::zero();
            // from requests that keep the limits to absurd ones
            let b = [0.5, 5.0, 20.0, 1e3, 1e5][r2.next() as usize % 5];
            let mut near = |v: R, a: R| v + (a + l(r2.f(b))) * l(DT);
            let (q, dq, ddq) = (s.get("q_d"), s.get("dq_d"), s.get("ddq_d"));
            o.dq = std::array::from_fn(|i| near(dq[i], ddq[i]));
            o.q = std::array::from_fn(|i| q[i] + near(dq[i], ddq[i]) * l(DT));
            let e = s.get("elbow_c")[0] + near(s.get("delbow_c")[0], s.get("ddelbow_c")[0]) * l(DT);
            o.elbow = Some([e, l(1.0)]);
            o
        },
        |_, _| Tau { tau: [l(0.0); 7], fin: false },
    );
    let mix = |x: R, y: R| g.map_or(x, |g| g * x + (l(1.0) - g) * y);
    for c in &cs {
        let s = &c.state;
        match m {
            M::Q | M::Dq => {
                let (p, v, a) = (s.get("q_d"), s.get("dq_d"), s.get("ddq_d"));
                for i in 0..7 {
                    let (sent, want) = if m == M::Q {
                        ((c.cmd.q[i] - p[i]) / l(DT), (mix(c.out.q[i], p[i]) - p[i]) / l(DT))
                    } else {
                        (c.cmd.dq[i], mix(c.out.dq[i], v[i]))
                    };
                    judge("joint", JOINT_LIMITS[i], sent, want, v[i], a[i]);
                }
            }
            _ => {
                let (p, v, a) = (s.get("elbow_c")[0], s.get("delbow_c")[0], s.get("ddelbow_c")[0]);
                let w = mix(c.out.elbow.unwrap()[0], p);
                judge("elbow", ELBOW_LIMITS, (c.cmd.elbow[0] - p) / l(DT), (w - p) / l(DT), v, a);
            }
        }
    }
    cover("sent");
}
fn sent_elbow() {
    let m = [M::Pose, M::Vel][choose(2, "interface") as usize];
    let torque = flag("torques too");
    let (opt, g) = options();
    let (before, after) = place();
    let mut sim = Sim::new();
    sim.gaps = true;
    sim.fill = Some(Box::new(move |k, s| {
        if k == 2 + before {
            s.set("elbow_c", &[real_in("p", -3.0, 3.0), l(1.0)]);
            s.set("delbow_c", &[real_in("v", -ELBOW_LIMITS.0, ELBOW_LIMITS.0), real_in("v1", -1.0, 1.0)]);
            s.set("ddelbow_c", &[real_in("a", -ELBOW_LIMITS.1, ELBOW_LIMITS.1), real_in("a1", -1.0, 1.0)]);
            s.set("elbow", &[real_in("measured", -3.0, 3.0), l(1.0)]);
            s.set("elbow_d", &[real_in("desired", -3.0, 3.0), l(1.0)]);
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    let with = |n: &str| {
        let mut o = Out::zero();
        o.elbow = Some([real_in(n, -10.0, 10.0), l(-1.0)]);
        o
    };
    // the elbow need not be commanded in every cycle
    let mut outs: Vec<Out> = (0..before).map(|_| if flag("elbow before") { with("earlier request") } else { Out::zero() }).collect();
    let o = with("request");
    outs.push(o.clone());
    outs.extend((0..after).map(|_| Out::zero()));
    let res = play(&mut r, m, opt, outs, torque);
    check("motion-ends-well", res.is_ok());
    let sim = hd.borrow();
    check("sent", sim.cmds.len() == before + 1 + after);
    let c = &sim.cmds[before];
    let s = &sim.states[2 + before];
    let (p, v, a) = (s.get("elbow_c")[0], s.get("delbow_c")[0], s.get("ddelbow_c")[0]);
    let req = o.elbow.unwrap()[0];
    let w = match g {
        None => req,
        Some(g) => g * req + (l(1.0) - g) * p,
    };
    check("elbow-flag", c.valid_elbow == 1);
    check("elbow-sign", same(&c.elbow[1..], &[l(-1.0)]));
    judge("elbow", ELBOW_LIMITS, (c.elbow[0] - p) / l(DT), (w - p) / l(DT), v, a);
    cover("sent");
}
#[cfg(not(feature = "public_only"))]
mod internal {
    use super::*;
    use franka::robot::rate_limiting::*;
    fn limits() -> (R, R, R) {
        (real_in("V", 0.1, 10.0), real_in("A", 0.1, 100.0), real_in("J", 0.1, 1e5))
    }
    pub fn position() {
        let lim = limits();
        let (p, v, a) = (real_in("p", -10.0, 10.0), real_in("v", -10.0, 10.0), real_in("a", -100.0, 100.0));
        let req = real_in("request", -10.0, 10.0);
        let out = limit_rate_position(lim.0, lim.1, lim.2, req, p, v, a);
        let s = spec_acc(lim, (req - p) / l(DT), v, a);
        check("closest-admissible", out.within(p + (v + s * l(DT)) * l(DT), TOL));
        cover("reached");
    }
    /// one joint at a time, arbitrary limits; the other joints have limits and motion of their own
    pub fn velocity() {
        let lim = limits();
        let j = choose(7, "joint") as usize;
        let mut v = [l(0.25); 7];
        let mut a = [l(-0.5); 7];
        let mut req = [l(0.0); 7];
        let mut ls: [(R, R, R); 7] = std::array::from_fn(|i| (l(JOINT_LIMITS[i].0 * 0.5), l(JOINT_LIMITS[i].1 * 0.5), l(JOINT_LIMITS[i].2 * 0.5)));
        v[j] = real_in("v", -10.0, 10.0);
        a[j] = real_in("a", -100.0, 100.0);
        req[j] = real_in("request", -10.0, 10.0);
        ls[j] = lim;
        let out = limit_rate_joint_velocities(&ls.map(|x| x.0), &ls.map(|x| x.1), &ls.map(|x| x.2), &req, &v, &a);
        for i in 0..7 {
            let s = spec_acc(ls[i], req[i], v[i], a[i]);
            check("closest-admissible", out[i].within(v[i] + s * l(DT), TOL));
        }
        cover("reached");
    }
    /// inductive: from inside the velocity limit the output stays inside it
    pub fn invariant() {
        let j = choose(7, "joint") as usize;
        let (vm, am, jm) = JOINT_LIMITS[j];
        let (v, a) = (real_in("v", -vm, vm), real_in("a", -1e3, 1e3));
        let req = real_in("request", -1e3, 1e3);
        let out = limit_rate_joint_velocities(&[l(vm); 7], &[l(am); 7], &[l(jm); 7], &[req; 7], &[v; 7], &[a; 7]);
        for i in 0..7 {
            check("velocity-invariant", out[i].within(0.0, vm + TOL));
            check("acceleration", (out[i] - v).within(0.0, am * DT + TOL));
        }
        cover("reached");
    }
}
