//! Torque rate limit.
use crate::common::*;
use crate::drive::*;
use crate::srv::*;
use std::cell::RefCell;
use std::rc::Rc;

pub fn all() -> Vec<H> {
    #[allow(unused_mut)]
    let mut v = vec![
        h("induct_control_loop", "ControlLoop::do_loop, RobotImpl::update, RobotImpl::receive_robot_state", crate::induct::control_loop).samples(5),
        h(
        "sent_torque_rate",
        "Robot::control_torques*, ControlLoop::spin_control, rate_limiting::limit_rate_torques, low_pass_filter",
        sent,
    ).by("induct_control_loop"),
        h("long_motion", "Robot::control_torques*, ControlLoop::spin_control, rate_limiting::limit_rate_torques, low_pass_filter", long).bound(LONG).samples(40),
    ];
    #[cfg(not(feature = "public_only"))]
    v.push(h("torque_limit", "rate_limiting::limit_rate_torques", internal::torque_limit));
    v
}
/// every entry point that takes torques, limiting requested or by default, any filter
fn sent() {
    let m = [M::None, M::Q, M::Dq, M::Pose, M::Vel][choose(5, "interface") as usize];
    let limit = [None, Some(true)][choose(2, "limit_rate given") as usize];
    let (cutoff, g) = match choose(4, "cutoff") {
        0 => (None, Some(gain(l(100.0)))),
        1 => (Some(l(1000.0)), None),
        2 => (Some(l(1e6)), None),
        _ => {
            let f = real_in("cutoff", 0.5, 999.999);
            (Some(f), Some(gain(f)))
        }
    };
    let mut sim = Sim::new();
    sim.gaps = true;
    sim.fill = Some(Box::new(|k, s| {
        if k >= 2 {
            s.set("tau_J_d", &reals::<7>(&format!("s{}.tau_J_d", k), -200.0, 200.0));
            s.set("tau_J", &reals::<7>(&format!("s{}.tau_J", k), -200.0, 200.0));
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    let seen: Rc<RefCell<Vec<(usize, [R; 7])>>> = Rc::new(RefCell::new(vec![]));
    let (s2, h2) = (seen.clone(), hd.clone());
    let n = 2;
    let res = control_t(
        &mut r,
        m,
        Opt::new(limit, cutoff),
        |_s, _d| Out::zero(),
        move |_s, _d| {
            let k = s2.borrow().len();
            let tau = reals(&format!("tau{}", k), -1e4, 1e4);
            s2.borrow_mut().push((h2.borrow().states.len() - 1, tau));
            Tau { tau, fin: k + 1 == n }
        },
    );
    check("motion-ends-well", res.is_ok());
    let sim = hd.borrow();
    check("commands", sim.cmds.len() == n);
    for (k, c) in sim.cmds.iter().enumerate() {
        let (si, tau) = &seen.borrow()[k];
        judge(c, &sim.states[*si].arr("tau_J_d"), tau, g);
    }
    cover("sent");
}
fn judge(c: &WCmd, last: &[R; 7], tau: &[R; 7], g: Option<R>) {
    for i in 0..7 {
        let d = c.tau[i] - last[i];
        check("rate-bounded", d.within(0.0, TORQUE_RATE * DT));
        // the processed request: as asked for, or filtered
        let want = match g {
            None => tau[i],
            Some(g) => g * tau[i] + (l(1.0) - g) * last[i],
        };
        // closest admissible value (limits lie within 0.1 % below the published ones)
        let margin = 1e-5;
        let w = last[i] + clamp(want - last[i], l(-TORQUE_RATE * DT), l(TORQUE_RATE * DT));
        check("closest", c.tau[i].within(w, margin));
        check(
            "passthrough",
            (want - last[i])
                .within(0.0, TORQUE_RATE * DT - margin)
                .implies(c.tau[i].within(want, TOL)),
        );
    }
}
fn long() {
    if is_symbolic() {
        return cover("concrete only");
    }
    let m = [M::None, M::Q, M::Dq, M::Pose, M::Vel][choose(5, "interface") as usize];
    let (opt, g) = long_options(&[None, Some(true)]);
    let rng = Rng::new();
    let (mut r1, mut r2) = (rng.clone(), rng);
    r2.next();
    let cs = long_motion(
        m,
        true,
        opt,
        long_length(),
        move |_, s| s.set("tau_J_d", &r1.arr::<7>(80.0)),
        |_, _| Out::zero(),
        |_, s| {
            let last = s.get("tau_J_d");
            let far = r2.flag();
            let d = r2.arr::<7>(if far { 90.0 } else { 2.0 });
            Tau { tau: std::array::from_fn(|i| last[i] + d[i]), fin: false }
        },
    );
    for c in &cs {
        judge(&c.cmd, &c.state.arr("tau_J_d"), &c.tau.tau, g);
    }
    cover("sent");
}
#[cfg(not(feature = "public_only"))]
mod internal {
    use super::*;
    use franka::robot::rate_limiting::*;
    pub fn torque_limit() {
        let max: [R; 7] = reals("max", 0.0, 1e6);
        let cmd: [R; 7] = reals("cmd", -1e6, 1e6);
        let last: [R; 7] = reals("last", -1e6, 1e6);
        let out = limit_rate_torques(&max, &cmd, &last);
        for i in 0..7 {
            let d = out[i] - last[i];
            check("bounded", d.within(0.0, max[i] * l(DT) + l(TOL)));
            let want = cmd[i] - last[i];
            check(
                "passthrough",
                want.within(0.0, max[i] * l(DT)).implies(out[i].within(cmd[i], TOL)),
            );
            check(
                "closest",
                out[i].within(last[i] + clamp(want, -max[i] * l(DT), max[i] * l(DT)), TOL),
            );
        }
        cover("reached");
    }
}
