//! The state handed to the user is the state that was received.
use crate::common::*;
use crate::drive::*;
use crate::srv::*;
use franka::robot::error::FrankaError;
use franka::robot::robot_state::RobotState;
use std::cell::RefCell;
use std::rc::Rc;

pub fn all() -> Vec<H> {
    vec![
        h("fields", "RobotState::from, Robot::read_once, Robot::read, RobotImpl::receive_robot_state, Network::udp_blocking_receive", fields),
        h("errors", "FrankaErrors::new, FrankaErrors::contains, RoboErrorHelperStruct::combine_errors, RoboErrorHelperStruct::combine_reflex_reasons", errors),
        h("modes", "RobotState::from, RobotMode", modes),
        h("callback_state", "ControlLoop::do_loop, RobotImpl::update, RobotState::from", callback_state),
    ]
}
pub const ERRORS: [FrankaError; 41] = {
    use FrankaError::*;
    [
        JointPositionLimitsViolation,
        CartesianPositionLimitsViolation,
        SelfCollisionAvoidanceViolation,
        JointVelocityViolation,
        CartesianVelocityViolation,
        ForceControlSafetyViolation,
        JointReflex,
        CartesianReflex,
        MaxGoalPoseDeviationViolation,
        MaxPathPoseDeviationViolation,
        CartesianVelocityProfileSafetyViolation,
        JointPositionMotionGeneratorStartPoseInvalid,
        JointMotionGeneratorPositionLimitsViolation,
        JointMotionGeneratorVelocityLimitsViolation,
        JointMotionGeneratorVelocityDiscontinuity,
        JointMotionGeneratorAccelerationDiscontinuity,
        CartesianPositionMotionGeneratorStartPoseInvalid,
        CartesianMotionGeneratorElbowLimitViolation,
        CartesianMotionGeneratorVelocityLimitsViolation,
        CartesianMotionGeneratorVelocityDiscontinuity,
        CartesianMotionGeneratorAccelerationDiscontinuity,
        CartesianMotionGeneratorElbowSignInconsistent,
        CartesianMotionGeneratorStartElbowInvalid,
        ForceControllerDesiredForceToleranceViolation,
        StartElbowSignInconsistent,
        CommunicationConstraintsViolation,
        PowerLimitViolation,
        CartesianMotionGeneratorJointPositionLimitsViolation,
        CartesianMotionGeneratorJointVelocityLimitsViolation,
        CartesianMotionGeneratorJointVelocityDiscontinuity,
        CartesianMotionGeneratorJointAccelerationDiscontinuity,
        CartesianPositionMotionGeneratorInvalidFrame,
        ControllerTorqueDiscontinuity,
        JointP2PInsufficientTorqueForPlanning,
        TauJRangeViolation,
        InstabilityDetection,
        JointMoveInWrongDirection,
        CartesianSplineViolation,
        JointViaPlanLimitViolation,
        BaseAccelerationInitializationTimeout,
        BaseAccelerationInvalidReading,
    ]
};
fn anything(pfx: &str, s: &mut WState) {
    for (n, k) in FIELDS.iter() {
        let v: Vec<R> = (0..*k).map(|i| real_in(&format!("{}.{}[{}]", pfx, n, i), -100.0, 100.0)).collect();
        s.set(n, &v);
    }
    s.rate = real_in(&format!("{}.rate", pfx), -2.0, 2.0);
}
fn compare(r: &RobotState, s: &WState) {
    macro_rules! f { ($($n:ident),*) => { $( check(concat!("field-", stringify!($n)), same(&r.$n, &s.get(stringify!($n)))); )* } }
    f!(O_T_EE, O_T_EE_d, F_T_EE, EE_T_K, F_T_NE, NE_T_EE, I_ee, F_x_Cee, I_load, F_x_Cload, elbow, elbow_d,
       tau_J, tau_J_d, dtau_J, q, q_d, dq, dq_d, ddq_d, joint_contact, cartesian_contact, joint_collision,
       cartesian_collision, tau_ext_hat_filtered, O_F_ext_hat_K, K_F_ext_hat_K, O_dP_EE_d, O_ddP_O, elbow_c,
       delbow_c, ddelbow_c, O_T_EE_c, O_dP_EE_c, O_ddP_EE_c, theta, dtheta);
    check("field-m_ee", same(&[r.m_ee], &s.get("m_ee")));
    check("field-m_load", same(&[r.m_load], &s.get("m_load")));
    check("field-rate", same(&[r.control_command_success_rate], &[s.rate]));
    let m = s.get("m_ee")[0] + s.get("m_load")[0];
    check("total-mass", r.m_total.within(m, TOL));
    check("time", r.time.as_nanos().z().eq_b(s.id.z().mul(Z::C(1_000_000))));
}
fn fields() {
    let id = U64::from_z(int_in("id", 2, 1 << 40));
    let mut sim = Sim::new();
    sim.fill = Some(Box::new(move |k, s| {
        if k >= 1 {
            anything(&format!("s{}", k), s);
            s.id = id + U64::lit(k as u64);
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    if flag("read") {
        let mut n = 0;
        let h2 = hd.clone();
        let res = r.read(|s| {
            compare(s, h2.borrow().states.last().unwrap());
            n += 1;
            n < 2
        });
        check("read-ok", res.is_ok());
        check("read-stops-when-told", n == 2);
        check("read-one-state-each", hd.borrow().states.len() == 3);
    } else {
        let st = r.read_once();
        check("read-once-ok", st.is_ok());
        if let Ok(st) = st {
            compare(&st, hd.borrow().states.last().unwrap());
        }
    }
    check("reading-commands-nothing", hd.borrow().cmds.is_empty() && hd.borrow().reqs.len() == 1);
    cover("read");
}
fn read_with(f: impl FnMut(usize, &mut WState) + 'static) -> RobotState {
    let mut sim = Sim::new();
    sim.fill = Some(Box::new(f));
    let _hd = install(sim);
    let mut r = connect();
    r.read_once().unwrap_or_else(|e| panic!("{}", e))
}
fn errors() {
    let mut err = [false; 41];
    let mut refl = [false; 41];
    match choose(4, "pattern") {
        0 => {
            let i = choose(82, "flag") as usize;
            if i < 41 {
                err[i] = true
            } else {
                refl[i - 41] = true
            }
        }
        1 => {
            // all but one
            let i = choose(82, "flag") as usize;
            err = [true; 41];
            refl = [true; 41];
            if i < 41 {
                err[i] = false
            } else {
                refl[i - 41] = false
            }
        }
        2 => {
            let i = choose(41, "first") as usize;
            let j = choose(41, "second") as usize;
            err[i] = true;
            refl[j] = true;
        }
        _ => {
            if flag("all") {
                err = [true; 41];
                refl = [true; 41];
            }
        }
    }
    let st = read_with(move |_k, s| {
        s.err = err;
        s.refl = refl;
    });
    for i in 0..41 {
        check("current-error", st.current_errors.contains(ERRORS[i]) == err[i]);
        check("last-motion-error", st.last_motion_errors.contains(ERRORS[i]) == refl[i]);
    }
    check("no-duplicates", st.current_errors.franka_errors.len() == err.iter().filter(|x| **x).count());
    check("no-reflex-duplicates", st.last_motion_errors.franka_errors.len() == refl.iter().filter(|x| **x).count());
    cover("read");
}
fn modes() {
    let m = choose(7, "robot mode") as u8;
    let st = read_with(move |_k, s| s.rm = m);
    let want = ["Other", "Idle", "Move", "Guiding", "Reflex", "UserStopped", "AutomaticErrorRecovery"];
    check("robot-mode", format!("{:?}", st.robot_mode) == want[m as usize]);
    cover("read");
}
/// the state a control callback sees
fn callback_state() {
    let m = MOTIONS[choose(4, "interface") as usize];
    let torque = flag("with torques");
    let mut sim = Sim::new();
    sim.fill = Some(Box::new(move |k, s| {
        if k >= 2 {
            anything(&format!("s{}", k), s);
            s.set("O_T_EE_c", &pose([l(0.0); 3]));
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    let n = Rc::new(RefCell::new(0));
    let (h2, n2, h3) = (hd.clone(), n.clone(), hd.clone());
    let f = move |s: &RobotState, _: &Duration| {
        compare(s, h2.borrow().states.last().unwrap());
        *n2.borrow_mut() += 1;
        let mut o = Out::zero();
        o.fin = *n2.borrow() == 2;
        o
    };
    let res = if torque {
        control_t(&mut r, m, Opt::raw(), f, move |s, _| {
            compare(s, h3.borrow().states.last().unwrap());
            Tau { tau: [l(0.0); 7], fin: false }
        })
    } else {
        control(&mut r, m, Opt::raw(), f)
    };
    check("motion-ends-well", res.is_ok());
    cover("called");
}
