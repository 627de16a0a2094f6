//! The log of a failed motion: what was sent, with what came back, of this motion only.
use crate::common::*;
use crate::drive::*;
use crate::srv::*;
use franka::exception::{FrankaException, FrankaResult};
use franka::robot::error::FrankaError;
use franka::robot::logger::Record;

pub fn all() -> Vec<H> {
    vec![
        h("induct_control_loop", "ControlLoop::do_loop, RobotImpl::update, Logger::log", crate::induct::control_loop).samples(5),
        h("induct_log", "ControlLoop::do_loop, RobotImpl::update, Logger::log", crate::induct::control_loop_log).samples(5),
        h("induct_log_default", "ControlLoop::do_loop, RobotImpl::update, Logger::log", crate::induct::control_loop_log50).samples(1).thorough(),
        h("induct_session", "RobotImpl::start_motion, RobotImpl::finish_motion, RobotImpl::cancel_motion, Logger::flush", crate::induct::session_log).samples(5),
        h("induct_finish", "RobotImpl::finish_motion, RobotImpl::update, Logger::log", crate::induct::finish).samples(5),
        h("induct_finish_log", "RobotImpl::finish_motion, RobotImpl::update, Logger::log", crate::induct::finish_log).samples(5),
        h("rows", "Logger::log, Logger::flush, RobotImpl::update, RobotImpl::throw_on_motion_error, create_control_exception", rows)
            .bound("log sizes 0, 1, 2, 3, 5, 7 and up to 9 cycles; all values")
            .by("induct_control_loop,induct_log"),
        h("default_size", "Robot::new, Logger::log, Logger::flush", default_size)
            .bound("49, 50, 51, 60 and 103 cycles"),
        h("finish_phase", "RobotImpl::finish_motion, Logger::flush", finish_phase)
            .bound("log sizes 0, 1, 2, 3, 5; up to three cycles and three finishing states more than the log holds")
            .by("induct_finish,induct_finish_log,induct_control_loop,induct_log"),
        h("earlier_motions", "Logger::flush, RobotImpl::start_motion", earlier)
            .bound("two motions, log sizes 1, 2, 3, 5, up to two cycles more than the log holds in each")
            .by("induct_session,induct_control_loop,induct_log"),
        h("reflex_report", "create_control_exception, FrankaErrors::fmt", reflex)
            .bound("up to 3 cycles, the listed gaps and rates"),
        h("reflex_reasons", "create_control_exception, FrankaErrors::fmt, FrankaError::fmt", reasons),
        h("no_log_without_motion", "RobotImpl::start_motion", early),
    ]
}
const STATUS: [u8; 5] = [2, 5, 6, 7, 9];
fn robot(size: Option<usize>) -> Robot {
    match Robot::new("10.11.12.13", RealtimeConfig::Ignore, size) {
        Ok(r) => r,
        Err(e) => panic!("connection failed: {}", e),
    }
}
/// fresh numbers for everything the callbacks return
fn outputs(n: usize, m: M, tag: &str) -> Vec<(Out, [R; 7])> {
    (0..n)
        .map(|k| {
            let mut o = Out::zero();
            match m {
                M::Q => o.q = reals(&format!("{}q{}", tag, k), -2.0, 2.0),
                M::Dq => o.dq = reals(&format!("{}dq{}", tag, k), -2.0, 2.0),
                M::Pose => o.pose = pose(reals(&format!("{}p{}", tag, k), -2.0, 2.0)),
                M::Vel => o.vel = reals(&format!("{}v{}", tag, k), -2.0, 2.0),
                M::None => {}
            }
            (o, reals(&format!("{}t{}", tag, k), -2.0, 2.0))
        })
        .collect()
}
fn run(r: &mut Robot, m: M, torque: bool, out: &[(Out, [R; 7])], end: bool) -> FrankaResult<()> {
    let k = std::cell::Cell::new(0usize);
    let t = std::cell::Cell::new(0usize);
    let n = out.len();
    let mo = |_: &franka::robot::robot_state::RobotState, _: &Duration| {
        let i = k.get();
        k.set(i + 1);
        let mut o = if i < n { out[i].0.clone() } else { Out::zero() };
        o.fin = end && i + 1 >= n;
        o
    };
    let to = |_: &franka::robot::robot_state::RobotState, _: &Duration| {
        let i = t.get();
        t.set(i + 1);
        Tau { tau: if i < n { out[i].1 } else { [l(0.0); 7] }, fin: m == M::None && end && i + 1 >= n }
    };
    if torque {
        control_t(r, m, Opt::raw(), mo, to)
    } else {
        control(r, m, Opt::raw(), mo)
    }
}
/// state of the k-th cycle carries fresh numbers
fn tagged_states(sim: &mut Sim, names: &'static [(&'static str, usize)]) {
    sim.fill = Some(Box::new(move |k, s| {
        for (f, n) in names {
            let v: Vec<R> = (0..*n).map(|i| real_in(&format!("{}_{}_{}", f, k, i), -3.0, 3.0)).collect();
            s.set(f, &v);
        }
    }));
}
/// the rows are the newest ones, oldest first, each a sent command with the state that followed
fn judge(log: &[Record], s: &Sim, size: usize, cmd0: usize, state0: usize) {
    let n = s.cmds.len() - cmd0;
    let m = n.min(size);
    check("number-of-rows", log.len() == m);
    if log.len() != m {
        return;
    }
    for (j, r) in log.iter().enumerate() {
        let c = &s.cmds[cmd0 + n - m + j];
        let w = &s.states[state0 + n - m + j];
        check("joint-positions-as-sent", same(&r.command.joint_positions.q, &c.q));
        check("joint-velocities-as-sent", same(&r.command.joint_velocities.dq, &c.dq));
        check("pose-as-sent", same(&r.command.cartesian_pose.O_T_EE, &c.pose));
        check("cartesian-velocities-as-sent", same(&r.command.cartesian_velocities.O_dP_EE, &c.vel));
        check("torques-as-sent", same(&r.command.torques.tau_J, &c.tau));
        check("next-state-time", r.state.time.as_millis().z().eq_b(w.id.z()));
        check("next-state-q", same(&r.state.q, &w.get("q")));
        check("next-state-dq", same(&r.state.dq, &w.get("dq")));
        check("next-state-pose", same(&r.state.O_T_EE, &w.get("O_T_EE")));
        check("next-state-torques", same(&r.state.tau_J, &w.get("tau_J")));
        check("order", w.id.z().lt_b(Z::C(1 << 60)));
        if j > 0 {
            check("oldest-first", log[j - 1].state.time.as_millis().z().lt_b(r.state.time.as_millis().z()));
        }
    }
    cover("rows");
}
fn take(res: FrankaResult<()>) -> Option<(Vec<Record>, String)> {
    match res {
        Err(FrankaException::ControlException { log: Some(l), error }) => Some((l, error)),
        Err(e) => {
            note(&format!("{}", e));
            check("control-error-with-log", false);
            None
        }
        Ok(_) => {
            check("reported", false);
            None
        }
    }
}
fn abort_at(sim: &mut Sim, at: usize, st: u8) {
    sim.script = Some(Box::new(move |s, k| {
        if k == at {
            s.idle();
            s.rm = 4;
            let id = s.move_id.take().unwrap();
            s.respond(MOVE, id, &[st]);
        }
    }));
}
const NAMES: &[(&str, usize)] = &[("q", 7), ("dq", 7), ("tau_J", 7)];
fn rows() {
    let m = [M::Q, M::Dq, M::Pose, M::Vel, M::None][choose(5, "interface") as usize];
    let torque = m == M::None || flag("with torques");
    let size = [0, 1, 2, 3, 5, 7][choose(6, "log size") as usize];
    let n = choose(10, "cycles before the error") as usize;
    let st = STATUS[choose(STATUS.len() as u32, "status") as usize];
    let mut sim = Sim::new();
    tagged_states(&mut sim, NAMES);
    abort_at(&mut sim, 2 + n, st);
    let hd = install(sim);
    let mut r = robot(Some(size));
    let res = run(&mut r, m, torque, &outputs(n, m, "c"), false);
    if let Some((log, _)) = take(res) {
        let s = hd.borrow();
        check("commands", s.cmds.len() == n);
        judge(&log, &s, size, 0, 3);
    }
}
fn default_size() {
    let n = [49, 50, 51, 60, 103][choose(5, "cycles") as usize];
    let mut sim = Sim::new();
    sim.step = 3;
    abort_at(&mut sim, 2 + n, 9);
    let hd = install(sim);
    let mut r = robot(None);
    let out: Vec<(Out, [R; 7])> = (0..n)
        .map(|k| {
            let mut o = Out::zero();
            o.q = [l(0.5 + k as f64); 7];
            (o, [l(0.0); 7])
        })
        .collect();
    if let Some((log, _)) = take(run(&mut r, M::Q, false, &out, false)) {
        judge(&log, &hd.borrow(), 50, 0, 3);
    }
}
/// the commands that announce the end are part of the log as well
fn finish_phase() {
    let size = [0, 1, 2, 3, 5][choose(5, "log size") as usize];
    let n = 1 + choose(size as u32 + 3, "cycles") as usize;
    let delay = choose(size as u32 + 4, "states until the robot has stopped");
    // every interface and every refusal for the short ones
    let short = n <= 4 && delay <= 2 && size <= 3;
    let m = if short { [M::Q, M::Dq, M::Pose, M::Vel, M::None][choose(5, "interface") as usize] } else { M::Pose };
    let torque = m == M::None || flag("with torques");
    let mut sim = Sim::new();
    tagged_states(&mut sim, NAMES);
    sim.move_final = STATUS[if short { choose(STATUS.len() as u32, "status") as usize } else { 0 }];
    sim.finish_delay = delay;
    let hd = install(sim);
    let mut r = robot(Some(size));
    let res = run(&mut r, m, torque, &outputs(n, m, "c"), true);
    if let Some((log, _)) = take(res) {
        let s = hd.borrow();
        check("commands", s.cmds.len() >= n);
        judge(&log, &s, size, 0, 3);
    }
}
/// nothing of an earlier motion, however it ended
fn earlier() {
    let size = [1, 2, 3, 5][choose(4, "log size") as usize];
    let a = choose(size as u32 + 3, "cycles of the first motion") as usize;
    let b = choose(size as u32 + 3, "cycles of the second motion") as usize;
    let how = choose(3, "end of the first motion");
    // every kind of controller before and after every other
    let kinds = [(M::Q, false), (M::Vel, false), (M::None, true), (M::Pose, true)];
    let pair = if size == 2 { choose(16, "interfaces") as usize } else { [1, 6, 8][choose(3, "interfaces") as usize] };
    let ((m1, t1), (m2, t2)) = (kinds[pair / 4], kinds[pair % 4]);
    let mut sim = Sim::new();
    tagged_states(&mut sim, NAMES);
    if how == 1 {
        abort_at(&mut sim, 2 + a, 9);
    }
    if how == 2 {
        sim.move_final = 6;
    }
    let hd = install(sim);
    let mut r = robot(Some(size));
    let first = run(&mut r, m1, t1, &outputs(a.max(1), m1, "a"), how != 1);
    check("first-as-planned", first.is_ok() == (how == 0));
    let (c0, s0) = {
        let mut s = hd.borrow_mut();
        s.script = None;
        let at = s.states.len() + 1 + b;
        abort_at(&mut s, at, 9);
        (s.cmds.len(), s.states.len())
    };
    let res = run(&mut r, m2, t2, &outputs(b, m2, "b"), false);
    if let Some((log, _)) = take(res) {
        let s = hd.borrow();
        // one state while starting, one before the first callback
        check("commands", s.cmds.len() == c0 + b);
        judge(&log, &s, size, c0, s0 + 2);
    }
}
/// numbers in the message belong to the last rows
fn reflex() {
    let n = choose(4, "cycles") as usize;
    let size = [0, 1, 2, 4][choose(4, "log size") as usize];
    let gap = [1u64, 2, 5, 11, 101, 150, 70000][choose(7, "distance of the last two states") as usize];
    let rate = [0.0, 0.5, 0.96, 1.0][choose(4, "success rate") as usize];
    let mut sim = Sim::new();
    let last = 2 + n;
    let at = std::cell::Cell::new(0);
    let _ = &at;
    sim.fill = Some(Box::new(move |k, s| {
        if k == last {
            s.id = s.id + U64::lit(gap - 1);
            s.rate = l(0.123);
            s.refl[6] = true;
        } else {
            s.rate = l(if k + 1 == last { rate } else { 0.777 });
        }
    }));
    abort_at(&mut sim, last, 6);
    install(sim);
    let mut r = robot(Some(size));
    if let Some((log, e)) = take(run(&mut r, M::Q, false, &outputs(n, M::Q, "c"), false)) {
        note(&e);
        check("rows", log.len() == n.min(size));
        check("says-reflex", e.contains("reflex"));
        check("names-reason", e.contains("JointReflex"));
        let two = n.min(size) >= 2;
        check("rate-reported", e.contains("control_command_success_rate: ") == two);
        check("losses-reported", e.contains("packets lost") == (two && gap > 1));
        if two {
            let num = e.split("control_command_success_rate: ").nth(1).unwrap_or("").split_whitespace().next().unwrap_or("").parse::<f64>();
            let want = rate * (1.0 - (gap - 1) as f64 / 100.0);
            check("rate", num.map_or(false, |x| (x - want).abs() < 1e-9));
            if gap > 1 {
                check("losses", e.trim_end().ends_with(&format!("last sample: {}", gap - 1)));
            }
            cover("two");
        } else {
            cover("less");
        }
    }
}
/// every reported reason is named, no other is
fn reasons() {
    use FrankaError::*;
    let names: [(usize, FrankaError); 8] = [
        (0, JointPositionLimitsViolation),
        (6, JointReflex),
        (7, CartesianReflex),
        (15, JointMotionGeneratorAccelerationDiscontinuity),
        (25, CommunicationConstraintsViolation),
        (26, PowerLimitViolation),
        (32, ControllerTorqueDiscontinuity),
        (40, BaseAccelerationInvalidReading),
    ];
    let on: Vec<bool> = names.iter().map(|_| flag("reason")).collect();
    let in_finish = flag("while finishing");
    let mut sim = Sim::new();
    let on2 = on.clone();
    let idx: Vec<usize> = names.iter().map(|x| x.0).collect();
    sim.fill = Some(Box::new(move |k, s| {
        s.refl = [false; 41];
        if k >= 3 {
            for (j, i) in idx.iter().enumerate() {
                s.refl[*i] = on2[j];
            }
        }
        s.err[3] = true;
    }));
    if in_finish {
        sim.move_final = 6;
    } else {
        abort_at(&mut sim, 3, 6);
    }
    install(sim);
    let mut r = robot(Some(4));
    if let Some((_, e)) = take(run(&mut r, M::Q, false, &outputs(1, M::Q, "c"), in_finish)) {
        note(&e);
        for (j, (_, f)) in names.iter().enumerate() {
            check("named-iff-reported", e.contains(&format!("\"{:?}\"", f)) == on[j]);
        }
        check("not-the-current-errors", !e.contains("JointVelocityViolation"));
        cover("reasons");
    }
}
/// a motion that never ran has no log of its own
fn early() {
    let a = choose(3, "cycles of an earlier motion") as usize;
    let mut sim = Sim::new();
    sim.send_final = true;
    let hd = install(sim);
    let mut r = robot(Some(4));
    if a > 0 {
        check("first", run(&mut r, M::Q, false, &outputs(a, M::Q, "a"), true).is_ok());
    }
    {
        let mut s = hd.borrow_mut();
        let at = s.states.len();
        s.script = Some(Box::new(move |s, k| {
            s.idle();
            if k == at {
                let id = s.move_id.take().unwrap();
                s.respond(MOVE, id, &[9]);
            }
        }));
    }
    match run(&mut r, M::Q, false, &outputs(1, M::Q, "b"), true) {
        Err(FrankaException::ControlException { log, .. }) => {
            check("no-rows", log.map_or(true, |l| l.is_empty()));
            cover("early");
        }
        _ => check("control-error", false),
    }
}
