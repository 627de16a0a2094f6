//! A motion is started, finished or canceled completely; afterwards the next one can run.
use crate::common::*;
use crate::drive::*;
use crate::ops::kind;
use crate::srv::*;
use franka::exception::{FrankaException, FrankaResult};
use franka::robot::control_types::ControllerMode;

pub fn all() -> Vec<H> {
    vec![
        h("start", "RobotImpl::start_motion, RobotImpl::execute_move_command, RobotImpl::update, ControlLoop::new, ControlLoop::from_control_mode", start)
            .bound("modes reported after up to 3 states")
            .by("induct_start,induct_session"),
        h("rejected", "RobotImpl::start_motion, RobotImpl::execute_move_command, handle_command_response_move", rejected),
        h("aborted_while_starting", "RobotImpl::start_motion, Network::tcp_receive_response", aborted_early)
            .bound("abort after up to 3 states")
            .by("induct_start"),
        h("silence_while_starting", "RobotImpl::start_motion, RobotImpl::receive_robot_state", silent_early)
            .bound("silence after up to 2 states")
            .by("induct_start"),
        h("finish", "RobotImpl::finish_motion, Network::tcp_blocking_receive_response", finish)
            .bound("up to 2 cycles, modes idle after up to 2 states, one following motion")
            .by("induct_control_loop,induct_finish,induct_session"),
        h("finish_fails", "RobotImpl::finish_motion, RobotImpl::cancel_motion, handle_command_response_move", finish_fails)
            .bound("up to 1 cycle and 1 state of delay, one following motion")
            .by("induct_control_loop,induct_finish,induct_session"),
        h("cancel", "ControlLoop::run, RobotImpl::cancel_motion, RobotImpl::execute_stop_command", cancel)
            .bound("failure in the first 2 cycles, stopped after up to 2 states, one following motion")
            .by("induct_control_loop,induct_cancel,induct_session"),
        h("cancel_refused", "ControlLoop::run, RobotImpl::cancel_motion, handle_command_response_stop", cancel_refused)
            .bound("failure in the first 2 cycles, one following motion")
            .by("induct_control_loop,induct_cancel,induct_session"),
        h("induct_start", "RobotImpl::start_motion, RobotImpl::update", crate::induct::start).samples(5),
        h("induct_finish", "RobotImpl::finish_motion, RobotImpl::update", crate::induct::finish).samples(5),
        h("induct_cancel", "RobotImpl::cancel_motion, RobotImpl::receive_robot_state", crate::induct::cancel).samples(5),
        h("induct_control_loop", "ControlLoop::do_loop, RobotImpl::update", crate::induct::control_loop).samples(5),
        h("induct_session", "RobotImpl::start_motion, RobotImpl::finish_motion, RobotImpl::cancel_motion", crate::induct::session).samples(5),
        h("one_motion_at_a_time", "RobotImpl::start_motion", exclusive),
    ]
}
const STATUS: [(u8, &str); 8] = [
    (2, "preempted"),
    (3, "not possible"),
    (4, "singular"),
    (5, "deviation"),
    (6, "reflex"),
    (7, "User Stop"),
    (8, "invalid input"),
    (9, "aborted"),
];
fn interface() -> (M, bool) {
    let m = [M::None, M::Q, M::Dq, M::Pose, M::Vel][choose(5, "interface") as usize];
    (m, m == M::None || flag("with torques"))
}
/// codes that the robot reports while that motion is active
fn codes(m: M, torque: bool, cart: bool) -> (u8, u8) {
    let mg = match m {
        M::Q => 1,
        M::Dq => 2,
        M::Pose => 3,
        M::Vel => 4,
        M::None => 2,
    };
    (mg, if torque { 2 } else { cart as u8 })
}
fn go(r: &mut Robot, m: M, torque: bool, cart: bool, n: usize, hd: &Handle) -> (usize, FrankaResult<()>) {
    let mut o = Opt::raw();
    if cart {
        o.mode = Some(ControllerMode::CartesianImpedance);
    }
    let calls = std::cell::Cell::new(0);
    let lead = torque;
    let tick = |t: bool| {
        if t == lead {
            calls.set(calls.get() + 1);
            hd.borrow_mut().log.push(E::Callback(calls.get()));
        }
        t == lead && calls.get() > n
    };
    let mo = |_: &franka::robot::robot_state::RobotState, _: &Duration| {
        let mut o = Out::zero();
        o.fin = tick(false);
        o
    };
    let to = |_: &franka::robot::robot_state::RobotState, _: &Duration| Tau { tau: [l(0.0); 7], fin: tick(true) };
    let res = if torque { control_t(r, m, o, mo, to) } else { control(r, m, o, mo) };
    (calls.get(), res)
}
/// another motion runs from start to end
fn again(r: &mut Robot, hd: &Handle) {
    let (c0, q0) = {
        let mut s = hd.borrow_mut();
        s.script = None;
        s.move_first = 1;
        s.move_final = 0;
        s.stop_status = 0;
        s.finish_delay = 1;
        s.states_left = 1000;
        (s.cmds.len(), s.reqs.len())
    };
    let (m, t) = [(M::Q, false), (M::Vel, true), (M::None, true)][choose(3, "next motion") as usize];
    let (n, res) = go(r, m, t, false, 1, hd);
    if let Err(e) = &res {
        note(&format!("next motion: {}", e));
    }
    check("next-motion-works", res.is_ok());
    check("next-motion-runs", n == 2);
    let s = hd.borrow();
    check("next-motion-commands", s.cmds.len() == c0 + 3);
    check("next-motion-requests", s.reqs.len() == q0 + 1 && s.reqs[q0].cmd == MOVE);
    cover("next");
}
/// the robot needs some cycles until it reports the requested modes, in any order
fn start() {
    let (m, torque) = interface();
    let cart = !torque && flag("cartesian impedance");
    let (mg, cm) = codes(m, torque, cart);
    let (dm, dc) = (choose(4, "motion generator reported after"), choose(4, "controller reported after"));
    let mut sim = Sim::new();
    sim.script = Some(Box::new(move |s, k| {
        if s.move_id.is_some() && s.cmds.is_empty() {
            s.mg = if k > dm as usize { mg } else { 0 };
            s.cm = if k > dc as usize { cm } else { 3 };
            s.rm = if k > dm.max(dc) as usize { 2 } else { 1 };
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    let (n, res) = go(&mut r, m, torque, cart, 1, &hd);
    check("ends-well", res.is_ok());
    check("callbacks", n == 2);
    {
        let s = hd.borrow();
        check("one-move-request", s.reqs.iter().filter(|q| q.cmd == MOVE).count() == 1);
        // nothing is asked for or sent before both modes have been seen
        let ready = s
            .log
            .iter()
            .position(|e| matches!(e, E::State(k) if *k > 0 && s.states[*k].mg == mg && s.states[*k].cm == cm));
        let first = s.log.iter().position(|e| matches!(e, E::Callback(_) | E::Cmd(_)));
        check("no-command-before-modes", ready.is_some() && first.is_some() && ready < first);
        check("commands", s.cmds.len() == 2);
    }
    again(&mut r, &hd);
}
/// the Move request itself is refused
fn rejected() {
    let (m, torque) = interface();
    let (st, word) = STATUS[choose(8, "status") as usize];
    let mut sim = Sim::new();
    sim.move_first = st;
    let hd = install(sim);
    let mut r = connect();
    let (n, res) = go(&mut r, m, torque, false, 1, &hd);
    match &res {
        Ok(_) => check("reported", false),
        Err(FrankaException::CommandException { message }) => {
            check("names-the-reason", message.contains(word));
        }
        Err(e) => {
            note(kind(e));
            check("command-error", false)
        }
    }
    check("no-callback", n == 0);
    {
        let s = hd.borrow();
        check("no-command", s.cmds.is_empty());
    }
    again(&mut r, &hd);
}
/// accepted at first, but taken back before the modes are reported
fn aborted_early() {
    let (m, torque) = interface();
    let (st, word) = STATUS[choose(8, "status") as usize];
    let after = 1 + choose(3, "states until then") as usize;
    let mut sim = Sim::new();
    sim.script = Some(Box::new(move |s, k| {
        if s.move_id.is_some() {
            s.idle();
            if k == after {
                let id = s.move_id.take().unwrap();
                s.respond(MOVE, id, &[st]);
            }
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    let (n, res) = go(&mut r, m, torque, false, 1, &hd);
    match &res {
        Ok(_) => check("reported", false),
        Err(FrankaException::ControlException { error, .. }) => {
            check("names-the-reason", error.contains(word));
        }
        Err(e) => {
            note(kind(e));
            check("control-error", false)
        }
    }
    check("no-callback", n == 0);
    check("no-command", hd.borrow().cmds.is_empty());
    again(&mut r, &hd);
}
fn silent_early() {
    let (m, torque) = interface();
    let left = choose(3, "states before the silence");
    let mut sim = Sim::new();
    sim.states_left = 1 + left;
    sim.script = Some(Box::new(move |s, _| s.idle()));
    let hd = install(sim);
    let mut r = connect();
    let (n, res) = go(&mut r, m, torque, false, 1, &hd);
    match &res {
        Ok(_) => check("reported", false),
        Err(e) => check("network-error", kind(e) == "network"),
    }
    check("no-callback", n == 0);
    check("no-command", hd.borrow().cmds.is_empty());
    cover("silent");
}
/// a finished motion is waited for; success is reported only then
fn finish() {
    let (m, torque) = interface();
    let (mg, cm) = codes(m, torque, false);
    let n = choose(3, "cycles") as usize;
    let (dm, dc) = (choose(3, "motion generator idle after"), choose(3, "controller idle after"));
    let late = flag("answer arrives after the modes");
    let mut sim = Sim::new();
    sim.finish_delay = 100;
    let mut fin: Option<u32> = None;
    sim.script = Some(Box::new(move |s, _| {
        if fin.is_none() && s.cmds.iter().any(|c| c.finished != 0) {
            fin = Some(0);
        }
        if let Some(k) = fin {
            s.mg = if k >= dm { 0 } else { mg };
            s.cm = if k >= dc { 3 } else { cm };
            if k >= dm.max(dc) {
                s.rm = 1;
            }
            let answer = match (late, torque) {
                (false, _) => 0,
                (true, true) => dm.max(dc),
                (true, false) => dm,
            };
            if k == answer {
                if let Some(id) = s.move_id.take() {
                    s.respond(MOVE, id, &[0]);
                }
            }
            fin = Some(k + 1);
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    let (calls, res) = go(&mut r, m, torque, false, n, &hd);
    check("ends-well", res.is_ok());
    check("callbacks", calls == n + 1);
    {
        let mut s = hd.borrow_mut();
        // a controller that is still external keeps the motion going, others stop with the generator
        let wait = if torque { dm.max(dc) } else { dm } as usize;
        check("repeated-until-over", s.cmds.len() == n + 1 + wait);
        check("finished-flag", s.cmds.iter().enumerate().all(|(k, c)| (c.finished == 1) == (k >= n)));
        check("answered-before-return", s.move_id.is_none());
        check("no-stop", s.reqs.iter().all(|q| q.cmd != STOP));
        s.idle();
        // what had been left over of the first motion
        *s = std::mem::replace(&mut *s, Sim::new()).after();
    }
    again(&mut r, &hd);
}
fn finish_fails() {
    let (m, torque) = interface();
    let n = choose(2, "cycles") as usize;
    let (st, word) = STATUS[choose(8, "status") as usize];
    let mut sim = Sim::new();
    sim.move_final = st;
    sim.finish_delay = choose(2, "delay");
    let hd = install(sim);
    let mut r = connect();
    let (_, res) = go(&mut r, m, torque, false, n, &hd);
    match &res {
        Ok(_) => check("reported", false),
        Err(FrankaException::ControlException { error, .. }) => {
            // the reflex is worded differently at this point
            check("names-the-reason", error.contains(word) || st == 6);
        }
        Err(e) => {
            note(kind(e));
            check("control-error", false)
        }
    }
    again(&mut r, &hd);
}
/// an error in the middle of a motion stops it, and waits until it has stopped
fn cancel() {
    let (m, torque) = interface();
    let at = choose(2, "cycle") as usize;
    let (st, word) = STATUS[choose(8, "status") as usize];
    let wait = choose(3, "states until it has stopped");
    // what is still reported until then: nothing, both, the controller, the motion generator
    let rest = choose(4, "reported meanwhile");
    let late = rest > 0;
    let mut sim = Sim::new();
    let mut left = None;
    sim.script = Some(Box::new(move |s, k| {
        if k == 2 + at {
            s.rm = 4;
            let id = s.move_id.take().unwrap();
            s.respond(MOVE, id, &[st]);
            if !late {
                s.mg = 0;
                s.cm = 3;
            }
            left = Some(wait);
        } else if late {
            // the stop has been answered, the state follows later
            if let Some(n) = left {
                let stopped = s.reqs.iter().any(|q| q.cmd == STOP);
                if stopped && n == 0 {
                    s.idle();
                    left = None;
                } else {
                    let (mg, cm) = codes(m, torque, false);
                    s.mg = if rest == 2 { 0 } else { mg };
                    s.cm = if rest == 3 { 3 } else { cm };
                    s.rm = 4;
                    left = Some(n.saturating_sub(1));
                }
            }
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    let (n, res) = go(&mut r, m, torque, false, 5, &hd);
    match &res {
        Ok(_) => check("reported", false),
        Err(FrankaException::ControlException { error, .. }) => {
            check("names-the-reason", error.contains(word));
        }
        Err(e) => {
            note(kind(e));
            check("control-error", false)
        }
    }
    check("callbacks", n == at);
    {
        let s = hd.borrow();
        check("stopped-once", s.reqs.iter().filter(|q| q.cmd == STOP).count() == 1);
        check("no-more-commands", s.cmds.len() == at);
        let l = s.states.last().unwrap();
        check("waited-for-idle", l.mg == 0 && l.cm != 2);
    }
    again(&mut r, &hd);
}
/// the stop is refused: the error that led to it is reported all the same
fn cancel_refused() {
    let (m, torque) = interface();
    let at = choose(2, "cycle") as usize;
    let (st, word) = STATUS[choose(8, "status") as usize];
    let mut sim = Sim::new();
    sim.stop_status = 1 + choose(4, "status of the stop") as u8;
    sim.script = Some(Box::new(move |s, k| {
        if k == 2 + at {
            s.idle();
            s.rm = 4;
            let id = s.move_id.take().unwrap();
            s.respond(MOVE, id, &[st]);
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    let (n, res) = go(&mut r, m, torque, false, 5, &hd);
    match &res {
        Ok(_) => check("reported", false),
        Err(FrankaException::ControlException { error, .. }) => {
            check("names-the-reason", error.contains(word));
        }
        Err(e) => {
            note(kind(e));
            check("control-error", false)
        }
    }
    check("callbacks", n == at);
    again(&mut r, &hd);
}
/// while the robot reports a motion, no second one is started
fn exclusive() {
    let (m, torque) = interface();
    let mut sim = Sim::new();
    let (a, b) = (choose(5, "reported motion generator") as u8, choose(4, "reported controller") as u8);
    sim.mg = a;
    sim.cm = b;
    let hd = install(sim);
    let mut r = connect();
    let busy = a != 0 || b == 2;
    let res = attempt(|| go(&mut r, m, torque, false, 0, &hd));
    let s = hd.borrow();
    if busy {
        check("refused", !matches!(res, Ok((_, Ok(())))));
        check("no-request", s.reqs.iter().all(|q| q.cmd != MOVE));
        check("no-command", s.cmds.is_empty());
        cover("busy");
    } else {
        check("allowed", matches!(res, Ok((1, Ok(())))));
        cover("free");
    }
}
