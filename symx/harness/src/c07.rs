//! Control loop: when callbacks run, what they are given and what is sent.
use crate::common::*;
use crate::drive::*;
use crate::ops::kind;
use crate::srv::*;
use franka::robot::robot_state::RobotState;
use std::cell::RefCell;
use std::rc::Rc;

pub fn all() -> Vec<H> {
    vec![
        h("cycle", "ControlLoop::do_loop, ControlLoop::spin_motion, ControlLoop::spin_control, RobotImpl::update, Robot::control_*", cycle)
            .bound("motions of up to 3 cycles before the finish and up to 2 states after it; states and ids symbolic")
            .by("induct_control_loop,induct_finish"),
        h("interruption", "ControlLoop::run, ControlLoop::do_loop, RobotImpl::throw_on_motion_error, RobotImpl::cancel_motion", interruption)
            .bound("interruption in one of the first 3 cycles").by("induct_control_loop"),
        h("silence", "ControlLoop::run, RobotImpl::receive_robot_state, RobotImpl::cancel_motion, Network::udp_blocking_receive", silence)
            .bound("silence in one of the first 3 cycles").by("induct_control_loop"),
        h("send_failure", "ControlLoop::run, RobotImpl::send_robot_command, RobotImpl::cancel_motion, Network::udp_send", send_failure)
            .bound("failure in one of the first 3 cycles").by("induct_control_loop"),
        h("induct_control_loop", "ControlLoop::do_loop, RobotImpl::update, RobotImpl::receive_robot_state, Logger::log", crate::induct::control_loop).samples(5),
        h("induct_finish", "RobotImpl::finish_motion, RobotImpl::update", crate::induct::finish).samples(5),
        h("long_run", "ControlLoop::do_loop, RobotImpl::update", long_run).bound("motions of 150 cycles with concrete values").samples(20),
    ]
}
/// one call of a callback
#[derive(Clone)]
struct Call {
    torque: bool,
    time: Z,
    step: Z,
    /// states received and commands sent before the call
    states: usize,
    cmds: usize,
    fin: bool,
}
type Calls = Rc<RefCell<Vec<Call>>>;
fn interface() -> (M, bool) {
    let m = [M::None, M::Q, M::Dq, M::Pose, M::Vel][choose(5, "interface") as usize];
    (m, m == M::None || flag("with torques"))
}
/// runs a motion; `fin(torque, k)` says whether the k-th output of that callback ends it
fn run(
    r: &mut Robot,
    m: M,
    torque: bool,
    hd: &Handle,
    calls: &Calls,
    fin: impl Fn(bool, usize) -> bool,
) -> franka::exception::FrankaResult<()> {
    let rec = |t: bool, s: &RobotState, d: &Duration| {
        let k = calls.borrow().iter().filter(|c| c.torque == t).count();
        let f = fin(t, k);
        let h = hd.borrow();
        calls.borrow_mut().push(Call {
            torque: t,
            time: s.time.as_nanos().z(),
            step: d.as_nanos().z(),
            states: h.states.len(),
            cmds: h.cmds.len(),
            fin: f,
        });
        f
    };
    let mo = |s: &RobotState, d: &Duration| {
        let mut o = Out::zero();
        o.fin = rec(false, s, d);
        o
    };
    let to = |s: &RobotState, d: &Duration| Tau { tau: [l(0.0); 7], fin: rec(true, s, d) };
    if torque {
        control_t(r, m, Opt::raw(), mo, to)
    } else {
        control(r, m, Opt::raw(), mo)
    }
}
fn ms(id: U64) -> Z {
    id.z().mul(Z::C(1_000_000))
}
/// obligations on a complete record of a motion, finished or not
fn judge(s: &Sim, calls: &[Call], m: M, torque: bool) {
    let motion = m != M::None;
    // every call sees the newest state and the time since the previous cycle
    let mut prev: Option<(Z, usize)> = None;
    let mut cyc: Vec<Vec<&Call>> = vec![];
    for c in calls {
        match cyc.last_mut() {
            Some(v) if v[0].states == c.states => v.push(c),
            _ => cyc.push(vec![c]),
        }
    }
    for (k, v) in cyc.iter().enumerate() {
        let t = ms(s.states[v[0].states - 1].id);
        for c in v {
            check("newest-state", c.time.eq_b(t));
            match prev {
                None => check("first-step-zero", c.step.eq_b(Z::C(0))),
                Some((p, _)) => check("time-step", c.step.eq_b(t.sub(p))),
            }
            check("one-command-per-cycle", c.cmds == k);
        }
        if let Some((_, n)) = prev {
            check("one-state-per-cycle", v[0].states == n + 1);
        }
        prev = Some((t, v[0].states));
        // motion first, then torques, each once
        let kinds: Vec<bool> = v.iter().map(|c| c.torque).collect();
        let full: Vec<bool> = match (motion, torque) {
            (true, true) => vec![false, true],
            (true, false) => vec![false],
            _ => vec![true],
        };
        let short = motion && torque && v[0].fin && kinds == vec![false];
        check("callbacks-once-in-order", kinds == full || short);
        // nothing after a finished output
        let last = k + 1 == cyc.len();
        check("no-call-after-finish", last || v.iter().all(|c| !c.fin));
    }
    // commands
    let ended = calls.last().map_or(false, |c| c.fin);
    for (k, c) in s.cmds.iter().enumerate() {
        let fin = ended && k + 1 >= cyc.len();
        check("finish-flag", c.finished == fin as u8);
        check("command-after-callback", k < cyc.len() || fin);
    }
    if ended {
        check("finish-sent", s.cmds.len() >= cyc.len());
    }
}
fn symbolic_ids(sim: &mut Sim) {
    sim.next_id = U64::from_z(int_in("first id", 1, 1 << 40));
    sim.fill = Some(Box::new(|k, s| {
        if k > 0 {
            s.id = s.id + U64::from_z(int_in(&format!("gap{}", k), 0, 1 << 20));
        }
    }));
}
fn cycle() {
    let (m, torque) = interface();
    let n = choose(4, "cycles") as usize;
    let who = torque && (m == M::None || flag("torque callback ends the motion"));
    let delay = choose(3, "states until the motion is over");
    // which mode is still reported in that time: both, the controller's or the motion generator's
    let rest = if delay == 0 { 0 } else { choose(if torque { 3 } else { 2 }, "reported meanwhile") };
    let rest = if !torque && rest == 1 { 2 } else { rest };
    let mut sim = Sim::new();
    symbolic_ids(&mut sim);
    sim.finish_delay = delay;
    sim.script = Some(Box::new(move |s, _| {
        if s.cmds.last().map_or(false, |c| c.finished != 0) && s.move_id.is_some() {
            match rest {
                1 => s.mg = 0,
                2 => s.cm = 3,
                _ => {}
            }
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    let calls: Calls = Rc::new(RefCell::new(vec![]));
    let res = run(&mut r, m, torque, &hd, &calls, |t, k| t == who && k == n);
    check("ends-well", res.is_ok());
    let s = hd.borrow();
    let cs = calls.borrow();
    judge(&s, &cs, m, torque);
    check("all-cycles", cs.last().map_or(false, |c| c.fin) && cs.iter().filter(|c| c.torque == who).count() == n + 1);
    check("repeated-until-over", s.cmds.len() == n + 1 + delay as usize);
    check("no-stop", s.reqs.iter().all(|q| q.cmd != STOP));
    cover("finished");
}
/// the robot leaves the motion by itself in some cycle
fn interruption() {
    let (m, torque) = interface();
    let at = choose(3, "cycle") as usize;
    // what the state shows: another robot mode, motion generator or controller, or all at once
    let how = choose(14, "shown by") as u8;
    let status = if how < 3 { 2 + choose(8, "reported status") as u8 } else { 2 + how % 8 };
    // nothing more is heard of the robot
    let silent = flag("silent afterwards");
    let mut sim = Sim::new();
    symbolic_ids(&mut sim);
    sim.script = Some(Box::new(move |s, k| {
        if k == 2 + at {
            match how {
                0 => s.idle(),
                1 => s.mg = 0,
                2 => s.cm = if s.cm == 3 { 1 } else { 3 },
                3..=8 => s.rm = [0, 1, 3, 4, 5, 6][how as usize - 3],
                9..=11 => s.mg = (s.mg + how - 9) % 4 + 1,
                _ => s.cm = (s.cm + how - 11) % 4,
            }
            if silent {
                s.states_left = 0;
            }
            let id = s.move_id.take().unwrap();
            s.respond(MOVE, id, &[status]);
        }
        if k == 3 + at {
            s.idle();
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    let calls: Calls = Rc::new(RefCell::new(vec![]));
    let res = run(&mut r, m, torque, &hd, &calls, |_, k| k > at + 3);
    match &res {
        Ok(_) => check("reported", false),
        Err(e) => {
            check("control-error", kind(e) == "control");
            let word = ["preempted", "not possible", "singular", "deviation", "reflex", "User Stop", "invalid input", "aborted"][status as usize - 2];
            check("original-cause", e.to_string().contains(word));
        }
    }
    let s = hd.borrow();
    let cs = calls.borrow();
    judge(&s, &cs, m, torque);
    check("no-call-on-that-state", cs.iter().all(|c| c.states <= 2 + at) );
    check("calls-until-then", cs.iter().filter(|c| c.torque == torque).count() == at);
    check("commands-until-then", s.cmds.len() == at);
    check("motion-stopped", s.reqs.iter().filter(|q| q.cmd == STOP).count() == 1);
    cover("interrupted");
}
/// states stop arriving
fn silence() {
    let (m, torque) = interface();
    let at = choose(3, "cycle") as usize;
    // before any output ends the motion, or while it is being finished
    let ending = flag("while finishing");
    let mut sim = Sim::new();
    symbolic_ids(&mut sim);
    sim.states_left = 2 + (ending as usize + at) as u32;
    sim.finish_delay = 10;
    let hd = install(sim);
    let mut r = connect();
    let calls: Calls = Rc::new(RefCell::new(vec![]));
    let res = run(&mut r, m, torque, &hd, &calls, |t, k| if ending { t == torque } else { k > at + 3 });
    match &res {
        Ok(_) => check("reported", false),
        Err(e) => check("network-error", kind(e) == "network"),
    }
    let s = hd.borrow();
    let cs = calls.borrow();
    judge(&s, &cs, m, torque);
    check("calls-until-then", cs.iter().filter(|c| c.torque == torque).count() == if ending { 1 } else { at });
    check("commands-until-then", s.cmds.len() == at + ending as usize);
    check("motion-stopped", s.reqs.iter().filter(|q| q.cmd == STOP).count() == 1);
    cover("silent");
}
/// a command cannot be sent
fn send_failure() {
    let (m, torque) = interface();
    let at = choose(3, "cycle") as usize;
    let short = flag("sent in part");
    let ending = flag("while finishing");
    let mut sim = Sim::new();
    sim.finish_delay = 10;
    let hd = install(sim);
    let mut r = connect();
    let calls: Calls = Rc::new(RefCell::new(vec![]));
    let fail = move || {
        symrt::env::world(|w| {
            if short {
                w.udp_send_cap = Some(10)
            } else {
                w.udp_send_fails = true
            }
        });
    };
    if ending {
        hd.borrow_mut().fail_send_after = Some((at + 1, short));
    }
    let res = run(&mut r, m, torque, &hd, &calls, |t, k| {
        if ending {
            return t == torque;
        }
        if k == at {
            fail();
        }
        k > at + 3
    });
    match &res {
        Ok(_) => check("reported", false),
        Err(e) => check("network-error", kind(e) == "network"),
    }
    let s = hd.borrow();
    let cs = calls.borrow();
    check("no-call-after-it", cs.iter().filter(|c| c.torque == torque).count() == if ending { 1 } else { at + 1 });
    let whole = s.cmds.len();
    check("commands-until-then", whole == if ending { at + 1 } else { at });
    check("motion-stopped", s.reqs.iter().filter(|q| q.cmd == STOP).count() == 1);
    cover("failed");
}
fn long_run() {
    let (m, torque) = interface();
    let n = 3000;
    let mut sim = Sim::new();
    sim.finish_delay = 70;
    sim.states_left = 100000;
    sim.next_id = U64::lit([1, 4294967200][choose(2, "first id") as usize]);
    sim.fill = Some(Box::new(|k, s| {
        s.id = s.id + U64::lit((k % 3) as u64);
    }));
    let hd = install(sim);
    let mut r = connect();
    let calls: Calls = Rc::new(RefCell::new(vec![]));
    let res = run(&mut r, m, torque, &hd, &calls, |t, k| t == torque && k == n);
    check("ends-well", res.is_ok());
    let s = hd.borrow();
    let cs = calls.borrow();
    judge(&s, &cs, m, torque);
    for (k, c) in s.cmds.iter().enumerate() {
        check("tagged", c.id.z().eq_b(s.states[k + 2].id.z()));
    }
    check("repeated-until-over", s.cmds.len() == n + 1 + 70);
    cover("finished");
}
