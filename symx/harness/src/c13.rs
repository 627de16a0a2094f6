//! What the robot answers is what the caller gets.
use crate::common::*;
use crate::drive::*;
use crate::ops::*;
use crate::srv::*;
use franka::exception::FrankaException;
use symrt::env;

pub fn all() -> Vec<H> {
    vec![
        h("settings_status", "Robot::set_*, handle_getter_setter_status, Robot::automatic_error_recovery, Robot::stop, Robot::get_virtual_wall", settings_status),
        h("virtual_wall", "Robot::get_virtual_wall, VirtualWallCuboid::new", virtual_wall),
        h("connect_status", "RobotImpl::connect_robot, Robot::new, Robot::server_version", connect_status),
        h("move_rejected", "RobotImpl::execute_move_command, handle_command_response_move, Robot::control_*", move_rejected),
        h("move_final", "RobotImpl::finish_motion, handle_command_response_move, create_control_exception", move_final),
    ]
}
fn says(e: &FrankaException, words: &[&str]) -> bool {
    let s = e.to_string().to_lowercase();
    words.iter().any(|w| s.contains(w))
}
fn reason(cmd: u32, st: u8) -> &'static [&'static str] {
    match (cmd, st) {
        (RECOVERY, 1) | (STOP, 1) => &["not possible"],
        (RECOVERY, 2) => &["manual"],
        (RECOVERY, 3) | (STOP, 3) => &["reflex"],
        (RECOVERY, 4) | (STOP, 2) => &["user stop"],
        (RECOVERY, 5) => &["aborted"],
        (STOP, _) => &[""],
        (_, 1) => &["not possible"],
        (_, _) => &["invalid argument"],
    }
}
fn settings_status() {
    let mut sim = Sim::new();
    answering(&mut sim);
    let hd = install(sim);
    let mut r = connect();
    let op = choose(NOPS, "request");
    let cmd = OPS[op as usize];
    let n = match cmd {
        RECOVERY => 6,
        STOP => 5,
        _ => 3,
    };
    let st = choose(n, "status") as u8;
    hd.borrow_mut().status = st;
    hd.borrow_mut().stop_status = st;
    let d = issue(&mut r, op, "a");
    match &d.res {
        Ok(()) => check("ok-only-on-success", st == 0),
        Err(e) => {
            note(&e.to_string());
            check("error-only-on-refusal", st != 0);
            check("error-kind", kind(e) == "command");
            check("error-reason", st == 0 || says(e, reason(cmd, st)));
        }
    }
    // the answer to an earlier request decides nothing about a later one
    hd.borrow_mut().status = 0;
    hd.borrow_mut().stop_status = 0;
    let d2 = issue(&mut r, 1, "b");
    check("next-request", d2.res.is_ok());
    cover("answered");
}
fn virtual_wall() {
    let size: [R; 3] = reals("size", -10.0, 10.0);
    let frame: [R; 16] = reals("frame", -10.0, 10.0);
    let active = flag("active");
    let mut sim = Sim::new();
    sim.reply = Some(Box::new(move |_s: &mut Sim, q: &Req| {
        if q.cmd == GETLIMIT {
            Some(response(GETLIMIT, q.id, &wall_payload(0, &size, &frame, active)))
        } else {
            None
        }
    }));
    let _hd = install(sim);
    let mut r = connect();
    let d = issue(&mut r, 10, "w");
    check("accepted", d.res.is_ok());
    if let Some(w) = d.wall {
        check("wall-id", w.id == d.wall_id);
        check("wall-size", same(&w.object_world_size, &size));
        check("wall-frame", same(&w.p_frame, &frame));
        check("wall-active", w.active == active);
    }
    cover("answered");
}
fn connect_status() {
    let st = choose(2, "status") as u8;
    let ver = [5u16, 4, 6, 0, 65535][choose(5, "version") as usize];
    let refused = flag("connection refused");
    let mut sim = Sim::new();
    sim.connect = (st, ver);
    let hd = install(sim);
    env::world(|w| w.connect_fails = refused);
    let r = Robot::new("10.11.12.13", RealtimeConfig::Ignore, None);
    match r {
        Ok(r) => {
            check("connected-only-if-accepted", !refused && st == 0);
            check("server-version", r.server_version() == ver);
        }
        Err(e) => {
            note(&e.to_string());
            check("refused-only", refused || st != 0);
            if refused {
                check("network-error", kind(&e) == "network");
                check("nothing-sent", hd.borrow().reqs.is_empty());
            } else {
                check(
                    "version-error",
                    matches!(e, FrankaException::IncompatibleLibraryVersionError { server_version, library_version }
                        if server_version == ver && library_version == 5),
                );
            }
        }
    }
    cover("answered");
}
fn move_reason(st: u8) -> &'static [&'static str] {
    match st {
        2 => &["preempted"],
        3 => &["not possible"],
        4 => &["singular"],
        5 => &["out of range", "invalid argument"],
        6 => &["reflex"],
        7 => &["user stop"],
        8 => &["invalid input"],
        _ => &["aborted"],
    }
}
fn any_motion(r: &mut Robot, calls: &std::cell::Cell<u32>) -> franka::exception::FrankaResult<()> {
    let m = [M::None, M::Q, M::Dq, M::Pose, M::Vel][choose(5, "interface") as usize];
    let torque = m == M::None || flag("with torques");
    let f = |_: &_, _: &_| {
        calls.set(calls.get() + 1);
        let mut x = Out::zero();
        x.fin = !torque && calls.get() >= 2;
        x
    };
    if torque {
        control_t(r, m, Opt::raw(), f, |_, _| {
            calls.set(calls.get() + 1);
            Tau { tau: [l(0.0); 7], fin: calls.get() >= 2 }
        })
    } else {
        control(r, m, Opt::raw(), f)
    }
}
fn move_rejected() {
    let st = choose(10, "status") as u8;
    let mut sim = Sim::new();
    sim.move_first = st;
    let hd = install(sim);
    let mut r = connect();
    let calls = std::cell::Cell::new(0);
    let res = any_motion(&mut r, &calls);
    match &res {
        Ok(()) => check("started-only-if-accepted", st <= 1),
        Err(e) => {
            note(&e.to_string());
            check("refused-only", st > 1);
            check("error-kind", kind(e) == "command" || kind(e) == "control");
            check("error-reason", says(e, move_reason(st)));
            check("callback-not-called", calls.get() == 0);
            check("nothing-sent", hd.borrow().cmds.is_empty());
        }
    }
    cover("answered");
}
fn move_final() {
    let st = choose(10, "final status") as u8;
    let mut sim = Sim::new();
    sim.move_final = st;
    let hd = install(sim);
    let mut r = connect();
    let calls = std::cell::Cell::new(0);
    let res = any_motion(&mut r, &calls);
    match &res {
        Ok(()) => check("success-only-if-reported", st <= 1),
        Err(e) => {
            note(&e.to_string());
            check("failure-only-if-reported", st > 1);
            check("error-kind", kind(e) == "control");
            check("error-reason", st == 6 || says(e, move_reason(st)));
        }
    }
    let _ = hd;
    cover("answered");
}
