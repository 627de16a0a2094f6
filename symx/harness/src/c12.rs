//! Requests: layout, length, identifiers.
use crate::common::*;
use crate::drive::*;
use crate::ops::*;
use crate::srv::*;
use franka::robot::control_types::ControllerMode;
use std::cell::RefCell;
use std::rc::Rc;
use symrt::env;

pub fn all() -> Vec<H> {
    #[allow(unused_mut)]
    let mut v = vec![
        h("settings", "Robot::set_*, Robot::automatic_error_recovery, Robot::stop, Robot::get_virtual_wall, service_types::*Request, Network::create_header_for_robot, Network::tcp_send_request", settings),
        h("sequences", "Network::create_header_for_robot, Network::tcp_send_request, Robot::set_*", sequences),
        h("connect", "RobotImpl::connect_robot, ConnectRequest::new, Network::new", connecting),
        h("move_request", "RobotImpl::start_motion, RobotImpl::execute_move_command, MoveRequest::new, ControlLoop::new, ControlLoop::from_control_mode, get_motion_generator_mode", move_request),
        h("defaults", "Robot::set_default_behavior", defaults),
        h("long_session", "Network::create_header_for_robot, Network::create_header_for_gripper", long_session).samples(1).bound("66000 requests on one connection"),
        h("model_request", "LibraryDownloader::download, LoadModelLibraryRequest::new", model_request),
    ];
    #[cfg(not(feature = "public_only"))]
    v.push(h("late_ids", "Network::create_header_for_robot", internal::late_ids).bound("identifier counter at 9 values up to 2^32-4"));
    v
}
fn header_ok(q: &Req) {
    check("header-size", q.size as usize == q.total && q.total == 12 + q.body.len());
}
fn cap() {
    let c = [usize::MAX, 1, 5, 13][choose(4, "bytes accepted per write") as usize];
    env::world(|w| w.tcp_write_cap = c);
}
fn settings() {
    let mut sim = Sim::new();
    answering(&mut sim);
    let hd = install(sim);
    let mut r = connect();
    let op = choose(NOPS, "request");
    if OPS[op as usize] != GUIDING {
        cap();
    }
    let d = issue(&mut r, op, "a");
    check("accepted", d.res.is_ok());
    let s = hd.borrow();
    check("one-request", s.reqs.len() == 2);
    let q = &s.reqs[1];
    check("command-code", q.cmd == d.cmd);
    header_ok(q);
    body_is(&format!("body{}", d.cmd), &q.body, &d.want);
    check("no-udp", s.cmds.is_empty());
    cover("sent");
}
/// identifiers stay new, far beyond what a small counter could hold
fn long_session() {
    let mut sim = Sim::new();
    answering(&mut sim);
    let hd = install(sim);
    let mut r = connect();
    let mut seen = std::collections::HashSet::new();
    seen.insert(hd.borrow().reqs[0].id);
    for _ in 0..66 {
        let mut good = true;
        for _ in 0..1000 {
            hd.borrow_mut().reqs.clear();
            hd.borrow_mut().log.clear();
            good &= r.stop().is_ok();
            let s = hd.borrow();
            good &= s.reqs.len() == 1 && seen.insert(s.reqs[0].id);
        }
        check("new-identifier", good);
    }
    cover("sent");
}
fn sequences() {
    let mut sim = Sim::new();
    answering(&mut sim);
    let hd = install(sim);
    let mut r = connect();
    let ops = [1, 8, 9, 10, 4];
    for k in 0..3 {
        let o = ops[choose(5, "request") as usize];
        // refused requests use up an identifier as well
        hd.borrow_mut().status = choose(2, "status") as u8;
        let d = issue(&mut r, o, &format!("k{}", k));
        let s = hd.borrow();
        let q = s.reqs.last().unwrap();
        check("own-request", s.reqs.len() == k + 2 && q.cmd == d.cmd);
        check("own-answer", d.res.is_ok() == (s.status == 0 || d.cmd == STOP));
        header_ok(q);
    }
    let s = hd.borrow();
    for i in 0..s.reqs.len() {
        for j in 0..i {
            check("distinct-ids", s.reqs[i].id != s.reqs[j].id);
        }
    }
    cover("sent");
}
fn connecting() {
    let port = [45678u16, 1, 65535, 256][choose(4, "udp port") as usize];
    let hd = install(Sim::new());
    env::world(|w| w.udp_port = port);
    cap();
    let _r = connect();
    let s = hd.borrow();
    let q = &s.reqs[0];
    check("connect-first", q.cmd == CONNECT && s.reqs.len() == 1);
    header_ok(q);
    check("connect-length", q.body.len() == 4);
    if q.body.len() == 4 {
        let mut b = Rd(&q.body, 0);
        check("library-version", b.u16() == 5);
        check("announced-port", b.u16() == port);
    }
    let to = env::world(|w| {
        w.log.iter().find_map(|e| if let env::Ev::Connect(a) = e { Some(*a) } else { None })
    });
    check("address", to == Some("10.11.12.13:1337".parse().unwrap()));
    cover("connected");
}
fn move_request() {
    let m = [M::None, M::Q, M::Dq, M::Pose, M::Vel][choose(5, "interface") as usize];
    let torque = m == M::None || flag("with torques");
    let hd = install(Sim::new());
    let mut r = connect();
    let (mut o, mut want_c) = (Opt::raw(), 2u32);
    if !torque {
        let c = choose(3, "controller");
        o.mode = match c {
            0 => None,
            1 => Some(ControllerMode::JointImpedance),
            _ => Some(ControllerMode::CartesianImpedance),
        };
        want_c = [0, 0, 1][c as usize];
    }
    let done = |_: &_, _: &_| {
        let mut x = Out::zero();
        x.fin = true;
        x
    };
    let res = if torque {
        control_t(&mut r, m, o, done, |_, _| Tau { tau: [l(0.0); 7], fin: true })
    } else {
        control(&mut r, m, o, done)
    };
    check("motion-ends-well", res.is_ok());
    let s = hd.borrow();
    check("one-move", s.reqs.len() == 2 && s.reqs[1].cmd == MOVE);
    let q = &s.reqs[1];
    header_ok(q);
    let want_m = match m {
        M::Q => 0,
        M::None | M::Dq => 1,
        M::Pose => 2,
        M::Vel => 3,
    };
    check("move-length", q.body.len() == 8 + 48);
    if q.body.len() == 56 {
        let mut b = Rd(&q.body, 0);
        check("controller-mode", b.u32() == want_c);
        check("motion-generator-mode", b.u32() == want_m);
        for _ in 0..2 {
            let d: [R; 3] = b.rs();
            check(
                "deviations",
                same(&d, &[l(10.0), l(3.12), l(2.0 * std::f64::consts::PI)]),
            );
        }
    }
    cover("moved");
}
fn defaults() {
    let hd = install(Sim::new());
    let mut r = connect();
    let fail_at = choose(4, "refused request") as usize;
    let n = Rc::new(RefCell::new(0));
    let n2 = n.clone();
    hd.borrow_mut().reply = Some(Box::new(move |_s: &mut Sim, q: &Req| {
        *n2.borrow_mut() += 1;
        Some(response(q.cmd, q.id, &[if *n2.borrow() == fail_at { 1 } else { 0 }]))
    }));
    let res = r.set_default_behavior();
    check("result", res.is_ok() == (fail_at == 0));
    let s = hd.borrow();
    let k = if fail_at == 0 { 3 } else { fail_at };
    check("requests", s.reqs.len() == 1 + k);
    let lits = |v: &[(f64, usize)]| -> Vec<X> {
        v.iter().flat_map(|(x, n)| vec![X::R(l(*x)); *n]).collect()
    };
    let want = [
        (COLLISION, lits(&[(20.0, 14), (10.0, 14), (20.0, 12), (10.0, 12)])),
        (JIMP, lits(&[(3000.0, 3), (2500.0, 2), (2000.0, 2)])),
        (CIMP, lits(&[(3000.0, 3), (300.0, 3)])),
    ];
    for i in 0..k.min(s.reqs.len() - 1) {
        let q = &s.reqs[1 + i];
        check("order", q.cmd == want[i].0);
        header_ok(q);
        body_is("default", &q.body, &want[i].1);
    }
    cover("done");
}
fn model_request() {
    let hd = install(Sim::new());
    let mut r = connect();
    hd.borrow_mut().reply = Some(Box::new(|_s: &mut Sim, q: &Req| {
        Some(response(q.cmd, q.id, &[0, 1, 2, 3]))
    }));
    cap();
    let res = r.load_model(true);
    check("loaded", res.is_ok());
    let s = hd.borrow();
    check("one-request", s.reqs.len() == 2 && s.reqs[1].cmd == LOADLIB);
    header_ok(&s.reqs[1]);
    body_is("platform", &s.reqs[1].body, &[X::B(0), X::B(0)]);
    cover("done");
}
#[cfg(not(feature = "public_only"))]
mod internal {
    use super::*;
    pub fn late_ids() {
        let mut sim = Sim::new();
        answering(&mut sim);
        let hd = install(sim);
        let mut r = connect();
        let start = [1u32, 2, 255, 256, 65535, 65536, 1 << 31, (1 << 31) - 1, u32::MAX - 3]
            [choose(9, "counter") as usize];
        r.robimpl.network.command_id = start;
        for k in 0..2u32 {
            let d = issue(&mut r, 1, &format!("k{}", k));
            check("answered", d.res.is_ok());
        }
        let s = hd.borrow();
        check("distinct-late-ids", s.reqs[1].id != s.reqs[2].id && s.reqs[1].id >= start && s.reqs[2].id >= start);
        cover("sent");
    }
}
