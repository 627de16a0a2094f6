//! State identifiers only grow; commands carry the identifier of the state they answer.
use crate::common::*;
use crate::drive::*;
use crate::srv::*;
use franka::robot::robot_state::RobotState;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub fn all() -> Vec<H> {
    #[allow(unused_mut)]
    let mut v = vec![
        h("induct_control_loop", "ControlLoop::do_loop, RobotImpl::update", crate::induct::control_loop).samples(5),
        h("induct_stale", "RobotImpl::receive_robot_state", crate::induct::stale).samples(5),
        h("induct_drain", "Network::udp_blocking_receive", crate::induct::drain).samples(5),
        h("induct_reading", "Robot::read, RobotImpl::read_once, RobotImpl::update", crate::induct::reading).samples(5),
        h("any_order", "RobotImpl::receive_robot_state, RobotImpl::update_state_with, Network::udp_receive, Network::udp_blocking_receive, RobotImpl::send_robot_command, RobotImpl::update", any_order)
            .bound("motions of 4 commands with up to 2 datagrams per cycle; all 64-bit ids")
            .by("induct_control_loop,induct_stale,induct_drain"),
        h("arriving_while_looking", "RobotImpl::receive_robot_state, Network::udp_receive, Network::udp_blocking_receive", peeking)
            .bound("one datagram arriving between any two socket calls; all 64-bit ids"),
        h("read_once", "RobotImpl::read_once, Robot::read_once, RobotImpl::receive_robot_state", once)
            .bound("up to 2 unread and 2 further datagrams; all 64-bit ids")
            .by("induct_reading,induct_stale,induct_drain"),
        h("read_callback", "Robot::read, RobotImpl::update", reading)
            .bound("up to 3 calls; all 64-bit ids")
            .by("induct_reading,induct_stale,induct_drain"),
        h("tag", "RobotImpl::send_robot_command, RobotImpl::update_state_with, RobotImpl::finish_motion", tag)
            .bound("motions of 4 commands; all 64-bit ids")
            .by("induct_control_loop"),
    ];
    #[cfg(not(feature = "public_only"))]
    v.push(h("accept", "RobotImpl::receive_robot_state", internal::accept));
    v
}
type Sent = Rc<RefCell<Vec<(U64, R)>>>;
/// an extra state with its own marker
fn mk(s: &Sim, sent: &Sent, id: U64) -> Vec<u8> {
    let mut st = s.stray(id);
    let n = sent.borrow().len();
    let mark = l(0.25 + n as f64);
    let mut q = st.get("q");
    q[0] = mark;
    st.set("q", &q);
    sent.borrow_mut().push((id, mark));
    st.enc()
}
/// (identifier, marker) of a state that was handed over
fn seen(s: &RobotState) -> (Z, R) {
    (s.time.as_millis().z(), s.q[0])
}
fn genuine(sent: &Sent, x: (Z, R)) -> B {
    B::any(sent.borrow().iter().map(|(i, m)| i.z().eq_b(x.0).and(x.1.eq_b(*m))))
}
const BIG: i128 = 1 << 63;
fn any_id(n: &str) -> U64 {
    U64::from_z(int_in(n, 0, BIG))
}
/// regular states whose identifiers exceed everything arbitrary
fn late(k: usize) -> U64 {
    U64::lit((1u64 << 63) + 1000 + k as u64)
}
fn drive(r: &mut Robot, m: M, n: usize, got: &Rc<RefCell<Vec<(Z, R)>>>) -> franka::exception::FrankaResult<()> {
    let torque = m == M::None;
    let k = Cell::new(0);
    let f = |s: &RobotState| {
        got.borrow_mut().push(seen(s));
        k.set(k.get() + 1);
        k.get() == n
    };
    if torque {
        control_t(r, m, Opt::raw(), |_, _| Out::zero(), |s, _| Tau { tau: [l(0.0); 7], fin: f(s) })
    } else {
        control(r, m, Opt::raw(), |s, _| {
            let mut o = Out::zero();
            o.fin = f(s);
            o
        })
    }
}
fn judge(s: &Sim, sent: &Sent, got: &[(Z, R)], first: Z) {
    let mut last = first;
    for x in got {
        check("strictly-newer", last.lt_b(x.0));
        check("genuine-state", genuine(sent, *x));
        last = x.0;
    }
    for (k, c) in s.cmds.iter().enumerate() {
        if k < got.len() {
            check("tagged-with-answered-state", c.id.z().eq_b(got[k].0));
        } else {
            check("tags-grow", last.lt_b(c.id.z()));
            check("tag-of-a-received-state", B::any(sent.borrow().iter().map(|(i, _)| i.z().eq_b(c.id.z()))));
            last = c.id.z();
        }
    }
}
/// up to two states arrive at a time, with arbitrary identifiers
fn any_order() {
    let m = [M::Q, M::None][choose(2, "interface") as usize];
    let mut sim = Sim::new();
    let sent: Sent = Rc::new(RefCell::new(vec![]));
    let s2 = sent.clone();
    let first = int_in("first id", 1, BIG);
    let waiting: Rc<RefCell<Vec<Vec<Z>>>> = Rc::new(RefCell::new(vec![]));
    let w2 = waiting.clone();
    sim.batch = Some(Box::new(move |s, k, _| {
        let mut v = vec![];
        match k {
            0 => v.push(mk(s, &s2, U64::from_z(first))),
            2 | 3 => {
                let n = 1 + choose(2, "datagrams");
                w2.borrow_mut().push(vec![]);
                for j in 0..n {
                    let id = any_id(&format!("id{}.{}", k, j));
                    w2.borrow_mut().last_mut().unwrap().push(id.z());
                    v.push(mk(s, &s2, id));
                }
            }
            _ => {
                // the start of the motion comes with the next identifier
                let id = if k == 1 { U64::from_z(first.add(Z::C(1))) } else { late(k) };
                v.push(mk(s, &s2, id));
            }
        }
        v
    }));
    sim.finish_delay = 1;
    let hd = install(sim);
    let mut r = connect();
    let got = Rc::new(RefCell::new(vec![]));
    let res = drive(&mut r, m, 3, &got);
    check("ends-well", res.is_ok());
    let s = hd.borrow();
    judge(&s, &sent, &got.borrow(), first);
    check("commands", s.cmds.len() == 4);
    // waiting in the order of their identifiers, the newest is used
    let (mut used, mut last) = (B::c(true), first.add(Z::C(1)));
    for (k, w) in waiting.borrow().iter().enumerate() {
        let top = w[w.len() - 1];
        let sorted = B::all(w.windows(2).map(|x| x[0].lt_b(x[1])));
        used = used.and(sorted).and(last.lt_b(top));
        if k < got.borrow().len() {
            check("newest-of-the-waiting", used.implies(got.borrow()[k].0.eq_b(top)));
        }
        last = top;
    }
    cover("finished");
}
/// states arrive between two looks at the socket
fn peeking() {
    let m = [M::Q, M::None][choose(2, "interface") as usize];
    let mut sim = Sim::new();
    let sent: Sent = Rc::new(RefCell::new(vec![]));
    let (s2, s3) = (sent.clone(), sent.clone());
    let first = int_in("first id", 1, BIG);
    sim.batch = Some(Box::new(move |s, k, _| {
        let id = match k {
            0 => U64::from_z(first),
            1 => U64::from_z(first.add(Z::C(1))),
            _ => late(k),
        };
        vec![mk(s, &s2, id)]
    }));
    // (command it arrived before, identifier) of those that came on their own
    let single: Rc<RefCell<Vec<(usize, Z)>>> = Rc::new(RefCell::new(vec![]));
    let s4 = single.clone();
    let alone = flag("only when nothing else waits");
    let (mut looks, mut extra) = (0, 0);
    sim.peek = Some(Box::new(move |s| {
        let mut v = vec![];
        // looks of the running motion only
        if s.states.len() >= 2 && looks < 4 && extra < 2 && !(alone && s.waiting > 0) {
            looks += 1;
            if flag("arrives now") {
                let id = any_id(&format!("extra{}", extra));
                if alone {
                    s4.borrow_mut().push((s.cmds.len(), id.z()));
                }
                v.push(mk(s, &s3, id));
                extra += 1;
            }
        }
        v
    }));
    let hd = install(sim);
    let mut r = connect();
    let got = Rc::new(RefCell::new(vec![]));
    let res = drive(&mut r, m, 2, &got);
    check("ends-well", res.is_ok());
    let s = hd.borrow();
    judge(&s, &sent, &got.borrow(), first);
    // whatever was taken from the socket on its own is not newer than what is used afterwards
    for (k, id) in single.borrow().iter() {
        if *k < s.cmds.len() {
            check("newest-of-those-taken", id.le_b(s.cmds[*k].id.z()));
        }
    }
    cover("finished");
}
fn once() {
    let mut sim = Sim::new();
    // whatever the robot is doing
    sim.rm = choose(7, "robot mode") as u8;
    let sent: Sent = Rc::new(RefCell::new(vec![]));
    let s2 = sent.clone();
    let first = int_in("first id", 1, BIG);
    sim.batch = Some(Box::new(move |s, k, _| {
        let id = match k {
            0 => U64::from_z(first),
            1 | 2 => any_id(&format!("id{}", k)),
            _ => late(k),
        };
        vec![mk(s, &s2, id)]
    }));
    let hd = install(sim);
    let mut r = connect();
    // states nobody has read yet
    for j in 0..choose(3, "unread") {
        let d = mk(&hd.borrow(), &sent, any_id(&format!("unread{}", j)));
        symrt::env::world(|w| w.deliver_udp(d));
    }
    let old = sent.borrow().len();
    let mut last = first;
    for k in 0..2 {
        match r.read_once() {
            Ok(s) => {
                let x = seen(&s);
                check("strictly-newer", last.lt_b(x.0));
                check("genuine-state", genuine(&sent, x));
                if k == 0 {
                    // it arrived after the call
                    check(
                        "not-a-stale-one",
                        B::any(sent.borrow()[old..].iter().map(|(i, m)| i.z().eq_b(x.0).and(x.1.eq_b(*m)))),
                    );
                }
                last = x.0;
            }
            Err(_) => check("read", false),
        }
    }
    cover("read");
}
fn reading() {
    let mut sim = Sim::new();
    // whatever the robot is doing
    sim.rm = choose(7, "robot mode") as u8;
    let sent: Sent = Rc::new(RefCell::new(vec![]));
    let s2 = sent.clone();
    let first = int_in("first id", 1, BIG);
    sim.batch = Some(Box::new(move |s, k, _| {
        let id = match k {
            0 => U64::from_z(first),
            1 | 2 => any_id(&format!("id{}", k)),
            _ => late(k),
        };
        vec![mk(s, &s2, id)]
    }));
    let hd = install(sim);
    let mut r = connect();
    let n = 1 + choose(3, "calls") as usize;
    let mut got: Vec<(Z, R)> = vec![];
    let res = r.read(|s: &RobotState| {
        got.push(seen(s));
        got.len() < n
    });
    check("ends-well", res.is_ok());
    check("calls", got.len() == n);
    judge(&hd.borrow(), &sent, &got, first);
    check("no-command", hd.borrow().cmds.is_empty());
    cover("read");
}
/// every interface, arbitrary growing identifiers, late end of the motion
fn tag() {
    let m = [M::None, M::Q, M::Dq, M::Pose, M::Vel][choose(5, "interface") as usize];
    let torque = m != M::None && flag("with torques");
    let mut sim = Sim::new();
    sim.next_id = U64::from_z(int_in("first id", 1, BIG));
    sim.fill = Some(Box::new(|k, s| {
        if k > 0 {
            s.id = s.id + U64::from_z(int_in(&format!("gap{}", k), 0, 1 << 20));
        }
    }));
    sim.finish_delay = 2;
    let hd = install(sim);
    let mut r = connect();
    let mut k = 0;
    let res = if m == M::None {
        control_t(&mut r, m, Opt::raw(), |_, _| Out::zero(), |_, _| {
            k += 1;
            Tau { tau: [l(0.0); 7], fin: k == 2 }
        })
    } else {
        let f = |_: &RobotState, _: &Duration| {
            let mut o = Out::zero();
            k += 1;
            o.fin = k == 2;
            o
        };
        if torque {
            control_t(&mut r, m, Opt::raw(), f, |_, _| Tau { tau: [l(0.0); 7], fin: false })
        } else {
            control(&mut r, m, Opt::raw(), f)
        }
    };
    check("ends-well", res.is_ok());
    let s = hd.borrow();
    check("commands", s.cmds.len() == 4);
    for (k, c) in s.cmds.iter().enumerate() {
        check("tag", c.id.z().eq_b(s.states[k + 2].id.z()));
    }
    cover("finished");
}
#[cfg(not(feature = "public_only"))]
mod internal {
    use super::*;
    /// one reception from an arbitrary last identifier
    pub fn accept() {
        let mut sim = Sim::new();
        let sent: Sent = Rc::new(RefCell::new(vec![]));
        let s2 = sent.clone();
        let top = (1i128 << 63) - 1;
        sim.batch = Some(Box::new(move |s, k, _| {
            let id = match k {
                0 => U64::lit(1),
                1 => U64::from_z(int_in("id", 0, top)),
                _ => U64::lit(u64::MAX - 10 + k as u64),
            };
            vec![mk(s, &s2, id)]
        }));
        install(sim);
        let mut r = connect();
        let last = int_in("last", 0, top);
        r.robimpl.message_id = U64::from_z(last);
        match r.robimpl.receive_robot_state() {
            Ok(s) => {
                check("newer", last.lt_b(s.message_id.z()));
                check("remembered", r.robimpl.message_id.z().eq_b(s.message_id.z()));
                let id1 = sent.borrow()[1].0.z();
                check("first-newer-one", last.lt_b(id1).implies(s.message_id.z().eq_b(id1)));
                cover("accepted");
            }
            Err(_) => check("accepted", false),
        }
    }
}
