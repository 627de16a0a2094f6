//! Datagrams: a state is the content of exactly one of them, commands go where states come from.
use crate::common::*;
use crate::drive::*;
use crate::ops::kind;
use crate::srv::*;
use symrt::env;

pub fn all() -> Vec<H> {
    vec![
        h("queued_datagrams", "Network::udp_blocking_receive, Network::udp_receive, Robot::read_once, RobotImpl::receive_robot_state", queued)
            .bound("up to 3 queued datagrams of 4 forms each"),
        h("any_length", "Network::udp_blocking_receive, Network::udp_receive, Robot::read_once, RobotImpl::receive_robot_state", any_length),
        h("first_state", "RobotImpl::new, Network::udp_blocking_receive", first),
        h("datagrams_of_a_motion", "Network::udp_blocking_receive, RobotImpl::receive_robot_state, ControlLoop::do_loop", motion)
            .bound("one damaged datagram in one of 3 cycles"),
        h("destination", "Network::udp_send, Network::udp_blocking_receive", destination)
            .bound("motions of 4 commands, 3 source ports"),
        h("socket_errors", "Network::udp_send, Network::udp_blocking_receive, RobotImpl::send_robot_command", errors),
    ]
}
fn full() -> usize {
    STATE_BYTES + 8 * nreals()
}
/// a state all of whose numbers carry the tag
fn tagged(id: u64, t: f64) -> WState {
    let mut s = WState::new(U64::lit(id));
    for x in s.f.iter_mut() {
        *x = l(t);
    }
    s.set("m_ee", &[l(0.0)]);
    s.set("m_load", &[l(0.0)]);
    s
}
const KINDS: [&str; 4] = ["complete", "one byte short", "half", "empty"];
fn cut(mut b: Vec<u8>, k: u32) -> Vec<u8> {
    let n = match k {
        0 => b.len(),
        1 => b.len() - 1,
        2 => b.len() / 2,
        _ => 0,
    };
    b.truncate(n);
    b
}
/// every number of the state belongs to the same datagram
fn whole(s: &franka::robot::robot_state::RobotState) -> Option<f64> {
    let t = s.q[0].as_const()?;
    let ok = |v: &[R]| v.iter().all(|x| x.as_const() == Some(t));
    let all = ok(&s.O_T_EE) && ok(&s.q) && ok(&s.dq_d) && ok(&s.tau_J) && ok(&s.theta) && ok(&s.dtheta) && ok(&s.O_T_EE_c) && ok(&s.elbow);
    if all {
        Some(t)
    } else {
        None
    }
}
fn queued() {
    let n = 1 + choose(3, "datagrams") as usize;
    let ks: Vec<u32> = (0..n).map(|_| choose(4, "form")).collect();
    let early = flag("waiting before the call");
    check("state-size", full() == WState::new(U64::lit(1)).enc().len());
    let mut sim = Sim::new();
    let ks2 = ks.clone();
    sim.batch = Some(Box::new(move |_s, k, st| {
        if k == 1 {
            (0..ks2.len()).map(|j| cut(tagged(10 + j as u64, 1.5 + j as f64).enc(), ks2[j])).collect()
        } else {
            vec![st.enc()]
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    if early {
        for j in 0..n {
            env::world(|w| w.deliver_udp(cut(tagged(10 + j as u64, 1.5 + j as f64).enc(), ks[j])));
        }
        let mut s = hd.borrow_mut();
        s.batch = None;
        s.fill = Some(Box::new(|_, s| {
            s.id = U64::lit(100);
            s.f.iter_mut().for_each(|x| *x = l(9.5));
            s.set("m_ee", &[l(0.0)]);
            s.set("m_load", &[l(0.0)]);
        }));
    }
    let res = r.read_once();
    match res {
        Ok(s) => {
            let w = whole(&s);
            check("one-datagram", w.is_some());
            let t = w.unwrap_or(0.0);
            let j = (0..n).find(|j| 1.5 + *j as f64 == t);
            check("complete-datagram", t == 9.5 || j.map_or(false, |j| ks[j] == 0));
            let id = match j {
                Some(j) => 10 + j as i128,
                None => 100,
            };
            check("its-identifier", s.time.as_millis().z().eq_b(Z::C(id)));
            cover("read");
        }
        Err(e) => {
            check("only-if-incomplete", ks.iter().any(|k| *k != 0));
            check("network-error", kind(&e) == "network");
            cover("error");
        }
    }
    let _ = KINDS;
}
/// one datagram of any length, already there or arriving later
fn any_length() {
    let n = choose(full() as u32, "bytes") as usize;
    let early = flag("waiting before the call");
    let mut sim = Sim::new();
    let bad = move || {
        let mut b = tagged(10, 1.5).enc();
        b.truncate(n);
        b
    };
    if !early {
        sim.batch = Some(Box::new(move |_s, k, st| if k == 1 { vec![bad()] } else { vec![st.enc()] }));
    }
    sim.fill = Some(Box::new(|k, s| {
        if k > 0 {
            s.id = U64::lit(100 + k as u64);
            s.f.iter_mut().for_each(|x| *x = l(9.5));
            s.set("m_ee", &[l(0.0)]);
            s.set("m_load", &[l(0.0)]);
        }
    }));
    install(sim);
    let mut r = connect();
    if early {
        env::world(|w| w.deliver_udp(bad()));
    }
    match r.read_once() {
        Ok(s) => check("one-complete-datagram", whole(&s) == Some(9.5)),
        Err(e) => check("network-error", kind(&e) == "network"),
    }
    cover("read");
}
/// connecting: the first state is missing, incomplete or fine
fn first() {
    // every length
    let n = choose(full() as u32 + 2, "bytes of the first datagram") as usize;
    let mut sim = Sim::new();
    let k = (n != full()) as u32;
    if n > full() {
        sim.states_left = 0;
    } else {
        sim.batch = Some(Box::new(move |_, _, st| {
            let mut b = st.enc();
            b.truncate(n);
            vec![b]
        }));
    }
    let hd = install(sim);
    match Robot::new("10.11.12.13", RealtimeConfig::Ignore, None) {
        Ok(_) => {
            check("only-with-state", k == 0);
            cover("connected");
        }
        Err(e) => {
            check("only-without-state", k != 0);
            check("network-error", kind(&e) == "network");
            cover("refused");
        }
    }
    check("no-command", hd.borrow().cmds.is_empty());
}
/// damaged datagrams in the middle of a motion
fn motion() {
    let m = [M::Q, M::None, M::Vel][choose(3, "interface") as usize];
    let at = 2 + choose(3, "state") as usize;
    let k = 1 + choose(3, "form");
    let also = choose(3, "complete one");
    let mut sim = Sim::new();
    sim.batch = Some(Box::new(move |s, i, st| {
        if i == at {
            let bad = cut(tagged(1000, 7.5).enc(), k);
            match also {
                0 => vec![bad],
                1 => vec![bad, st.enc()],
                _ => vec![st.enc(), bad],
            }
        } else {
            let _ = s;
            vec![st.enc()]
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    let mut calls: Vec<(Z, [R; 7])> = vec![];
    let torque = m == M::None;
    let res = {
        let mut f = |s: &franka::robot::robot_state::RobotState| {
            calls.push((s.time.as_millis().z(), s.q));
            calls.len() == 4
        };
        if torque {
            control_t(&mut r, m, Opt::raw(), |_, _| Out::zero(), |s, _| Tau { tau: [l(0.0); 7], fin: f(s) })
        } else {
            control(&mut r, m, Opt::raw(), |s, _| {
                let mut o = Out::zero();
                o.fin = f(s);
                o
            })
        }
    };
    for (t, q) in &calls {
        let s = hd.borrow();
        check("genuine", B::any(s.states.iter().map(|x| x.id.z().eq_b(*t))));
        check("content", B::any(s.states.iter().map(|x| x.id.z().eq_b(*t).and(same(q, &x.get("q"))))));
    }
    if let Err(e) = &res {
        check("network-error", kind(e) == "network");
        cover("error");
    } else {
        check("calls", calls.len() == 4);
        cover("went on");
    }
    // a lone damaged datagram is reported
    if also == 0 {
        check("damage-reported", res.is_err());
    }
}
/// commands go to the address the latest state came from
fn destination() {
    let ports = [1338u16, 9000, 65535];
    let n = 4;
    let seq: Vec<u16> = (0..n).map(|_| ports[choose(3, "port") as usize]).collect();
    let mut sim = Sim::new();
    let s2 = seq.clone();
    sim.script = Some(Box::new(move |_, _| {}));
    sim.fill = None;
    let hd = install(sim);
    let mut r = connect();
    let mut k = 0;
    let res = control(&mut r, M::Q, Opt::raw(), |_, _| {
        let mut o = Out::zero();
        o.fin = k == 3;
        // where the next state will come from
        env::world(|w| w.server_addr = format!("10.11.12.13:{}", s2[k]).parse().unwrap());
        k += 1;
        o
    });
    check("ends-well", res.is_ok());
    let to: Vec<u16> = env::world(|w| {
        w.log
            .iter()
            .filter_map(|e| if let env::Ev::UdpOut(_, a) = e { Some(a.port()) } else { None })
            .collect()
    });
    check("commands", to.len() == 4 && hd.borrow().cmds.len() == 4);
    let mut want = vec![1338];
    want.extend(&seq[..3]);
    check("destination", to == want);
    let ip = env::world(|w| w.log.iter().all(|e| !matches!(e, env::Ev::UdpOut(_, a) if a.ip().to_string() != "10.11.12.13")));
    check("destination-host", ip);
    cover("sent");
}
fn errors() {
    let hd = install(Sim::new());
    let mut r = connect();
    match choose(3, "fault") {
        0 => {
            env::world(|w| w.udp_recv_fails = true);
            let e = r.read_once();
            check("read-error", matches!(&e, Err(e) if kind(e) == "network"));
            env::world(|w| w.udp_recv_fails = false);
        }
        1 => {
            hd.borrow_mut().states_left = 0;
            let e = r.read_once();
            check("timeout", matches!(&e, Err(e) if kind(e) == "network"));
            hd.borrow_mut().states_left = 10;
        }
        _ => {
            let cap = [0usize, 1, CMD_BYTES - 1][choose(3, "bytes sent") as usize];
            env::world(|w| w.udp_send_cap = Some(cap));
            let e = control(&mut r, M::Q, Opt::raw(), |_, _| Out::zero());
            check("send-error", matches!(&e, Err(e) if kind(e) == "network"));
            env::world(|w| w.udp_send_cap = None);
        }
    }
    check("goes-on", r.read_once().is_ok());
    cover("recovered");
}
