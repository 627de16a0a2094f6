//! Responses are reassembled and matched with their request, however the stream is cut.
use crate::common::*;
use crate::drive::*;
use crate::ops::*;
use crate::srv::*;
use franka::exception::FrankaException;

pub fn all() -> Vec<H> {
    #[allow(unused_mut)]
    let mut v = vec![
        h("induct_pieces", "Network::wait_for_response_to_arrive, Network::tcp_read_from_buffer", crate::induct::pieces).samples(5),
        h("segments", "Network::tcp_read_from_buffer, Network::wait_for_response_to_arrive, Network::tcp_blocking_receive_response, Robot::set_*", segments)
            .bound("one answer of 13 bytes in up to 3 pieces (every division)").by("induct_pieces"),
        h("long_segments", "Network::tcp_read_from_buffer, Network::wait_for_response_to_arrive, Network::tcp_blocking_receive_response, Robot::get_virtual_wall", long_segments)
            .bound("one answer in up to 3 pieces (every division)"),
        h("large_answer", "Network::tcp_read_from_buffer, Network::wait_for_response_to_arrive, Network::tcp_blocking_receive_load_library_response, Robot::load_model", large)
            .bound("answers of 1 to 250013 bytes (7 lengths), 5 divisions, another answer before and after"),
        h("strays", "Network::tcp_read_from_buffer, Network::wait_for_response_to_arrive", strays)
            .bound("up to 2 other answers before and 1 after, 7 piece lengths"),
        h("many_requests", "Network::tcp_read_from_buffer, Network::tcp_blocking_receive_response", many)
            .bound("piece lengths up to 30"),
        h("connect_in_pieces", "RobotImpl::connect_robot, Network::tcp_read_from_buffer", connecting)
            .bound("one answer of 15 bytes in up to 3 pieces (every division)").by("induct_pieces"),
        h("motion_in_pieces", "RobotImpl::start_motion, RobotImpl::finish_motion, Network::tcp_receive_response, Network::tcp_blocking_receive_response", motion)
            .bound("piece lengths up to 27"),
        h("stop_and_move_together", "RobotImpl::cancel_motion, Network::tcp_receive_response, Network::tcp_read_from_buffer", together)
            .bound("5 piece lengths"),
        h("late_move_answer", "RobotImpl::cancel_motion, Network::tcp_read_from_buffer", late)
            .bound("4 piece lengths"),
    ];
    #[cfg(not(feature = "public_only"))]
    {
        v.push(h("outstanding", "Network::tcp_send_request, Network::tcp_blocking_receive_response, Network::tcp_receive_response, Network::tcp_read_from_buffer, Network::wait_for_response_to_arrive", internal::outstanding)
            .bound("3 requests, every order of answers and of waiting, answers at 3 moments, 4 piece lengths"));
        v.push(h("many_outstanding", "Network::tcp_send_request, Network::tcp_blocking_receive_response, Network::tcp_read_from_buffer", internal::many_outstanding)
            .bound("200 requests, 3 orders"));
    }
    v
}
/// statuses every setter understands, and the kind of error they lead to
fn outcome(d: &Done, status: u8) {
    if status == 0 {
        check("success", d.res.is_ok());
    } else {
        check("refusal", matches!(&d.res, Err(e) if kind(e) == "command"));
    }
}
/// every division into up to three pieces
fn pieces(total: usize) -> Vec<usize> {
    let a = choose(total as u32, "first piece") as usize;
    if a == 0 {
        return vec![];
    }
    let b = choose((total - a) as u32, "second piece") as usize;
    if b == 0 {
        vec![a]
    } else {
        vec![a, b]
    }
}
const SET: [u32; 5] = [1, 8, 9, 10, 4];
fn setup(sim: &mut Sim, status: u8) {
    answering(sim);
    sim.status = status;
}
fn segments() {
    let op = [1, 8, 9, 4][choose(4, "request") as usize];
    segmented(op);
}
fn long_segments() {
    let size: [R; 3] = reals("size", -5.0, 5.0);
    let frame: [R; 16] = reals("frame", -5.0, 5.0);
    let active = flag("active");
    let payload = wall_payload(0, &size, &frame, active);
    let len = 12 + payload.len();
    let mut sim = Sim::new();
    sim.reply = Some(Box::new(move |_s, q| if q.cmd == GETLIMIT { Some(response(GETLIMIT, q.id, &payload)) } else { None }));
    let hd = install(sim);
    let mut r = connect();
    hd.borrow_mut().cuts = Some(pieces(len));
    match r.get_virtual_wall(3) {
        Ok(w) => {
            check("wall-size", same(&w.object_world_size, &size));
            check("wall-frame", same(&w.p_frame, &frame));
            check("wall-active", w.active == active);
        }
        Err(_) => check("success", false),
    }
    hd.borrow_mut().cuts = None;
    let d = issue(&mut r, 1, "b");
    outcome(&d, 0);
    cover("answered");
}
/// the one answer of arbitrary length
fn large() {
    let n = [1usize, 700, 65523, 69987, 69988, 140007, 250000][choose(7, "bytes of the library") as usize];
    let lib: Vec<u8> = (0..n).map(|i| ((i * 11 + i / 241 * 17 + 5) % 251) as u8).collect();
    let before = flag("another answer before");
    let after = flag("another answer after");
    let l2 = lib.clone();
    let mut sim = Sim::new();
    sim.reply = Some(Box::new(move |_, q| {
        if q.cmd != LOADLIB {
            return None;
        }
        let mut b = vec![];
        if before {
            b.extend(response(STOP, 4000, &[3]));
        }
        let mut p = vec![0u8];
        p.extend(&l2);
        b.extend(response(LOADLIB, q.id, &p));
        if after {
            b.extend(response(STOP, 4001, &[2]));
        }
        Some(b)
    }));
    match choose(5, "division") {
        0 => {}
        1 => sim.chunk = 1460,
        2 => sim.chunk = 65536,
        3 => sim.cuts = Some(vec![5, 8, n / 2 + 1]),
        _ => sim.cuts = Some(vec![13, 12, n.saturating_sub(1)]),
    }
    let _hd = install(sim);
    let mut r = connect();
    check("answered", r.load_model(true).is_ok());
    let file = symrt::env::world(|w| w.files.values().next().cloned());
    check("complete-and-unaltered", file == Some(lib));
    check("next-request", r.set_guiding_mode([true; 6], false).is_ok());
    cover("answered");
}
fn segmented(op: u32) {
    let mut sim = Sim::new();
    answering(&mut sim);
    let hd = install(sim);
    let mut r = connect();
    let st = choose(2, "status") as u8;
    let len = 13;
    {
        let mut s = hd.borrow_mut();
        s.status = st;
        s.stop_status = if st == 0 { 0 } else { 2 };
        s.cuts = Some(pieces(len));
    }
    let d = issue(&mut r, op, "a");
    if OPS[op as usize] == RECOVERY && st == 1 {
        check("answered", d.res.is_ok() || d.res.is_err());
    } else {
        outcome(&d, st);
    }
    hd.borrow_mut().cuts = None;
    hd.borrow_mut().status = 0;
    hd.borrow_mut().stop_status = 0;
    let d = issue(&mut r, 1, "b");
    outcome(&d, 0);
    cover("answered");
}
/// answers to identifiers nobody waits for come before and together with the right one
fn strays() {
    let before = choose(3, "before") as usize;
    let after = choose(2, "after") as usize;
    let st = choose(2, "status") as u8;
    let mut sim = Sim::new();
    let chunk = [0usize, 1, 5, 12, 13, 14, 20][choose(7, "piece length") as usize];
    let mut first = true;
    sim.reply = Some(Box::new(move |_s, q| {
        if q.cmd != JIMP {
            return None;
        }
        let mut b = vec![];
        if first {
            for k in 0..before {
                b.extend(response(JIMP, 1000 + k as u32, &[1 - st]));
            }
        }
        b.extend(response(JIMP, q.id, &[st]));
        if first {
            for k in 0..after {
                b.extend(response(JIMP, 2000 + k as u32, &[1 - st]));
            }
        }
        first = false;
        Some(b)
    }));
    let hd = install(sim);
    let mut r = connect();
    hd.borrow_mut().chunk = chunk;
    let d = issue(&mut r, 1, "a");
    outcome(&d, st);
    let d = issue(&mut r, 1, "b");
    outcome(&d, st);
    cover("answered");
}
fn many() {
    let mut sim = Sim::new();
    setup(&mut sim, 0);
    let hd = install(sim);
    let mut r = connect();
    let chunk = choose(31, "piece length") as usize;
    hd.borrow_mut().chunk = chunk;
    for k in 0..6 {
        let op = SET[k % 5];
        let d = issue(&mut r, op, &format!("r{}", k));
        outcome(&d, 0);
    }
    check("all-arrived", hd.borrow().reqs.len() == 7);
    cover("answered");
}
fn connecting() {
    let mut sim = Sim::new();
    let st = choose(2, "status") as u8;
    let v = [5u16, 300, 65535][choose(3, "version") as usize];
    sim.connect = (st, v);
    sim.cuts = Some(pieces(15));
    install(sim);
    match Robot::new("10.11.12.13", RealtimeConfig::Ignore, None) {
        Ok(r) => {
            check("accepted-only", st == 0);
            check("version", r.server_version() == v);
        }
        Err(FrankaException::IncompatibleLibraryVersionError { server_version, .. }) => {
            check("refused-only", st == 1);
            check("version", server_version == v);
        }
        Err(_) => check("kind", false),
    }
    cover("connected");
}
fn motion() {
    let m = [M::Q, M::None][choose(2, "interface") as usize];
    let fin = [0u8, 6, 7][choose(3, "final status") as usize];
    let mut sim = Sim::new();
    sim.move_final = fin;
    sim.finish_delay = 1;
    let hd = install(sim);
    let mut r = connect();
    hd.borrow_mut().chunk = choose(28, "piece length") as usize;
    for _ in 0..2 {
        let mut k = 0;
        let res = if m == M::None {
            control_t(&mut r, m, Opt::raw(), |_, _| Out::zero(), |_, _| {
                k += 1;
                Tau { tau: [l(0.0); 7], fin: k == 2 }
            })
        } else {
            control(&mut r, m, Opt::raw(), |_, _| {
                let mut o = Out::zero();
                k += 1;
                o.fin = k == 2;
                o
            })
        };
        if fin == 0 {
            check("success", res.is_ok());
        } else {
            check("error", matches!(&res, Err(e) if kind(e) == "control"));
        }
    }
    cover("ended");
}
/// answers to the stop and to the move of a canceled motion arrive in one piece, in any order
fn together() {
    let order = flag("move first");
    let chunk = [0usize, 13, 26, 12, 7][choose(5, "piece length") as usize];
    let hd = {
        let mut sim = Sim::new();
        sim.reply = Some(Box::new(move |s, q| {
            if q.cmd != STOP {
                return None;
            }
            s.idle();
            let a = response(STOP, q.id, &[0]);
            let b = s.move_id.take().map_or(vec![], |m| response(MOVE, m, &[2]));
            Some(if order { [b, a].concat() } else { [a, b].concat() })
        }));
        install(sim)
    };
    let mut r = connect();
    hd.borrow_mut().chunk = chunk;
    // the motion is canceled because no command can be sent
    symrt::env::world(|w| w.udp_send_fails = true);
    let res = control(&mut r, M::Q, Opt::raw(), |_, _| Out::zero());
    check("error-kept", matches!(&res, Err(e) if kind(e) == "network"));
    symrt::env::world(|w| w.udp_send_fails = false);
    let d = issue(&mut r, 1, "a");
    outcome(&d, 0);
    let mut k = 0;
    let res = control(&mut r, M::Q, Opt::raw(), |_, _| {
        let mut o = Out::zero();
        k += 1;
        o.fin = k == 2;
        o
    });
    check("next-motion", res.is_ok());
    cover("ended");
}
/// the answer to a canceled motion arrives together with that to the next request
fn late() {
    let first = flag("late answer first");
    let st = choose(2, "status") as u8;
    let mut sim = Sim::new();
    let mut old = None;
    sim.reply = Some(Box::new(move |s, q| match q.cmd {
        STOP => {
            s.idle();
            old = s.move_id.take();
            None
        }
        JIMP => {
            let a = response(JIMP, q.id, &[st]);
            let b = old.take().map_or(vec![], |m| response(MOVE, m, &[2]));
            Some(if first { [b, a].concat() } else { [a, b].concat() })
        }
        _ => None,
    }));
    let hd = install(sim);
    let mut r = connect();
    symrt::env::world(|w| w.udp_send_fails = true);
    let res = control(&mut r, M::Q, Opt::raw(), |_, _| Out::zero());
    check("error-kept", matches!(&res, Err(e) if kind(e) == "network"));
    symrt::env::world(|w| w.udp_send_fails = false);
    hd.borrow_mut().chunk = [0usize, 13, 26, 5][choose(4, "piece length") as usize];
    let d = issue(&mut r, 1, "a");
    outcome(&d, st);
    let d = issue(&mut r, 1, "b");
    outcome(&d, st);
    cover("ended");
}

#[cfg(not(feature = "public_only"))]
mod internal {
    use super::*;
    use franka::network::{Network, NetworkType};
    use franka::robot::service_types::{RobotCommandEnum, StopMoveRequestWithHeader, StopMoveResponse};
    const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    fn send(n: &mut Network) -> u32 {
        let header = n.create_header_for_robot(RobotCommandEnum::StopMove, 12);
        n.tcp_send_request(StopMoveRequestWithHeader { header })
    }
    /// robot that answers only when told to
    fn silent() -> Sim {
        let mut sim = Sim::new();
        sim.reply = Some(Box::new(|_, _| Some(vec![])));
        sim
    }
    fn network() -> Network {
        match Network::new(NetworkType::Robot, "10.11.12.13", 1337) {
            Ok(n) => n,
            Err(_) => panic!("connection failed"),
        }
    }
    fn push(hd: &Handle, b: Vec<u8>) {
        hd.borrow_mut().pending_tcp.extend(b);
    }
    /// several requests under way; each gets its own answer, in whatever order it is waited for,
    /// also when further requests are sent in between
    pub fn outstanding() {
        let hd = install(silent());
        let mut n = network();
        hd.borrow_mut().chunk = [26usize, 13, 5, 100][choose(4, "piece length") as usize];
        let order = ORDERS[choose(6, "order of answers") as usize];
        let wait = ORDERS[choose(6, "order of waiting") as usize];
        // what is answered before the last request is sent, and looked at or not
        let early = choose(3, "answered before the last request") as usize;
        let look = choose(4, "looked at without waiting");
        let mut ids = vec![send(&mut n), send(&mut n)];
        let status = |k: usize| [1u8, 0, 3][k];
        let mut done: Vec<usize> = vec![];
        for &k in order.iter().filter(|k| **k < 2).take(early) {
            push(&hd, response(STOP, ids[k], &[status(k)]));
            done.push(k);
        }
        let mut taken = None;
        match look {
            0 => {}
            1 => {
                // nobody waits for this one
                let r = n.tcp_receive_response(77777, |_: StopMoveResponse| Ok(()));
                check("nothing-for-others", matches!(r, Ok(false)));
            }
            _ => {
                // twice, so that both answers have been looked for
                for _ in 0..2 {
                    if taken.is_some() {
                        continue;
                    }
                    let k = wait[0].min(1);
                    let mut called = 0;
                    let r = n.tcp_receive_response(ids[k], |a: StopMoveResponse| {
                        called += 1;
                        check("own-answer", a.header.command_id == ids[k] && a.status as u8 == status(k));
                        if look == 2 {
                            Ok(())
                        } else {
                            Err(franka::exception::FrankaException::NoControllerRunningError)
                        }
                    });
                    check("handled-once", called <= 1);
                    check("only-if-answered", called == 0 || done.contains(&k));
                    check("handled-or-not", matches!((&r, called, look), (Ok(false), 0, _) | (Ok(true), 1, 2) | (Err(_), 1, 3)));
                    if called == 1 {
                        taken = Some(k);
                    }
                }
            }
        }
        ids.push(send(&mut n));
        for &k in order.iter() {
            if !done.contains(&k) {
                push(&hd, response(STOP, ids[k], &[status(k)]));
            }
        }
        for &k in wait.iter() {
            if taken == Some(k) {
                continue;
            }
            let a: StopMoveResponse = n.tcp_blocking_receive_response(ids[k]);
            check("own-answer", a.header.command_id == ids[k] && a.status as u8 == status(k));
        }
        cover("answered");
    }
    pub fn many_outstanding() {
        let hd = install(silent());
        let mut n = network();
        hd.borrow_mut().chunk = 13;
        let ids: Vec<u32> = (0..200).map(|_| send(&mut n)).collect();
        for (k, i) in ids.iter().enumerate() {
            push(&hd, response(STOP, *i, &[(k % 5) as u8]));
        }
        let how = choose(3, "order of waiting");
        for j in 0..ids.len() {
            let k = match how {
                0 => j,
                1 => ids.len() - 1 - j,
                _ => (j * 77 + 13) % ids.len(),
            };
            // each of these waits may look once for input that is not there
            symrt::env::world(|w| w.idle = 0);
            let a: StopMoveResponse = n.tcp_blocking_receive_response(ids[k]);
            check("own-answer", a.header.command_id == ids[k] && a.status as u8 == (k % 5) as u8);
        }
        cover("answered");
    }
}
