//! Gripper.
use crate::common::*;
use crate::ops::{body_is, kind, xs, X};
use crate::srv::{same, Rd};
use franka::exception::FrankaException;
use franka::Gripper;
use std::cell::RefCell;
use std::net::SocketAddr;
use std::rc::Rc;
use symrt::env::{self, Kind, Server, World};

pub fn all() -> Vec<H> {
    vec![
        h("requests", "Gripper::move_gripper, Gripper::homing, Gripper::stop, Gripper::grasp, gripper::types::*Request, Network::create_header_for_gripper, handle_response_status", requests),
        h("sequences", "Network::create_header_for_gripper, Gripper::*, Network::tcp_read_from_buffer", sequences)
            .bound("sequences of 2 requests"),
        h("connect", "Gripper::new, Gripper::connect_gripper, Gripper::server_version", connecting),
        h("state", "Gripper::read_once, GripperState::from, Network::udp_receive, Network::udp_blocking_receive", state)
            .bound("up to 2 unread states; listed ids and temperatures"),
        h("segments", "Network::tcp_read_from_buffer, Gripper::*", segments)
            .bound("answers in up to 3 pieces"),
        h("long_session", "Network::create_header_for_gripper, Network::tcp_read_from_buffer, Gripper::*", long_session)
            .samples(2)
            .bound("66000 requests and 600 states on one connection"),
    ]
}
#[derive(Clone, Debug)]
struct Q {
    cmd: u16,
    id: u32,
    size: u32,
    body: Vec<u8>,
    total: usize,
}
struct G {
    reqs: Vec<Q>,
    status: u16,
    connect: (u16, u16),
    /// states that go out, in order; `fresh` is sent when the client waits
    fresh: Vec<Vec<u8>>,
    /// lengths of the pieces a response is cut into
    cuts: Vec<usize>,
    pending: Vec<Vec<u8>>,
    /// responses to identifiers nobody waits for, sent before the real one
    noise: Vec<u32>,
}
struct Front(Rc<RefCell<G>>, Vec<u8>);
fn resp(cmd: u16, id: u32, payload: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    b.extend(cmd.to_le_bytes());
    b.extend(id.to_le_bytes());
    b.extend((10 + payload.len() as u32).to_le_bytes());
    b.extend(payload);
    b
}
impl Server for Front {
    fn on_tcp(&mut self, w: &mut World, bytes: &[u8]) {
        self.1.extend(bytes);
        if self.1.len() < 10 {
            return;
        }
        let b = self.1.clone();
        let mut r = Rd(&b, 0);
        let (cmd, id, size) = (r.u16(), r.u32(), r.u32());
        if size as usize > b.len() && size < 4096 {
            return;
        }
        self.1.clear();
        let mut g = self.0.borrow_mut();
        g.reqs.push(Q { cmd, id, size, body: b[10..].to_vec(), total: b.len() });
        let mut out = vec![];
        if cmd != 0 {
            for i in g.noise.clone() {
                out.extend(resp(cmd, i, &1u16.to_le_bytes()));
            }
        }
        if cmd == 0 {
            let mut p = g.connect.0.to_le_bytes().to_vec();
            p.extend(g.connect.1.to_le_bytes());
            out.extend(resp(cmd, id, &p));
        } else {
            out.extend(resp(cmd, id, &g.status.to_le_bytes()));
        }
        for c in g.cuts.clone() {
            if c < out.len() {
                let rest = out.split_off(c);
                g.pending.push(std::mem::replace(&mut out, rest));
            }
        }
        g.pending.push(out);
        let first = g.pending.remove(0);
        w.deliver_tcp(&first);
    }
    fn on_udp(&mut self, _w: &mut World, _b: &[u8], _to: SocketAddr) {}
    fn on_poll(&mut self, w: &mut World, k: Kind) {
        let mut g = self.0.borrow_mut();
        match k {
            Kind::Tcp => {
                if !g.pending.is_empty() {
                    let b = g.pending.remove(0);
                    w.deliver_tcp(&b);
                }
            }
            Kind::Udp => {
                if !g.fresh.is_empty() {
                    let b = g.fresh.remove(0);
                    w.deliver_udp(b);
                }
            }
        }
    }
}
fn install() -> Rc<RefCell<G>> {
    env::reset_world();
    let g = Rc::new(RefCell::new(G {
        reqs: vec![],
        status: 0,
        connect: (0, 3),
        fresh: vec![],
        cuts: vec![],
        pending: vec![],
        noise: vec![],
    }));
    let f = Front(g.clone(), vec![]);
    env::world(|w| w.server = Some(Box::new(f)));
    g
}
fn connect() -> Gripper {
    Gripper::new("10.11.12.13").unwrap_or_else(|e| panic!("{}", e))
}
type Res = franka::exception::FrankaResult<bool>;
fn issue(g: &mut Gripper, op: u32, t: &str) -> (u16, Vec<X>, Res) {
    let v = |n: &str| real_in(&format!("{}.{}", t, n), -10.0, 100.0);
    match op {
        0 => {
            let (w, s) = (v("width"), v("speed"));
            (3, xs(&[w, s]), g.move_gripper(w, s))
        }
        1 => (1, vec![], g.homing()),
        2 => (4, vec![], g.stop()),
        _ => {
            let (w, s, f) = (v("width"), v("speed"), v("force"));
            let i = if flag("inner given") { Some(v("inner")) } else { None };
            let o = if flag("outer given") { Some(v("outer")) } else { None };
            (
                2,
                xs(&[w, i.unwrap_or(l(0.005)), o.unwrap_or(l(0.005)), s, f]),
                g.grasp(w, s, f, i, o),
            )
        }
    }
}
fn verdict(res: &Res, st: u16) {
    match res {
        Ok(b) => {
            check("ok-only-if-executed", st == 0 || st == 2);
            check("success-flag", *b == (st == 0));
        }
        Err(e) => {
            note(&e.to_string());
            check("error-only-on-failure", st == 1 || st == 3);
            check("error-kind", kind(e) == "command");
            let s = e.to_string().to_lowercase();
            check("error-reason", s.contains(if st == 1 { "fail" } else { "abort" }));
        }
    }
}
fn requests() {
    let hd = install();
    let mut g = connect();
    let st = choose(4, "status") as u16;
    hd.borrow_mut().status = st;
    let c = [usize::MAX, 1, 7][choose(3, "bytes accepted per write") as usize];
    env::world(|w| w.tcp_write_cap = c);
    let (cmd, want, res) = issue(&mut g, choose(4, "request"), "a");
    verdict(&res, st);
    let s = hd.borrow();
    check("one-request", s.reqs.len() == 2);
    let q = &s.reqs[1];
    check("command-code", q.cmd == cmd);
    check("header-size", q.size as usize == q.total);
    body_is("body", &q.body, &want);
    cover("sent");
}
fn sequences() {
    let hd = install();
    let mut g = connect();
    for k in 0..3 {
        let st = choose(4, "status") as u16;
        hd.borrow_mut().status = st;
        let (cmd, _, res) = issue(&mut g, choose(3, "request"), &format!("k{}", k));
        verdict(&res, st);
        check("own-request", hd.borrow().reqs.last().unwrap().cmd == cmd);
    }
    let s = hd.borrow();
    for i in 0..s.reqs.len() {
        for j in 0..i {
            check("distinct-ids", s.reqs[i].id != s.reqs[j].id);
        }
    }
    cover("sent");
}
fn segments() {
    let hd = install();
    let mut g = connect();
    // cut points inside the response of 12 bytes, and responses to other identifiers before it
    let a = choose(12, "first cut") as usize;
    let b = choose(12, "second cut") as usize;
    hd.borrow_mut().cuts = [a, b].iter().filter(|x| **x > 0).cloned().collect();
    if flag("stray response") {
        hd.borrow_mut().noise = vec![77];
    }
    let st = choose(4, "status") as u16;
    hd.borrow_mut().status = st;
    let (_, _, res) = issue(&mut g, 1, "a");
    verdict(&res, st);
    hd.borrow_mut().noise.clear();
    hd.borrow_mut().status = 0;
    let (_, _, res) = issue(&mut g, 2, "b");
    verdict(&res, 0);
    cover("answered");
}
fn connecting() {
    let hd = install();
    let st = choose(4, "status") as u16;
    let ver = [3u16, 2, 4, 0, 65535][choose(5, "version") as usize];
    let port = [45678u16, 1, 65535][choose(3, "udp port") as usize];
    let refused = flag("connection refused");
    hd.borrow_mut().connect = (st, ver);
    env::world(|w| {
        w.udp_port = port;
        w.connect_fails = refused;
    });
    match Gripper::new("10.11.12.13") {
        Ok(g) => {
            check("connected-only-if-accepted", st == 0 && !refused);
            check("server-version", g.server_version() == ver);
        }
        Err(e) => {
            check("refused-only", st != 0 || refused);
            if refused {
                check("network-error", kind(&e) == "network");
            } else {
                check(
                    "version-error",
                    matches!(e, FrankaException::IncompatibleLibraryVersionError { server_version, library_version }
                    if server_version == ver && library_version == 3),
                );
            }
        }
    }
    let s = hd.borrow();
    if !refused {
        check("one-request", s.reqs.len() == 1 && s.reqs[0].cmd == 0);
        let q = &s.reqs[0];
        check("header-size", q.size as usize == q.total && q.body.len() == 4);
        if q.body.len() == 4 {
            let mut b = Rd(&q.body, 0);
            check("library-version", b.u16() == 3);
            check("announced-port", b.u16() == port);
        }
    }
    let to = env::world(|w| {
        w.log.iter().find_map(|e| if let env::Ev::Connect(a) = e { Some(*a) } else { None })
    });
    check("address", to == Some("10.11.12.13:1338".parse().unwrap()));
    cover("connected");
}
fn enc(id: u32, w: R, m: R, g: bool, t: u16) -> Vec<u8> {
    let mut b = id.to_le_bytes().to_vec();
    b.extend(w.raw().to_le_bytes());
    b.extend(m.raw().to_le_bytes());
    b.push(g as u8);
    b.extend(t.to_le_bytes());
    b
}
fn state() {
    let hd = install();
    let mut g = connect();
    let grasped = flag("grasped");
    let pick = |n: &str| match choose(if is_symbolic() { 4 } else { 6 }, n) {
        0 => 0,
        1 => 5,
        2 => 1000,
        3 => u32::MAX,
        _ => choose(u32::MAX, n),
    };
    let t = pick("temperature") as u16;
    let id = pick("message id");
    let (w, m) = (real_in("width", -1.0, 1.0), real_in("max_width", -1.0, 1.0));
    // older states that nobody has read yet
    let stale = choose(3, "unread states");
    for k in 0..stale {
        env::world(|x| x.deliver_udp(enc(k, l(9.0), l(9.0), !grasped, 9)));
    }
    let arrives = flag("a state arrives");
    if arrives {
        hd.borrow_mut().fresh.push(enc(id, w, m, grasped, t));
    }
    match g.read_once() {
        Ok(s) => {
            check("only-if-received", arrives);
            check("width", same(&[s.width], &[w]));
            check("max-width", same(&[s.max_width], &[m]));
            check("grasped", s.is_grasped == grasped);
            check("temperature", s.temperature == t);
            check("time", s.time.as_millis().z().eq_b(Z::C(id as i128)));
        }
        Err(e) => {
            check("error-only-without-state", !arrives);
            check("error-kind", kind(&e) == "network");
        }
    }
    cover("read");
}
/// many requests with every outcome, answers in pieces and answers nobody waits for, states in between
fn long_session() {
    let hd = install();
    let mut g = connect();
    let mut x = 1 + if is_symbolic() { 0 } else { choose(1 << 20, "seed") };
    let mut rnd = move |n: u32| {
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        x % n
    };
    let mut seen = std::collections::HashSet::new();
    seen.insert(hd.borrow().reqs[0].id);
    let mut id = 1;
    for _ in 0..66 {
        let mut good = true;
        let mut own = true;
        for j in 0..1000 {
            let st = rnd(4) as u16;
            {
                let mut h = hd.borrow_mut();
                h.reqs.clear();
                h.status = st;
                h.noise = if rnd(50) == 0 { vec![0x4000_0000 + rnd(1000)] } else { vec![] };
                h.cuts = if rnd(20) == 0 { vec![1 + rnd(11) as usize] } else { vec![] };
            }
            env::world(|w| w.log.clear());
            let r = if rnd(2) == 0 { g.stop() } else { g.homing() };
            own &= match r {
                Ok(b) => b == (st == 0) && (st == 0 || st == 2),
                Err(_) => st == 1 || st == 3,
            };
            let n = hd.borrow().reqs.len();
            good &= n == 1 && seen.insert(hd.borrow().reqs[0].id);
            if j % 110 == 0 {
                for k in 0..rnd(4) {
                    env::world(|w| w.deliver_udp(enc(id + k, l(9.0), l(9.0), true, 9)));
                }
                id += 3 + rnd(1 << 16);
                let (w, t) = (l(id as f64 / 1024.0), rnd(65536) as u16);
                hd.borrow_mut().fresh.push(enc(id, w, l(0.5), false, t));
                match g.read_once() {
                    Ok(s) => {
                        check("width", same(&[s.width], &[w]));
                        check("state", s.temperature == t && !s.is_grasped);
                        check("time", s.time.as_millis().z().eq_b(Z::C(id as i128)));
                    }
                    Err(_) => check("read", false),
                }
            }
        }
        check("new-identifier", good);
        check("own-answer", own);
    }
    cover("sent");
}
