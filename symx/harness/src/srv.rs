//! Independent description of the wire format and a scriptable robot controller at the other end
//! of the (stand-in) sockets.  Nothing in here uses the message types of the code under contract.
use crate::common::*;
use std::cell::RefCell;
use std::net::SocketAddr;
use std::rc::Rc;
use symrt::env::{self, Kind, Server, World};

/// reals of a robot state in the order in which they lie on the wire
pub const FIELDS: [(&str, usize); 39] = [
    ("O_T_EE", 16),
    ("O_T_EE_d", 16),
    ("F_T_EE", 16),
    ("EE_T_K", 16),
    ("F_T_NE", 16),
    ("NE_T_EE", 16),
    ("m_ee", 1),
    ("I_ee", 9),
    ("F_x_Cee", 3),
    ("m_load", 1),
    ("I_load", 9),
    ("F_x_Cload", 3),
    ("elbow", 2),
    ("elbow_d", 2),
    ("tau_J", 7),
    ("tau_J_d", 7),
    ("dtau_J", 7),
    ("q", 7),
    ("q_d", 7),
    ("dq", 7),
    ("dq_d", 7),
    ("ddq_d", 7),
    ("joint_contact", 7),
    ("cartesian_contact", 6),
    ("joint_collision", 7),
    ("cartesian_collision", 6),
    ("tau_ext_hat_filtered", 7),
    ("O_F_ext_hat_K", 6),
    ("K_F_ext_hat_K", 6),
    ("O_dP_EE_d", 6),
    ("O_ddP_O", 3),
    ("elbow_c", 2),
    ("delbow_c", 2),
    ("ddelbow_c", 2),
    ("O_T_EE_c", 16),
    ("O_dP_EE_c", 6),
    ("O_ddP_EE_c", 6),
    ("theta", 7),
    ("dtheta", 7),
];
pub fn nreals() -> usize {
    FIELDS.iter().map(|f| f.1).sum()
}
fn off(name: &str) -> (usize, usize) {
    let mut o = 0;
    for (n, k) in FIELDS.iter() {
        if *n == name {
            return (o, *k);
        }
        o += k;
    }
    panic!("no field {}", name)
}
pub const IDENT: [f64; 16] = [
    1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1.,
];
/// identity rotation with translation
pub fn pose(t: [R; 3]) -> [R; 16] {
    let mut p: [R; 16] = std::array::from_fn(|i| l(IDENT[i]));
    p[12] = t[0];
    p[13] = t[1];
    p[14] = t[2];
    p
}

#[derive(Clone)]
pub struct WState {
    pub id: U64,
    pub f: Vec<R>,
    pub mg: u8,
    pub cm: u8,
    pub err: [bool; 41],
    pub refl: [bool; 41],
    pub rm: u8,
    pub rate: R,
}
pub const STATE_BYTES: usize = 8 + 1 + 1 + 82 + 1 + 8; // plus 8 per real
impl WState {
    pub fn new(id: U64) -> WState {
        let mut s = WState {
            id,
            f: vec![l(0.0); nreals()],
            mg: 0,
            cm: 3,
            err: [false; 41],
            refl: [false; 41],
            rm: 1,
            rate: l(0.0),
        };
        for n in ["O_T_EE", "O_T_EE_d", "F_T_EE", "EE_T_K", "F_T_NE", "NE_T_EE", "O_T_EE_c"] {
            s.set(n, &std::array::from_fn::<R, 16, _>(|i| l(IDENT[i])));
        }
        s
    }
    /// everything a command must not depend on: measured values, loads, contacts, flags
    fn background(&mut self, k: usize, seed: u64) {
        const COMMANDED: [&str; 10] = ["q_d", "dq_d", "ddq_d", "tau_J_d", "O_T_EE_c", "O_dP_EE_c", "O_ddP_EE_c", "elbow_c", "delbow_c", "ddelbow_c"];
        let mut x = (seed ^ 0x9e37_79b9_7f4a_7c15).wrapping_add(k as u64);
        let mut next = move || {
            x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            ((z ^ (z >> 31)) >> 11) as f64 / (1u64 << 53) as f64
        };
        for (n, len) in FIELDS.iter() {
            if COMMANDED.contains(n) {
                continue;
            }
            let b = if n.starts_with("tau") || n.contains("F_ext") { 80.0 } else { 2.5 };
            let v: Vec<R> = match *n {
                "m_ee" | "m_load" => vec![l(0.05 + 3.0 * next())],
                _ if n.contains("contact") || n.contains("collision") => (0..*len).map(|_| l((next() < 0.3) as u8 as f64)).collect(),
                _ if *len == 16 => {
                    let (s, c) = (6.0 * next()).sin_cos();
                    let t = [next() - 0.5, next() - 0.5, next()];
                    [c, s, 0., 0., -s, c, 0., 0., 0., 0., 1., 0., t[0], t[1], t[2], 1.].map(l).to_vec()
                }
                _ => (0..*len).map(|_| l((next() * 2.0 - 1.0) * b)).collect(),
            };
            self.set(n, &v);
        }
        self.rate = l(next());
        if seed != 0 {
            for i in 0..41 {
                self.err[i] = next() < 0.2;
                self.refl[i] = next() < 0.2;
            }
        }
    }
    pub fn set(&mut self, name: &str, v: &[R]) {
        let (o, n) = off(name);
        assert_eq!(n, v.len());
        self.f[o..o + n].copy_from_slice(v);
    }
    pub fn get(&self, name: &str) -> Vec<R> {
        let (o, n) = off(name);
        self.f[o..o + n].to_vec()
    }
    pub fn arr<const N: usize>(&self, name: &str) -> [R; N] {
        let v = self.get(name);
        assert_eq!(v.len(), N);
        std::array::from_fn(|i| v[i])
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut b = vec![];
        b.extend(self.id.raw().to_le_bytes());
        for x in &self.f {
            b.extend(x.raw().to_le_bytes());
        }
        b.push(self.mg);
        b.push(self.cm);
        b.extend(self.err.iter().map(|x| *x as u8));
        b.extend(self.refl.iter().map(|x| *x as u8));
        b.push(self.rm);
        b.extend(self.rate.raw().to_le_bytes());
        b
    }
}

pub struct Rd<'a>(pub &'a [u8], pub usize);
impl<'a> Rd<'a> {
    pub fn u8(&mut self) -> u8 {
        self.1 += 1;
        self.0[self.1 - 1]
    }
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let r = self.0[self.1..self.1 + N].try_into().unwrap();
        self.1 += N;
        r
    }
    pub fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.bytes())
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.bytes())
    }
    pub fn u64(&mut self) -> U64 {
        U64::from_raw(u64::from_le_bytes(self.bytes()))
    }
    pub fn r(&mut self) -> R {
        R::from_bits(u64::from_le_bytes(self.bytes()))
    }
    pub fn rs<const N: usize>(&mut self) -> [R; N] {
        std::array::from_fn(|_| self.r())
    }
}

/// a robot command as it arrives at the controller
#[derive(Clone)]
pub struct WCmd {
    pub id: U64,
    pub q: [R; 7],
    pub dq: [R; 7],
    pub pose: [R; 16],
    pub vel: [R; 6],
    pub elbow: [R; 2],
    pub valid_elbow: u8,
    pub finished: u8,
    pub tau: [R; 7],
}
pub const CMD_BYTES: usize = 8 + 8 * (7 + 7 + 16 + 6 + 2) + 2 + 56;
impl WCmd {
    pub fn dec(b: &[u8]) -> WCmd {
        let mut r = Rd(b, 0);
        WCmd {
            id: r.u64(),
            q: r.rs(),
            dq: r.rs(),
            pose: r.rs(),
            vel: r.rs(),
            elbow: r.rs(),
            valid_elbow: r.u8(),
            finished: r.u8(),
            tau: r.rs(),
        }
    }
    pub fn reals(&self) -> Vec<R> {
        let mut v = vec![];
        v.extend(self.q);
        v.extend(self.dq);
        v.extend(self.pose);
        v.extend(self.vel);
        v.extend(self.elbow);
        v.extend(self.tau);
        v
    }
}

#[derive(Clone, Debug)]
pub struct Req {
    pub cmd: u32,
    pub id: u32,
    pub size: u32,
    /// everything after the header
    pub body: Vec<u8>,
    pub total: usize,
}
pub const CONNECT: u32 = 0;
pub const MOVE: u32 = 1;
pub const STOP: u32 = 2;
pub const GETLIMIT: u32 = 3;
pub const COLLISION: u32 = 4;
pub const JIMP: u32 = 5;
pub const CIMP: u32 = 6;
pub const GUIDING: u32 = 7;
pub const EETOK: u32 = 8;
pub const NETOEE: u32 = 9;
pub const LOAD: u32 = 10;
pub const FILTERS: u32 = 11;
pub const RECOVERY: u32 = 12;
pub const LOADLIB: u32 = 13;

pub fn header(cmd: u32, id: u32, size: usize) -> Vec<u8> {
    let mut b = vec![];
    b.extend(cmd.to_le_bytes());
    b.extend(id.to_le_bytes());
    b.extend((size as u32).to_le_bytes());
    b
}
pub fn response(cmd: u32, id: u32, payload: &[u8]) -> Vec<u8> {
    let mut b = header(cmd, id, 12 + payload.len());
    b.extend(payload);
    b
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    /// index into states
    State(usize),
    Cmd(usize),
    Req(usize),
    Callback(usize),
    Resp(u32),
}

/// what the controller reports and does; a test script changes it
pub struct Sim {
    pub reqs: Vec<Req>,
    pub cmds: Vec<WCmd>,
    pub bad_cmds: Vec<usize>,
    pub states: Vec<WState>,
    pub log: Vec<E>,
    pub mg: u8,
    pub cm: u8,
    pub rm: u8,
    pub next_id: U64,
    pub step: u64,
    /// fill the rest of each state with values that must not matter
    pub background: bool,
    seed: Option<u64>,
    /// distances between message ids are arbitrary
    pub gaps: bool,
    pub move_id: Option<u32>,
    /// status of the response to Move, and of the one at the end of the motion
    pub move_first: u8,
    pub move_final: u8,
    pub stop_status: u8,
    pub connect: (u8, u16),
    /// status of every other response
    pub status: u8,
    /// number of further states a finished motion keeps its mode
    pub finish_delay: u32,
    finishing: Option<u32>,
    pub states_left: u32,
    /// changes the k-th state before it is sent
    pub fill: Option<Box<dyn FnMut(usize, &mut WState)>>,
    /// called before the k-th state is made
    pub script: Option<Box<dyn FnMut(&mut Sim, usize)>>,
    /// takes over a request: Some(bytes) is the complete reply
    pub reply: Option<Box<dyn FnMut(&mut Sim, &Req) -> Option<Vec<u8>>>>,
    pub deliver_all: bool,
    pub send_final: bool,
    pub outbox: Vec<Vec<u8>>,
    pub pending_tcp: Vec<u8>,
    /// cut replies into pieces of that many bytes (0 = whole)
    pub chunk: usize,
    /// lengths of the next pieces of the reply stream; afterwards everything at once
    pub cuts: Option<Vec<usize>>,
    /// bytes delivered in such pieces
    pub delivered: usize,
    /// the datagrams that arrive together for the k-th state (by default that state alone)
    pub batch: Option<Box<dyn FnMut(&mut Sim, usize, &WState) -> Vec<Vec<u8>>>>,
    /// datagrams that arrive while the client looks without waiting
    pub peek: Option<Box<dyn FnMut(&mut Sim) -> Vec<Vec<u8>>>>,
    /// datagrams in the socket at that moment
    pub waiting: usize,
    /// sending fails (true: in part) once that many commands were received
    pub fail_send_after: Option<(usize, bool)>,
}
pub type Handle = Rc<RefCell<Sim>>;

impl Sim {
    pub fn new() -> Sim {
        Sim {
            reqs: vec![],
            cmds: vec![],
            bad_cmds: vec![],
            states: vec![],
            log: vec![],
            mg: 0,
            cm: 3,
            rm: 1,
            next_id: U64::lit(1),
            step: 1,
            background: true,
            seed: None,
            gaps: false,
            move_id: None,
            move_first: 1,
            move_final: 0,
            stop_status: 0,
            connect: (0, 5),
            status: 0,
            finish_delay: 0,
            finishing: None,
            states_left: 1000,
            fill: None,
            script: None,
            reply: None,
            deliver_all: true,
            send_final: true,
            outbox: vec![],
            pending_tcp: vec![],
            chunk: 0,
            cuts: None,
            delivered: 0,
            batch: None,
            peek: None,
            waiting: 0,
            fail_send_after: None,
        }
    }
    pub fn respond(&mut self, cmd: u32, id: u32, payload: &[u8]) {
        self.log.push(E::Resp(id));
        self.outbox.push(response(cmd, id, payload));
    }
    fn on_request(&mut self, r: Req) {
        self.log.push(E::Req(self.reqs.len()));
        self.reqs.push(r.clone());
        if let Some(mut f) = self.reply.take() {
            let x = f(self, &r);
            self.reply = Some(f);
            if let Some(b) = x {
                self.outbox.push(b);
                return;
            }
        }
        match r.cmd {
            CONNECT => {
                let mut p = vec![self.connect.0];
                p.extend(self.connect.1.to_le_bytes());
                self.respond(r.cmd, r.id, &p)
            }
            MOVE => {
                let s = self.move_first;
                self.respond(MOVE, r.id, &[s]);
                if s == 1 || s == 0 {
                    let mut b = Rd(&r.body, 0);
                    self.cm = b.u32() as u8;
                    self.mg = b.u32() as u8 + 1;
                    self.rm = 2;
                    self.move_id = Some(r.id);
                }
            }
            STOP => {
                let s = self.stop_status;
                self.respond(STOP, r.id, &[s]);
                if s == 0 {
                    self.idle();
                    if let Some(m) = self.move_id.take() {
                        self.respond(MOVE, m, &[2]);
                    }
                }
            }
            _ => {
                let s = self.status;
                self.respond(r.cmd, r.id, &[s])
            }
        }
    }
    pub fn idle(&mut self) {
        self.mg = 0;
        self.cm = 3;
        self.rm = 1;
    }
    fn on_command(&mut self, b: &[u8]) {
        if b.len() != CMD_BYTES {
            self.bad_cmds.push(b.len());
            return;
        }
        let c = WCmd::dec(b);
        self.log.push(E::Cmd(self.cmds.len()));
        if c.finished != 0 && self.finishing.is_none() && self.mg != 0 {
            self.finishing = Some(self.finish_delay);
        }
        self.cmds.push(c);
    }
    pub fn make_state(&mut self) -> WState {
        let k = self.states.len();
        match self.finishing {
            Some(0) => {
                self.finishing = None;
                self.idle();
                if self.send_final {
                    if let Some(m) = self.move_id.take() {
                        let s = self.move_final;
                        self.respond(MOVE, m, &[s]);
                    }
                }
            }
            Some(n) => self.finishing = Some(n - 1),
            None => {}
        }
        if let Some(mut f) = self.script.take() {
            f(self, k);
            if self.script.is_none() {
                self.script = Some(f);
            }
        }
        let mut s = WState::new(self.next_id);
        s.mg = self.mg;
        s.cm = self.cm;
        s.rm = self.rm;
        if self.background {
            if self.seed.is_none() {
                let x = if is_symbolic() { 0 } else { (real_in("background", 0.0, 1.0).as_const().unwrap() * 1e15) as u64 };
                self.seed = Some(x);
            }
            s.background(k, self.seed.unwrap());
        }
        if let Some(f) = self.fill.as_mut() {
            f(k, &mut s);
        }
        self.next_id = if self.gaps && k >= 2 {
            s.id + U64::from_z(int_in(&format!("gap after state {}", k), 1, 1 << 20))
        } else {
            s.id + U64::lit(self.step)
        };
        self.log.push(E::State(k));
        self.states.push(s.clone());
        s
    }
    fn flush(&mut self, w: &mut World) {
        for b in std::mem::take(&mut self.outbox) {
            self.pending_tcp.extend(b);
        }
        if self.chunk == 0 && self.cuts.is_none() {
            let b = std::mem::take(&mut self.pending_tcp);
            w.deliver_tcp(&b);
        }
    }
    pub fn motion_cmds(&self) -> Vec<WCmd> {
        self.cmds.clone()
    }
}
struct Front(Handle, Vec<u8>);
impl Server for Front {
    fn on_tcp(&mut self, w: &mut World, bytes: &[u8]) {
        self.1.extend(bytes);
        let mut s = self.0.borrow_mut();
        // a request ends where the write ended: the header is checked against that by the contract
        let b = std::mem::take(&mut self.1);
        if b.len() < 12 {
            self.1 = b;
            return;
        }
        let mut r = Rd(&b, 0);
        let (cmd, id, size) = (r.u32(), r.u32(), r.u32());
        if (size as usize) > b.len() && size < 4096 {
            self.1 = b;
            return;
        }
        s.on_request(Req { cmd, id, size, body: b[12..].to_vec(), total: b.len() });
        s.flush(w);
    }
    fn on_udp(&mut self, w: &mut World, bytes: &[u8], _to: SocketAddr) {
        let mut s = self.0.borrow_mut();
        s.on_command(bytes);
        match s.fail_send_after {
            Some((n, true)) if s.cmds.len() >= n => w.udp_send_cap = Some(10),
            Some((n, false)) if s.cmds.len() >= n => w.udp_send_fails = true,
            _ => (),
        }
    }
    fn on_poll(&mut self, w: &mut World, k: Kind) {
        let mut s = self.0.borrow_mut();
        match k {
            Kind::Udp => {
                if s.states_left > 0 {
                    s.states_left -= 1;
                    let st = s.make_state();
                    let k = s.states.len() - 1;
                    match s.batch.take() {
                        Some(mut f) => {
                            for d in f(&mut s, k, &st) {
                                w.deliver_udp(d);
                            }
                            s.batch = Some(f);
                        }
                        None => w.deliver_udp(st.enc()),
                    }
                    s.flush(w);
                }
            }
            Kind::Tcp if s.cuts.is_some() => {
                let c = s.cuts.as_mut().unwrap();
                let n = if c.is_empty() { usize::MAX } else { c.remove(0) };
                let n = n.min(s.pending_tcp.len());
                s.delivered += n;
                symrt::snap::mark(s.delivered);
                let rest = s.pending_tcp.split_off(n);
                let b = std::mem::replace(&mut s.pending_tcp, rest);
                w.deliver_tcp(&b);
            }
            Kind::Tcp => {
                if s.chunk > 0 && !s.pending_tcp.is_empty() {
                    let n = s.chunk.min(s.pending_tcp.len());
                    let rest = s.pending_tcp.split_off(n);
                    let b = std::mem::replace(&mut s.pending_tcp, rest);
                    w.deliver_tcp(&b);
                }
            }
        }
    }
    fn on_udp_peek(&mut self, w: &mut World) {
        let mut s = self.0.borrow_mut();
        s.waiting = w.udp.len();
        if let Some(mut f) = s.peek.take() {
            for d in f(&mut s) {
                w.deliver_udp(d);
            }
            s.peek = Some(f);
        }
    }
}
impl Sim {
    /// the first motion is over, whatever was planned for its end
    pub fn after(mut self) -> Sim {
        self.finishing = None;
        self
    }
    /// nothing is planned any more
    pub fn calm(&mut self) {
        self.finishing = None;
        self.idle();
    }
    /// a state that is not part of the regular sequence
    pub fn stray(&self, id: U64) -> WState {
        let mut s = WState::new(id);
        s.mg = self.mg;
        s.cm = self.cm;
        s.rm = self.rm;
        s
    }
}
/// fresh world with a scripted controller in it
pub fn install(sim: Sim) -> Handle {
    env::reset_world();
    let h = Rc::new(RefCell::new(sim));
    let f = Front(h.clone(), vec![]);
    env::world(|w| w.server = Some(Box::new(f)));
    h
}
pub use franka::robot::control_types::RealtimeConfig;
pub use franka::Robot;
pub fn connect() -> Robot {
    match Robot::new("10.11.12.13", RealtimeConfig::Ignore, None) {
        Ok(r) => r,
        Err(e) => panic!("connection failed: {}", e),
    }
}
/// identity of values that only pass through
pub fn same(a: &[R], b: &[R]) -> B {
    B::c(a.len() == b.len()).and(B::all(a.iter().zip(b).map(|(x, y)| {
        if x.same(*y) {
            B::T
        } else {
            x.eq_b(*y)
        }
    })))
}
pub fn zero(a: &[R]) -> B {
    B::all(a.iter().map(|x| x.eq_b(0.0)))
}
