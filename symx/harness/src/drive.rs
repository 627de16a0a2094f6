//! Runs every control entry point of the library through one scripted controller.
use crate::common::*;
use crate::srv::*;
use franka::robot::control_types::*;
use franka::robot::robot_state::RobotState;
use franka::exception::FrankaResult;

/// motion interface
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum M {
    Q,
    Dq,
    Pose,
    Vel,
    /// torques only
    None,
}
pub const MOTIONS: [M; 4] = [M::Q, M::Dq, M::Pose, M::Vel];
/// output of a motion callback in a common shape
#[derive(Clone)]
pub struct Out {
    pub q: [R; 7],
    pub dq: [R; 7],
    pub pose: [R; 16],
    pub vel: [R; 6],
    pub elbow: Option<[R; 2]>,
    pub fin: bool,
}
impl Out {
    pub fn zero() -> Out {
        Out {
            q: [l(0.0); 7],
            dq: [l(0.0); 7],
            pose: pose([l(0.0); 3]),
            vel: [l(0.0); 6],
            elbow: None,
            fin: false,
        }
    }
}
#[derive(Clone)]
pub struct Tau {
    pub tau: [R; 7],
    pub fin: bool,
}
pub struct Opt {
    pub limit: Option<bool>,
    pub cutoff: Option<R>,
    pub mode: Option<ControllerMode>,
}
impl Opt {
    pub fn raw() -> Opt {
        Opt { limit: Some(false), cutoff: Some(l(1000.0)), mode: None }
    }
    pub fn new(limit: Option<bool>, cutoff: Option<R>) -> Opt {
        Opt { limit, cutoff, mode: None }
    }
}
fn fin<T: Finishable + Copy>(x: T, f: bool) -> T {
    if f {
        x.motion_finished()
    } else {
        x
    }
}
/// Place of the output under scrutiny in its motion: how many cycles come before and after it.
pub fn place() -> (usize, usize) {
    [(0, 0), (1, 1), (0, 1)][choose(3, "cycles before and after") as usize]
}
/// the same, tied to other choices where every combination would cost too much
pub fn place_for(case: usize) -> (usize, usize) {
    if is_symbolic() {
        [(1, 1), (0, 1), (0, 0)][case % 3]
    } else {
        place()
    }
}
/// a motion with these outputs, the last of which ends it
pub fn play(r: &mut Robot, m: M, o: Opt, outs: Vec<Out>, torque: bool) -> FrankaResult<()> {
    let n = outs.len();
    let mut k = 0;
    let f = move |_: &RobotState, _: &Duration| {
        let mut o = outs[k.min(n - 1)].clone();
        k += 1;
        o.fin = k >= n;
        o
    };
    if torque {
        control_t(r, m, o, f, |_, _| Tau { tau: [l(0.0); 7], fin: false })
    } else {
        control(r, m, o, f)
    }
}
/// motion without torques
pub fn control(
    r: &mut Robot,
    m: M,
    o: Opt,
    mut f: impl FnMut(&RobotState, &Duration) -> Out,
) -> FrankaResult<()> {
    match m {
        M::Q => r.control_joint_positions(
            |s: &RobotState, d: &Duration| {
                let o = f(s, d);
                fin(JointPositions::new(o.q), o.fin)
            },
            o.mode,
            o.limit,
            o.cutoff,
        ),
        M::Dq => r.control_joint_velocities(
            |s: &RobotState, d: &Duration| {
                let o = f(s, d);
                fin(JointVelocities::new(o.dq), o.fin)
            },
            o.mode,
            o.limit,
            o.cutoff,
        ),
        M::Pose => r.control_cartesian_pose(
            |s: &RobotState, d: &Duration| {
                let o = f(s, d);
                fin(CartesianPose::new(o.pose, o.elbow), o.fin)
            },
            o.mode,
            o.limit,
            o.cutoff,
        ),
        M::Vel => r.control_cartesian_velocities(
            |s: &RobotState, d: &Duration| {
                let o = f(s, d);
                fin(CartesianVelocities::new(o.vel, o.elbow), o.fin)
            },
            o.mode,
            o.limit,
            o.cutoff,
        ),
        M::None => unreachable!(),
    }
}
/// motion with torques (or torques alone)
pub fn control_t(
    r: &mut Robot,
    m: M,
    o: Opt,
    mut f: impl FnMut(&RobotState, &Duration) -> Out,
    mut t: impl FnMut(&RobotState, &Duration) -> Tau,
) -> FrankaResult<()> {
    let tq = |s: &RobotState, d: &Duration| {
        let x = t(s, d);
        fin(Torques::new(x.tau), x.fin)
    };
    match m {
        M::Q => r.control_torques_and_joint_positions(
            tq,
            |s: &RobotState, d: &Duration| {
                let o = f(s, d);
                fin(JointPositions::new(o.q), o.fin)
            },
            o.limit,
            o.cutoff,
        ),
        M::Dq => r.control_torques_and_joint_velocities(
            tq,
            |s: &RobotState, d: &Duration| {
                let o = f(s, d);
                fin(JointVelocities::new(o.dq), o.fin)
            },
            o.limit,
            o.cutoff,
        ),
        M::Pose => r.control_torques_and_cartesian_pose(
            tq,
            |s: &RobotState, d: &Duration| {
                let o = f(s, d);
                fin(CartesianPose::new(o.pose, o.elbow), o.fin)
            },
            o.limit,
            o.cutoff,
        ),
        M::Vel => r.control_torques_and_cartesian_velocities(
            tq,
            |s: &RobotState, d: &Duration| {
                let o = f(s, d);
                fin(CartesianVelocities::new(o.vel, o.elbow), o.fin)
            },
            o.limit,
            o.cutoff,
        ),
        M::None => r.control_torques(tq, o.limit, o.cutoff),
    }
}
/// sampled gain of the first order low pass at 1 kHz
pub fn gain(fc: R) -> R {
    l(DT) / (l(DT) + l(1.0) / (l(2.0 * std::f64::consts::PI) * fc))
}
pub fn clamp(x: R, lo: R, hi: R) -> R {
    let a = R::ite(x.le_b(hi), x, hi);
    R::ite(a.ge_b(lo), a, lo)
}
/// published limits of the arm: (velocity, acceleration, jerk) per joint
pub const JOINT_LIMITS: [(f64, f64, f64); 7] = [
    (2.1750, 15.0, 7500.0),
    (2.1750, 7.5, 3750.0),
    (2.1750, 10.0, 5000.0),
    (2.1750, 12.5, 6250.0),
    (2.6100, 15.0, 7500.0),
    (2.6100, 20.0, 10000.0),
    (2.6100, 20.0, 10000.0),
];
pub const ELBOW_LIMITS: (f64, f64, f64) = (2.1750, 10.0, 5000.0);
pub const TRANS_LIMITS: (f64, f64, f64) = (2.0, 13.0, 6500.0);
pub const ROT_LIMITS: (f64, f64, f64) = (2.5, 25.0, 12500.0);
pub const TORQUE_RATE: f64 = 1000.0;
pub type M3 = [[f64; 3]; 3];
/// rotation about an axis
pub fn rot(ax: [f64; 3], ang: f64) -> M3 {
    let n = (ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]).sqrt();
    let a = ax.map(|x| x / n);
    let (s, c) = (ang.sin(), ang.cos());
    let k = [[0.0, -a[2], a[1]], [a[2], 0.0, -a[0]], [-a[1], a[0], 0.0]];
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let d = if i == j { 1.0 } else { 0.0 };
            r[i][j] = d * c + (1.0 - c) * a[i] * a[j] + s * k[i][j];
        }
    }
    r
}
/// the 24 orientations along the coordinate axes, among them the half turns
pub fn aligned(k: u32) -> M3 {
    let mut n = 0;
    for p in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        for s in 0..8 {
            let mut m = [[0.0; 3]; 3];
            for i in 0..3 {
                m[i][p[i]] = if s >> i & 1 == 1 { -1.0 } else { 1.0 };
            }
            if det(&m) > 0.0 {
                if n == k {
                    return m;
                }
                n += 1;
            }
        }
    }
    unreachable!()
}
pub fn det(m: &M3) -> f64 {
    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
}
pub fn mul(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    r
}
pub fn homog(r: &M3, t: [f64; 3]) -> [R; 16] {
    std::array::from_fn(|i| {
        let (c, row) = (i / 4, i % 4);
        l(match (row, c) {
            (3, 3) => 1.0,
            (3, _) => 0.0,
            (_, 3) => t[row],
            _ => r[row][c],
        })
    })
}
/// one cycle of a long motion
pub struct Cycle {
    pub out: Out,
    pub tau: Tau,
    /// what the robot had reported, what was sent
    pub state: WState,
    pub cmd: WCmd,
}
/// A long motion at the end of an eventful session, on concrete values: earlier motions of other
/// interfaces and with other options went well or failed. Returns every cycle of the last motion.
/// (A bounded stand-in: what depends on counters, times and earlier motions shows here.)
pub fn long_motion(
    m: M,
    torque: bool,
    opt: Opt,
    n: usize,
    mut fill: impl FnMut(usize, &mut WState) + 'static,
    mut out: impl FnMut(usize, &WState) -> Out,
    mut tau: impl FnMut(usize, &WState) -> Tau,
) -> Vec<Cycle> {
    use std::cell::{Cell, RefCell};
    use std::rc::Rc;
    let mut sim = Sim::new();
    sim.states_left = u32::MAX;
    sim.next_id = U64::lit([1, 1000, 4294960000, 1 << 40][choose(4, "first id") as usize]);
    let from = Rc::new(Cell::new(usize::MAX));
    let f2 = from.clone();
    let odd = flag("losses");
    sim.fill = Some(Box::new(move |k, s| {
        if odd && k % 7 == 3 {
            s.id = s.id + U64::lit(1 + (k % 50) as u64);
        }
        if k >= f2.get() {
            fill(k - f2.get(), s)
        }
    }));
    let hd = install(sim);
    let mut r = connect();
    // what came before
    for e in 0..choose(4, "earlier motions") {
        let em = [M::Q, M::Dq, M::Pose, M::Vel, M::None][choose(5, "earlier interface") as usize];
        let et = em == M::None || flag("earlier torques");
        let eo = Opt::new([None, Some(true), Some(false)][choose(3, "earlier limit") as usize], [None, Some(l(1000.0)), Some(l(10.0))][choose(3, "earlier cutoff") as usize]);
        let fails = flag("earlier motion fails");
        let len = 1 + choose(5, "earlier cycles") as usize;
        if fails {
            let mut s = hd.borrow_mut();
            let at = s.states.len() + 2 + len;
            s.script = Some(Box::new(move |s, k| {
                if k == at {
                    s.idle();
                    if let Some(id) = s.move_id.take() {
                        s.respond(MOVE, id, &[6]);
                    }
                }
            }));
        }
        let k = Cell::new(0);
        let mut last = Out::zero();
        last.q = [l(0.001); 7];
        last.elbow = Some([l(0.0), l(1.0)]);
        let f = |_: &RobotState, _: &Duration| {
            k.set(k.get() + 1);
            let mut o = last.clone();
            o.fin = !et && !fails && k.get() >= len;
            o
        };
        let kt = Cell::new(0);
        let t = |_: &RobotState, _: &Duration| {
            kt.set(kt.get() + 1);
            Tau { tau: [l(0.5); 7], fin: !fails && kt.get() >= len }
        };
        let res = if et { control_t(&mut r, em, eo, f, t) } else { control(&mut r, em, eo, f) };
        check("earlier-motion", res.is_ok() == !fails);
        let mut s = hd.borrow_mut();
        s.script = None;
        s.calm();
        let _ = e;
    }
    let (c0, s0) = (hd.borrow().cmds.len(), hd.borrow().states.len());
    // the first state of the motion announces it
    from.set(s0 + 1);
    let outs: Rc<RefCell<Vec<(Out, usize)>>> = Rc::new(RefCell::new(vec![]));
    let taus: Rc<RefCell<Vec<Tau>>> = Rc::new(RefCell::new(vec![]));
    let (o2, t2, h2, h3) = (outs.clone(), taus.clone(), hd.clone(), hd.clone());
    let state = |h: &Handle| {
        let s = h.borrow();
        (s.states.len() - 1, s.states.last().unwrap().clone())
    };
    let f = move |_: &RobotState, _: &Duration| {
        let (i, s) = state(&h2);
        let k = o2.borrow().len();
        let mut o = out(k, &s);
        o.fin = k + 1 == n && !torque;
        o2.borrow_mut().push((o.clone(), i));
        o
    };
    let o3 = outs.clone();
    let t = move |_: &RobotState, _: &Duration| {
        let (i, s) = state(&h3);
        let k = t2.borrow().len();
        let mut t = tau(k, &s);
        t.fin = k + 1 == n;
        t2.borrow_mut().push(t.clone());
        if m == M::None {
            o3.borrow_mut().push((Out::zero(), i));
        }
        t
    };
    let res = if torque { control_t(&mut r, m, opt, f, t) } else { control(&mut r, m, opt, f) };
    check("motion-ends-well", res.is_ok());
    let s = hd.borrow();
    check("one-command-per-cycle", s.cmds.len() == c0 + n && outs.borrow().len() == n);
    let v = outs
        .borrow()
        .iter()
        .enumerate()
        .take(s.cmds.len() - c0)
        .map(|(k, (o, i))| Cycle {
            out: o.clone(),
            tau: taus.borrow().get(k).cloned().unwrap_or(Tau { tau: [l(0.0); 7], fin: false }),
            state: s.states[*i].clone(),
            cmd: s.cmds[c0 + k].clone(),
        })
        .collect();
    v
}
/// cheap numbers for long runs, all from one drawn seed
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new() -> Rng {
        Rng(choose(1 << 30, "seed") as u64)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn f(&mut self, b: f64) -> f64 {
        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0;
        match self.next() % 8 {
            0 => 0.0,
            1 => b * u.signum(),
            2 => b * u * 1e-3,
            _ => b * u,
        }
    }
    pub fn arr<const N: usize>(&mut self, b: f64) -> [R; N] {
        std::array::from_fn(|_| l(self.f(b)))
    }
    pub fn flag(&mut self) -> bool {
        self.next() % 2 == 0
    }
}
pub fn long_options(limit: &[Option<bool>]) -> (Opt, Option<R>) {
    let li = limit[choose(limit.len() as u32, "limit_rate given") as usize];
    match choose(3, "cutoff") {
        0 => (Opt::new(li, None), Some(gain(l(100.0)))),
        1 => (Opt::new(li, Some(l(1000.0))), None),
        _ => (Opt::new(li, Some(l(17.0))), Some(gain(l(17.0)))),
    }
}
/// cycles of a long motion
pub fn long_length() -> usize {
    [3, 12, 70, 300, 2500][choose(5, "cycles") as usize]
}
pub const LONG: &str = "concrete runs: up to 2500 cycles after up to 3 earlier motions";
