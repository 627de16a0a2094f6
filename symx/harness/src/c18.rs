//! Point-to-point joint motions: from where the robot is to the goal, smoothly and in time.
use crate::common::*;
use crate::drive::*;
use crate::srv::*;
use franka::robot::control_types::Finishable;
use franka::robot::robot_state::RobotState;
use franka::utils::MotionGenerator;

pub fn all() -> Vec<H> {
    vec![
        h("first_output", "MotionGenerator::new, MotionGenerator::generate_motion, MotionGenerator::calculate_synchronized_values, MotionGenerator::calculate_desired_values", first),
        h("curve", "MotionGenerator::generate_motion, MotionGenerator::calculate_synchronized_values, MotionGenerator::calculate_desired_values", curve)
            .samples(20000)
            .bound("concrete runs: random start, goal, speed and times against an independent formula"),
        h("all_times", "MotionGenerator::generate_motion, MotionGenerator::calculate_synchronized_values, MotionGenerator::calculate_desired_values", all_times)
            .bound("eight motions at two speeds; any time of each"),
        h("limits", "MotionGenerator::generate_motion", limits_kept)
            .samples(400)
            .bound("concrete runs: whole motions in steps of 1 ms, at most 2000 steps inspected"),
        h("joint_motion", "Robot::joint_motion, MotionGenerator::generate_motion, Robot::control_joint_positions", session)
            .samples(40)
            .bound("concrete runs of whole motions of at most 1.5 s"),
    ]
}
const VMAX: [f64; 7] = [2.0, 2.0, 2.0, 2.0, 2.5, 2.5, 2.5];
const AMAX: f64 = 5.0;
fn at(q: [R; 7]) -> RobotState {
    let mut s = RobotState::default();
    s.q_d = q;
    s
}
fn zero_step() -> Duration {
    Duration::from_secs(0u64)
}
fn first() {
    let i = choose(7, "joint") as usize;
    let speed = l([0.05, 0.3, 1.0][choose(3, "speed") as usize]);
    let start: [R; 7] = reals("start", -3.0, 3.0);
    let mut goal = start;
    goal[i] = real_in("goal", -3.0, 3.0);
    let mut g = MotionGenerator::new(speed, &goal);
    let out = g.generate_motion(&at(start), &zero_step());
    check("starts-where-the-robot-is", B::all((0..7).map(|j| out.q[j].within(start[j], 1.001e-6))));
    let d = goal[i] - start[i];
    let near = d.le_b(l(1e-6)).and(d.ge_b(l(-1e-6)));
    let close = d.lt_b(l(1e-6)).and(d.gt_b(l(-1e-6)));
    check("not-finished-unless-there", B::c(!out.is_finished()).or(near));
    check("finished-if-there", B::c(out.is_finished()).or(close.not()));
    cover("first");
}

/// duration of the synchronized motion, and peak speed and sign per joint
struct Plan {
    tf: f64,
    joints: [Option<(f64, f64)>; 7],
}
fn plan(s: f64, d: &[f64; 7]) -> Plan {
    let a = AMAX * s;
    let mut tf: f64 = 0.0;
    for i in 0..7 {
        let x = d[i].abs();
        if x < 1e-6 {
            continue;
        }
        // a ramp takes 1.5 v / a and covers half of what full speed would
        let v = (VMAX[i] * s).min((x * a / 1.5).sqrt());
        tf = tf.max(1.5 * v / a + x / v);
    }
    let mut joints = [None; 7];
    for i in 0..7 {
        let x = d[i].abs();
        if x < 1e-6 {
            continue;
        }
        // slowest peak speed with which the distance takes exactly tf: 1.5 v / a + x / v = tf
        let disc = (tf * tf - 6.0 * x / a).max(0.0);
        let v = a * (tf - disc.sqrt()) / 3.0;
        joints[i] = Some((v, d[i].signum()));
    }
    Plan { tf, joints }
}
impl Plan {
    fn at(&self, s: f64, d: &[f64; 7], i: usize, t: f64) -> f64 {
        let (v, sg) = match self.joints[i] {
            None => return 0.0,
            Some(x) => x,
        };
        let t1 = 1.5 * v / (AMAX * s);
        let ramp = |t: f64| {
            let u = t / t1;
            v * t1 * (u.powi(3) - 0.5 * u.powi(4))
        };
        let x = if t >= self.tf {
            d[i].abs()
        } else if t < t1 {
            ramp(t)
        } else if t > self.tf - t1 {
            d[i].abs() - ramp(self.tf - t)
        } else {
            v * (t - t1 / 2.0)
        };
        sg * x
    }
}
impl Plan {
    fn sym(&self, s: f64, d: &[f64; 7], i: usize, t: R) -> R {
        let (v, sg) = match self.joints[i] {
            None => return l(0.0),
            Some(x) => x,
        };
        let t1 = 1.5 * v / (AMAX * s);
        let ramp = |t: R| {
            let u = t / l(t1);
            l(v * t1) * (u * u * u - l(0.5) * u * u * u * u)
        };
        let x = if t >= l(self.tf) {
            l(d[i].abs())
        } else if t < l(t1) {
            ramp(t)
        } else if t > l(self.tf - t1) {
            l(d[i].abs()) - ramp(l(self.tf) - t)
        } else {
            l(v) * (t - l(t1 / 2.0))
        };
        l(sg) * x
    }
}
/// an arbitrary motion: some joints rest, some move a little, some a lot
fn motion() -> (f64, [f64; 7], [f64; 7]) {
    let c = |x: R| x.as_const().unwrap();
    let s = [c(real_in("speed", 0.02, 1.0)), 1.0][choose(2, "full speed") as usize];
    let start: [R; 7] = reals("start", -2.8, 2.8);
    let r: [R; 7] = reals("way", -1.0, 1.0);
    let start = start.map(c);
    let mut goal = start;
    for i in 0..7 {
        goal[i] += c(r[i]) * [0.0, 1e-7, 1e-4, 0.01, 0.3, 5.0][choose(6, "size") as usize];
    }
    (s, start, goal)
}
fn curve() {
    if is_symbolic() {
        cover("concrete only");
        return;
    }
    let (s, start, goal) = motion();
    let d: [f64; 7] = std::array::from_fn(|i| goal[i] - start[i]);
    let p = plan(s, &d);
    let mut g = MotionGenerator::new(l(s), &goal.map(l));
    let mut st = at(start.map(l));
    let mut o = g.generate_motion(&st, &zero_step());
    let mut t = 0.0;
    for k in 0..6 {
        let q = o.q.map(|x| x.as_const().unwrap());
        let resting = p.joints.iter().all(|j| j.is_none());
        for i in 0..7 {
            let w = start[i] + p.at(s, &d, i, t);
            if (q[i] - w).abs() > 1e-6 {
                note(&format!("joint {} at {} s: {} instead of {}", i, t, q[i], w));
            }
            check("on-the-curve", (q[i] - w).abs() < 2e-6);
            let (lo, hi) = (start[i].min(goal[i]), start[i].max(goal[i]));
            check("between-start-and-goal", q[i] > lo - 1e-9 && q[i] < hi + 1e-9);
        }
        if t > p.tf + 1e-6 || resting {
            check("finished-at-the-end", o.is_finished());
        }
        if o.is_finished() {
            check("finished-only-at-the-end", t > p.tf - 1e-6);
            check("ends-at-the-goal", (0..7).all(|i| (q[i] - goal[i]).abs() < 1.1e-6));
            cover("end");
        }
        // what the robot does in between has no influence
        st = at(std::array::from_fn(|i| o.q[i] + l(0.01 * (k + 1) as f64)));
        let step = [0.001, 0.1 * p.tf, 0.37 * p.tf, p.tf, 0.005][choose(5, "step") as usize];
        let step = (step.max(0.001) * 1e9).round() / 1e9;
        t += step;
        o = g.generate_motion(&st, &Duration::from_secs_f64(l(step)));
        cover("step");
    }
}
/// ways of the seven joints, in multiples of what a joint covers before it reaches full speed
const WAYS: [[f64; 7]; 8] = [
    [0.4, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.0, 0.0, 0.0, -2.5, 0.0],
    [1.0, 0.0, 0.0, -1.0, 0.0, 0.0, 0.0],
    [0.3, -0.2, 1e-5, 0.0, 0.999, -0.001, 0.25],
    [3.0, -0.2, 1e-3, 1.7, -0.4, 0.9, -2.0],
    [-1e-3, 0.0, 2e-3, 0.0, -3e-3, 0.0, 4e-3],
    [0.0, 4e-7, 0.0, 0.0, 0.0, 0.0, -1.2],
    [-0.5, -0.5, 0.5, 0.5, -0.5, 0.5, 4.0],
];
/// at any time of a motion
fn all_times() {
    let s = [1.0, 0.13][choose(2, "speed") as usize];
    let w = WAYS[choose(WAYS.len() as u32, "ways") as usize];
    let start = [0.25, -0.7, 0.0, -1.5, 0.1, 1.4, 0.6];
    let goal: [f64; 7] = std::array::from_fn(|i| start[i] + w[i] * 1.5 * VMAX[i] * VMAX[i] * s / AMAX);
    let d: [f64; 7] = std::array::from_fn(|i| goal[i] - start[i]);
    let p = plan(s, &d);
    let mut g = MotionGenerator::new(l(s), &goal.map(l));
    let st = at(start.map(l));
    g.generate_motion(&st, &zero_step());
    let t = real_in("time", 0.001, 2.0 * p.tf + 1.0);
    let i = (0..7).filter(|i| w[*i] != 0.0).nth(choose(7, "joint") as usize);
    let i = match i {
        Some(i) => i,
        None => return,
    };
    let a = g.generate_motion(&st, &Duration::exactly(t));
    let x = a.q[i];
    check("on-the-curve", x.within(p.sym(s, &d, i, t) + l(start[i]), 2e-6));
    let (lo, hi) = (start[i].min(goal[i]), start[i].max(goal[i]));
    check("between-start-and-goal", x.ge_b(l(lo - 1e-9)).and(x.le_b(l(hi + 1e-9))));
    check("finished-at-the-end", B::c(a.is_finished()).or(t.le_b(l(p.tf + 1e-6))));
    check("finished-only-at-the-end", B::c(!a.is_finished()).or(t.ge_b(l(p.tf - 1e-6))));
    cover("times");
}
/// speed, acceleration and continuity in steps of a control loop
fn limits_kept() {
    if is_symbolic() {
        cover("concrete only");
        return;
    }
    let (s, start, goal) = motion();
    let mut g = MotionGenerator::new(l(s), &goal.map(l));
    let st = at(start.map(l));
    let val = |o: &franka::robot::control_types::JointPositions| o.q.map(|x| x.as_const().unwrap());
    let mut o = g.generate_motion(&st, &zero_step());
    let mut q = val(&o);
    let mut dq = [0.0; 7];
    let mut n = 0;
    while !o.is_finished() && n < 2000 {
        o = g.generate_motion(&st, &Duration::from_millis(1u64));
        let x = val(&o);
        for i in 0..7 {
            let v = (x[i] - q[i]) / DT;
            check("speed", v.abs() <= VMAX[i] * s * (1.0 + 1e-6) + 1e-8);
            check("acceleration", ((v - dq[i]) / DT).abs() <= AMAX * s * 1.0001 + 2e-3);
            check("no-return", v * (goal[i] - start[i]) >= -1e-9);
            dq[i] = v;
        }
        q = x;
        n += 1;
    }
    if o.is_finished() {
        cover("finished");
    }
    cover("limits");
}
/// the same through the whole stack
fn session() {
    if is_symbolic() {
        cover("concrete only");
        return;
    }
    let c = |x: R| x.as_const().unwrap();
    let s = c(real_in("speed", 0.2, 1.0));
    let start = reals::<7>("start", -1.0, 1.0).map(c);
    let r = reals::<7>("way", -0.25, 0.25).map(c);
    let goal: [f64; 7] = std::array::from_fn(|i| start[i] + r[i] * s);
    let d: [f64; 7] = std::array::from_fn(|i| goal[i] - start[i]);
    let p = plan(s, &d);
    let mut sim = Sim::new();
    sim.states_left = 4000;
    // an ideal arm: commanded values are reached
    let mut q = start;
    let mut dq = [0.0; 7];
    let mut ddq = [0.0; 7];
    let mut seen = 0;
    sim.script = Some(Box::new(move |s, _| {
        while seen < s.cmds.len() {
            let n = s.cmds[seen].q.map(|x| x.as_const().unwrap());
            for i in 0..7 {
                let v = (n[i] - q[i]) / DT;
                ddq[i] = (v - dq[i]) / DT;
                dq[i] = v;
                q[i] = n[i];
            }
            seen += 1;
        }
        let (a, b, e) = (q, dq, ddq);
        s.fill = Some(Box::new(move |_, w| {
            w.set("q_d", &a.map(l));
            w.set("dq_d", &b.map(l));
            w.set("ddq_d", &e.map(l));
        }));
    }));
    let hd = install(sim);
    let mut r = connect();
    let res = r.joint_motion(l(s), &goal.map(l));
    if let Err(e) = &res {
        note(&format!("{}", e));
    }
    check("ends-well", res.is_ok());
    let h = hd.borrow();
    let mv: Vec<&Req> = h.reqs.iter().filter(|q| q.cmd == MOVE).collect();
    check("one-motion", mv.len() == 1);
    let mut b = Rd(&mv[0].body, 0);
    check("joint-impedance", b.u32() == 0);
    check("joint-positions", b.u32() == 0);
    for (k, x) in h.cmds.iter().enumerate() {
        let t = k as f64 * DT;
        for i in 0..7 {
            let w = start[i] + p.at(s, &d, i, t);
            if (c(x.q[i]) - w).abs() > 1e-6 {
                note(&format!("joint {} in cycle {}: {} instead of {}", i, k, c(x.q[i]), w));
            }
            check("follows-the-curve", (c(x.q[i]) - w).abs() < 1e-5);
        }
    }
    let last = h.cmds.last().unwrap();
    check("at-the-goal", (0..7).all(|i| (c(last.q[i]) - goal[i]).abs() < 1e-5));
    check("finished-command", last.finished == 1);
    let n = (p.tf / DT).ceil() as usize;
    check("duration", h.cmds.len() >= n && h.cmds.len() <= n + 4);
    cover("session");
}
