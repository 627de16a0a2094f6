//! Induction certificates. Each of these contracts runs two histories side by side and proves that
//! the complete state of the program at a loop head (all variables in scope, everything reachable
//! from them) is the same after both: what happened longer ago leaves no trace. By induction over
//! the number of iterations the contracts that enumerate the first iterations of that loop then
//! hold for every iteration. An obligation that fails here is not a violation: it only means that
//! the induction is not established and the contracts it supports stay bounded.
use crate::common::*;
use crate::drive::*;
use crate::srv::*;
use franka::robot::robot_state::RobotState;
use std::cell::Cell;
use std::rc::Rc;
use symrt::snap::{self, Head};

/// contents of a robot state, every number symbolic
#[derive(Clone)]
struct St {
    id: U64,
    f: Vec<R>,
    rate: R,
    err: bool,
}
fn st(name: &str, id: U64, err: bool) -> St {
    let mut w = WState::new(id);
    for (n, k) in FIELDS.iter() {
        if n.starts_with("m_") {
            continue;
        }
        if *k == 16 {
            w.set(n, &pose(reals(&format!("{}.{}", name, n), -1.0, 1.0)));
        } else {
            let v: Vec<R> = (0..*k).map(|i| real_in(&format!("{}.{}{}", name, n, i), -1.0, 1.0)).collect();
            w.set(n, &v);
        }
    }
    // total mass positive: one case of the conversion instead of several
    w.set("m_ee", &[real_in(&format!("{}.m_ee", name), 0.1, 5.0)]);
    w.set("m_load", &[real_in(&format!("{}.m_load", name), 0.1, 5.0)]);
    St { id, f: w.f, rate: real_in(&format!("{}.rate", name), 0.0, 1.0), err }
}
fn put(s: &mut WState, x: &St) {
    s.id = x.id;
    s.f = x.f.clone();
    s.rate = x.rate;
    s.err = [x.err; 41];
    s.refl = [!x.err; 41];
}
/// increasing message ids with arbitrary gaps
fn ids(n: usize) -> Vec<U64> {
    let mut id = U64::from_z(int_in("first id", 1, 1 << 40));
    let mut v = vec![id];
    for k in 1..n {
        id = id + U64::from_z(int_in(&format!("gap{}", k), 1, 1 << 20));
        v.push(id);
    }
    v
}
fn interface() -> (M, bool) {
    let m = [M::None, M::Q, M::Dq, M::Pose, M::Vel][choose(5, "interface") as usize];
    (m, m == M::None || flag("with torques"))
}
fn output(k: usize, m: M, lit: bool) -> (Out, [R; 7]) {
    let name = &format!("o{}", k);
    let mut o = Out::zero();
    if !lit {
        match m {
            M::Q => o.q = reals(&format!("{}.q", name), -2.0, 2.0),
            M::Dq => o.dq = reals(&format!("{}.dq", name), -2.0, 2.0),
            M::Pose => o.pose = pose(reals(&format!("{}.p", name), -1.0, 1.0)),
            M::Vel => o.vel = reals(&format!("{}.v", name), -2.0, 2.0),
            M::None => {}
        }
    }
    if matches!(m, M::Pose | M::Vel) && if k < 2 { flag(&format!("{} elbow", name)) } else { k % 2 == 0 } {
        o.elbow = Some([l(0.25), l(1.0)]);
    }
    (o, if lit { [l(0.0); 7] } else { reals(&format!("{}.tau", name), -2.0, 2.0) })
}
fn new_robot(log: usize) -> Robot {
    match Robot::new("10.11.12.13", RealtimeConfig::Ignore, Some(log)) {
        Ok(r) => r,
        Err(e) => panic!("connection failed: {}", e),
    }
}
fn compare(what: &str, a: Option<&Head>, b: Option<&Head>) {
    let (a, b) = match (a, b) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            check(&format!("induct:{}:no-picture", what), false);
            return;
        }
    };
    check(&format!("induct:{}:same-place", what), a.site == b.site);
    match snap::same(&a.vars, &b.vars, |_| false) {
        Ok(x) => {
            check(&format!("induct:{}:same-state", what), x);
            cover("compared");
        }
        Err(e) => {
            if std::env::var("SYMX_SHOW").is_ok() {
                eprintln!("{}: {} {}", what, a.site, e);
            }
            check(&format!("induct:{}:same-state", what), false)
        }
    }
}
/// runs a motion whose states from the third on are `hist`; the output to the last of them ends
/// it. Returns the pictures and how many there were before the callback saw the last of them.
fn motion(
    m: M,
    torque: bool,
    log: usize,
    opt: Opt,
    pre: [St; 2],
    hist: Vec<St>,
    outs: Vec<(Out, [R; 7])>,
) -> (Vec<Head>, usize) {
    let n = outs.len();
    let mut sim = Sim::new();
    sim.fill = Some(Box::new(move |k, s| match k {
        0 | 1 => put(s, &pre[k]),
        k if k - 2 < hist.len() => put(s, &hist[k - 2]),
        _ => {}
    }));
    let _hd = install(sim);
    let mut r = new_robot(log);
    let at: Rc<Cell<Option<usize>>> = Rc::new(Cell::new(None));
    let note = |k: usize| {
        if k + 1 == n && at.get().is_none() {
            at.set(Some(snap::seen()));
        }
    };
    let (km, kt) = (Cell::new(0), Cell::new(0));
    let mo = |_: &RobotState, _: &Duration| {
        let k = km.replace(km.get() + 1);
        note(k);
        let mut o = outs[k.min(n - 1)].0.clone();
        o.fin = !torque && k + 1 >= n;
        o
    };
    let to = |_: &RobotState, _: &Duration| {
        let k = kt.replace(kt.get() + 1);
        note(k);
        Tau { tau: outs[k.min(n - 1)].1, fin: k + 1 >= n }
    };
    snap::record();
    let res = if torque { control_t(&mut r, m, opt, mo, to) } else { control(&mut r, m, opt, mo) };
    let heads = snap::recorded();
    check("induct:ends-well", res.is_ok() && at.get().is_some());
    (heads, at.get().unwrap_or(0))
}
fn option(p: u32) -> Opt {
    match p {
        0 => Opt::raw(),
        1 => Opt::new(Some(false), Some(l(100.0))),
        _ => Opt::new(Some(true), Some(l(1000.0))),
    }
}
/// control loop: the state when the callbacks are called depends on the last two robot states and
/// the last outputs only (and, through the log, on the last `log` of them)
fn control_loop_with(log: usize, p: u32) {
    let (m, torque) = interface();
    let n = log.max(1) + 1;
    let id = ids(3 + n);
    let base = [st("c", id[0], false), st("p", id[1], true)];
    let lit = p == 2;
    // (x, s1 .. sn) and (s1 .. sn)
    let all: Vec<St> = (0..n + 1)
        .map(|k| if lit { St { f: WState::new(id[2 + k]).f, ..st_lit(id[2 + k], k % 2 == 0) } } else { st(&format!("s{}", k), id[2 + k], k % 2 == 0) })
        .collect();
    let outs: Vec<(Out, [R; 7])> = (0..n + 1).map(|k| output(k, m, lit)).collect();
    let a = motion(m, torque, log, option(p), base.clone(), all.clone(), outs.clone());
    let b = motion(m, torque, log, option(p), base, all[1..].to_vec(), outs[1..].to_vec());
    compare("control-loop", a.0[..a.1].last(), b.0[..b.1].last());
}
fn st_lit(id: U64, err: bool) -> St {
    St { id, f: vec![], rate: l(0.5), err }
}
pub fn control_loop() {
    let log = choose(2, "log size") as usize;
    let p = choose(3, "processing");
    control_loop_with(log, p);
}
/// the same for larger logs
pub fn control_loop_log() {
    let log = [2usize, 3, 5, 7][choose(4, "log size") as usize];
    control_loop_with(log, 0);
}
/// and for the default size
pub fn control_loop_log50() {
    control_loop_with(50, 0);
}
/// Loops that wait for the modes to change: start, finish and cancel of a motion. The states of the
/// phase are x, s1 .. (modes chosen freely as long as the wait goes on) and a last one that ends
/// it; the second history lacks x.
fn waiting(fun: &'static str, what: u32, sizes: &[usize]) {
    let (m, torque) = interface();
    // what is compared needs this many states after x
    let size = if sizes.is_empty() { None } else { Some(sizes[choose(sizes.len() as u32, "log size") as usize]) };
    let memory = if what == 1 { 2.max(size.map_or(0, |n| n + 1)) } else { 1 };
    let free = memory + 1;
    // with a larger log the states are those that keep waiting
    let part: Vec<u32> = (0..free).map(|k| if size.is_some() { 0 } else { choose(3, &format!("modes{}", k)) }).collect();
    let log = match size {
        Some(n) => n,
        None if part.iter().all(|p| *p == 0) => choose(2, "log size") as usize,
        None => 1,
    };
    let mg = match m {
        M::Q => 1,
        M::Dq | M::None => 2,
        M::Pose => 3,
        M::Vel => 4,
    };
    let cm = if torque { 2 } else { 0 };
    // finishing with the impedance controllers only the motion generator counts
    let wait = move |p: u32| match what {
        0 => [(0, 3), (mg, 3), (0, cm)][p as usize],
        _ if torque => [(mg, cm), (mg, 3), (0, cm)][p as usize],
        _ => [(mg, cm), (mg, 3), (mg, 1)][p as usize],
    };
    let end = if what == 0 { (mg, cm) } else { (0, 3) };
    let before = if what == 0 { 1 } else { 3 };
    let total = before + free + 3;
    let id = ids(total);
    let s: Vec<St> = (0..total).map(|k| st(&format!("s{}", k), id[k], k % 2 == 1)).collect();
    let run = |extra: bool| {
        let mut sts = s.clone();
        let mut phase: Vec<(u8, u8)> = part.iter().map(|p| wait(*p)).collect();
        if !extra {
            sts.remove(before);
            phase.remove(0);
        }
        phase.push(end);
        let mut sim = Sim::new();
        sim.send_final = false;
        sim.fill = Some(Box::new(move |k, w| {
            if k < sts.len() {
                put(w, &sts[k])
            }
        }));
        sim.script = Some(Box::new(move |s, k| {
            if what == 2 && k == 2 {
                // the motion fails in its first cycle
                s.rm = 4;
                if let Some(id) = s.move_id.take() {
                    s.respond(MOVE, id, &[6]);
                }
            }
            if k >= before && k < before + phase.len() {
                let p = phase[k - before];
                s.mg = p.0;
                s.cm = p.1;
                s.rm = if what == 0 && p != end { 1 } else { 2 };
                if what == 1 && p == end {
                    if let Some(id) = s.move_id.take() {
                        s.respond(MOVE, id, &[0]);
                    }
                }
            }
            if what == 0 && k >= before + phase.len() + 1 {
                s.idle();
                if let Some(id) = s.move_id.take() {
                    s.respond(MOVE, id, &[0]);
                }
            }
        }));
        let _hd = install(sim);
        let mut r = new_robot(log);
        let fin = |t: bool| t == torque;
        let mo = |_: &RobotState, _: &Duration| {
            let mut o = Out::zero();
            o.fin = fin(false);
            o
        };
        let to = |_: &RobotState, _: &Duration| Tau { tau: [l(0.0); 7], fin: fin(true) };
        snap::record();
        let res = if torque { control_t(&mut r, m, Opt::raw(), mo, to) } else { control(&mut r, m, Opt::raw(), mo) };
        let h: Vec<Head> = snap::recorded().into_iter().filter(|h| h.site.contains(&format!("#{}#", fun))).collect();
        check("induct:outcome", res.is_ok() == (what != 2));
        h
    };
    let (a, b) = (run(true), run(false));
    // before the first, after each state of the phase
    check(&format!("induct:{}:iterations", fun), a.len() == b.len() + 1 && b.len() >= free);
    for k in 0..2 {
        let at = |h: &[Head]| h.len().checked_sub(k + 1);
        compare(fun, at(&a).map(|i| &a[i]), at(&b).map(|i| &b[i]));
    }
}
pub fn start() {
    waiting("start_motion", 0, &[])
}
pub fn finish() {
    waiting("finish_motion", 1, &[])
}
/// the same for larger logs
pub fn finish_log() {
    waiting("finish_motion", 1, &[2, 3, 5, 7])
}
pub fn cancel() {
    waiting("cancel_motion", 2, &[])
}
/// Motions one after the other: whatever motion lies further back than the last one, the next one
/// starts from the same state, up to the counter of request identifiers.
pub fn session() {
    let log = choose(2, "log size") as usize;
    session_with(log);
}
/// the same for larger logs
pub fn session_log() {
    let log = [1usize, 2, 3, 5][choose(4, "log size") as usize];
    session_with(log);
}
fn session_with(log: usize) {
    let kinds: Vec<u32> = (0..2).map(|k| choose(3, &format!("outcome{}", k))).collect();
    let inter: Vec<(M, bool)> = (0..2)
        .map(|k| [(M::Q, false), (M::Vel, true), (M::None, true), (M::Pose, false)][choose(4, &format!("motion{}", k)) as usize])
        .collect();
    let b0 = int_in("first id", 1, 1 << 40);
    let bases: Vec<Z> = (0..4).map(|k| b0.add(Z::C(1000 * k))).collect();
    let sts: Vec<Vec<St>> = (0..2)
        .map(|j| (0..3).map(|i| st(&format!("m{}s{}", j, i), U64::lit(0), i % 2 == 0)).collect())
        .collect();
    let run = |skip: Option<usize>| {
        let now: Rc<Cell<(usize, usize)>> = Rc::new(Cell::new((0, 0)));
        let (n2, sts, bases) = (now.clone(), sts.clone(), bases.clone());
        let mut sim = Sim::new();
        sim.fill = Some(Box::new(move |k, w| {
            if k == 0 {
                w.id = U64::lit(0) + U64::from_z(Z::C(1));
                return;
            }
            let (j, start) = n2.get();
            let i = k - start;
            if j < 2 {
                put(w, &sts[j][i.min(2)]);
            }
            w.id = U64::from_z(bases[j + 1].add(Z::C(i as i128)));
        }));
        let hd = install(sim);
        let mut r = new_robot(log);
        snap::record();
        for j in (0..3).filter(|j| Some(*j) != skip) {
            let start = hd.borrow().states.len();
            now.set((j, start));
            let (m, torque) = if j < 2 { inter[j] } else { (M::Q, false) };
            let kind = if j < 2 { kinds[j] } else { 0 };
            {
                let mut s = hd.borrow_mut();
                s.move_first = if kind == 2 { 3 } else { 1 };
                s.script = if kind == 1 {
                    Some(Box::new(move |s, k| {
                        if k == start + 1 {
                            s.idle();
                            s.rm = 4;
                            if let Some(id) = s.move_id.take() {
                                s.respond(MOVE, id, &[6]);
                            }
                        }
                    }))
                } else {
                    None
                };
            }
            snap::mark(j);
            let n = Cell::new(0);
            let fin = |t: bool| {
                n.set(n.get() + (t == torque) as usize);
                t == torque && n.get() > 1
            };
            let mo = |_: &RobotState, _: &Duration| {
                let mut o = Out::zero();
                o.fin = fin(false);
                o
            };
            let to = |_: &RobotState, _: &Duration| Tau { tau: [l(0.0); 7], fin: fin(true) };
            let res = if torque { control_t(&mut r, m, Opt::raw(), mo, to) } else { control(&mut r, m, Opt::raw(), mo) };
            check("induct:outcome", res.is_ok() == (kind == 0));
        }
        snap::recorded()
    };
    // a refused motion changes nothing; otherwise the last one decides
    let (a, b) = (run(None), run(Some(if kinds[1] == 2 { 1 } else { 0 })));
    let find = |h: &[Head]| h.iter().find(|h| h.mark == 2 && h.site.contains("#start_motion#")).cloned();
    let (a, b) = (find(&a), find(&b));
    let strip = |h: Option<Head>| {
        h.map(|mut h| {
            h.vars.retain(|v| v.0 != "self.network.command_id" && v.0 != "move_command_id");
            h
        })
    };
    compare("session", strip(a).as_ref(), strip(b).as_ref());
}
const READING: &str = "(waiting in a read)";
/// The stream of answers: what the client holds after p bytes does not depend on how they were cut.
pub fn pieces() {
    // up to two answers nobody waits for, then the awaited one; or the answer when connecting
    pieces_of(choose(4, "stream"))
}
fn pieces_of(kind: u32) {
    let strays: Vec<u8> = (0..kind as usize % 3).flat_map(|k| response(JIMP, 1000 + k as u32, &[1])).collect();
    let len = match kind {
        3 => 15,
        _ => strays.len() + 13,
    };
    let p = 2 + choose(len as u32 - 2, "bytes") as usize;
    let a = 1 + choose(p as u32 - 1, "cut") as usize;
    let run = |tag: &str, cuts: Vec<usize>| {
        let mut sim = Sim::new();
        crate::ops::answering(&mut sim);
        if !strays.is_empty() {
            let strays = strays.clone();
            sim.reply = Some(Box::new(move |_s, q| {
                if q.cmd != JIMP {
                    return None;
                }
                let mut b = strays.clone();
                b.extend(response(JIMP, q.id, &[0]));
                Some(b)
            }));
        }
        if kind == 3 {
            sim.cuts = Some(cuts);
            let _hd = install(sim);
            snap::record();
            new_robot(1);
        } else {
            let hd = install(sim);
            let mut r = connect();
            hd.borrow_mut().cuts = Some(cuts);
            snap::record();
            let d = crate::ops::issue(&mut r, 1, tag);
            check("induct:outcome", d.res.is_ok());
        }
        snap::recorded()
            .into_iter()
            .filter(|h| h.mark == p && (h.site.contains("#wait_for_response_to_arrive#") || h.site == READING))
            .last()
    };
    let x = run("a", vec![a, 0, 0, p - a, 0, 0, 0, 0]);
    let y = run("b", vec![p, 0, 0, 0, 0]);
    let reading = |h: &Option<Head>| h.as_ref().map_or(false, |h| h.site == READING);
    if reading(&x) && reading(&y) {
        // the read of an answer waits for its last byte: no decision is taken at p bytes
        check("induct:pieces:waiting-inside-a-read", true);
        return;
    }
    compare("pieces", x.as_ref(), y.as_ref());
}
/// a motion of one cycle whose state is preceded by datagrams; they arrive one by one or together
fn datagrams(fun: &'static str, together: bool) {
    let (m, torque) = interface();
    let d1 = int_in("age1", 0, 1 << 20);
    let d2 = int_in("age2", 0, 1 << 20);
    let id0 = int_in("first id", 1 << 21, 1 << 40);
    let at = |z: Z| U64::from_z(z);
    let old = together && flag("older");
    let c = st("c", at(id0), false);
    let p = st("p", at(id0.add(Z::C(1))), true);
    // together: any other state lies before the newest one in the socket; else both are outdated
    let x = st("x", at(id0.add(Z::C(1)).sub(d1)), true);
    let y = if together && !old { st("y", at(id0.add(Z::C(2)).add(d2)), false) } else { st("y", at(id0.add(Z::C(1)).sub(d2)), false) };
    let s = st("s", at(id0.add(Z::C(1 << 22))), true);
    let run = |extra: bool| {
        let mut seq = vec![c.clone(), p.clone()];
        let (x2, y2) = (x.clone(), y.clone());
        if !together {
            if extra {
                seq.push(x.clone());
            }
            seq.push(y.clone());
        }
        seq.push(s.clone());
        let n = seq.len();
        let mut sim = Sim::new();
        sim.fill = Some(Box::new(move |k, w| {
            if k < n {
                put(w, &seq[k])
            }
        }));
        if together {
            sim.batch = Some(Box::new(move |sim, k, st| {
                let mut v = vec![];
                if k == 2 {
                    let mut w = sim.stray(x2.id);
                    if extra {
                        put(&mut w, &x2);
                        v.push(w.enc());
                    }
                    put(&mut w, &y2);
                    v.push(w.enc());
                }
                v.push(st.enc());
                v
            }));
        }
        let _hd = install(sim);
        let mut r = new_robot(1);
        let at = Cell::new(None);
        let tick = |t: bool| {
            if at.get().is_none() {
                at.set(Some(snap::seen()));
            }
            t == torque
        };
        let mo = |_: &RobotState, _: &Duration| {
            let mut o = Out::zero();
            o.fin = tick(false);
            o
        };
        let to = |_: &RobotState, _: &Duration| Tau { tau: [l(0.0); 7], fin: tick(true) };
        snap::record();
        let res = if torque { control_t(&mut r, m, Opt::raw(), mo, to) } else { control(&mut r, m, Opt::raw(), mo) };
        let h = snap::recorded();
        check("induct:outcome", res.is_ok() && at.get().is_some());
        h[..at.get().unwrap_or(0)].iter().filter(|h| h.site.contains(&format!("#{}#", fun))).cloned().collect::<Vec<Head>>()
    };
    let (a, b) = (run(true), run(false));
    for k in 0..2 {
        let at = |h: &[Head]| h.len().checked_sub(k + 1);
        compare(fun, at(&a).map(|i| &a[i]), at(&b).map(|i| &b[i]));
    }
}
/// outdated datagrams leave no trace in the loop that waits for a new state
pub fn stale() {
    datagrams("receive_robot_state", false)
}
/// of the datagrams that wait together only the last one leaves a trace
pub fn drain() {
    datagrams("udp_blocking_receive", true)
}
/// Reading states without a motion: what was read longer ago leaves no trace.
pub fn reading() {
    let once = flag("one by one");
    let fun = if once { "#receive_robot_state#" } else { "#read#" };
    let id = ids(5);
    let all: Vec<St> = (0..5).map(|k| st(&format!("s{}", k), id[k], k % 2 == 0)).collect();
    let run = |extra: bool| {
        let mut seq = all.clone();
        if !extra {
            seq.remove(1);
        }
        let n = seq.len();
        let mut sim = Sim::new();
        sim.fill = Some(Box::new(move |k, w| {
            if k < n {
                put(w, &seq[k])
            }
        }));
        let _hd = install(sim);
        let mut r = new_robot(1);
        snap::record();
        if once {
            for k in 1..n {
                snap::mark(k);
                check("induct:outcome", r.read_once().is_ok());
            }
        } else {
            let mut k = 1;
            let res = r.read(|_| {
                k += 1;
                k < n
            });
            check("induct:outcome", res.is_ok());
        }
        snap::recorded().into_iter().filter(|h| h.site.contains(fun)).collect::<Vec<Head>>()
    };
    let (a, b) = (run(true), run(false));
    for k in 0..2 {
        let at = |h: &[Head]| h.len().checked_sub(k + 1);
        compare("reading", at(&a).map(|i| &a[i]), at(&b).map(|i| &b[i]));
    }
}
