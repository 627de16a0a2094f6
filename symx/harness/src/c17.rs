//! The model library is asked for what the caller asked for, with the caller's numbers.
use crate::common::*;
use crate::ops::kind;
use crate::srv::*;
use franka::model::{Frame, Model};
use franka::robot::robot_state::RobotState;
use std::path::{Path, PathBuf};
use symrt::env::{self, libloading::*, Ev};

pub fn all() -> Vec<H> {
    vec![
        h("frames", "Model::pose, Model::body_jacobian, Model::zero_jacobian, ModelLibrary::*", frames),
        h("frames_from_state", "Model::pose_from_state, Model::body_jacobian_from_state, Model::zero_jacobian_from_state", frames_from_state),
        h("dynamics", "Model::mass, Model::coriolis, Model::gravity, ModelLibrary::mass, ModelLibrary::coriolis, ModelLibrary::gravity", dynamics),
        h("dynamics_from_state", "Model::mass_from_state, Model::coriolis_from_state, Model::gravity_from_state", dynamics_from_state),
        h("sequence", "Model::*", sequence),
        h("loading", "Model::new, ModelLibrary::new, ModelLibrary::get_symbol", loading),
        h("missing_symbol", "ModelLibrary::new, ModelLibrary::get_symbol", missing),
        h("received_state", "Model::*_from_state, RobotState::from, combine_center_of_mass, combine_inertia_tensor", received),
    ]
}
const FRAMES: [Frame; 10] = [
    Frame::Joint1,
    Frame::Joint2,
    Frame::Joint3,
    Frame::Joint4,
    Frame::Joint5,
    Frame::Joint6,
    Frame::Joint7,
    Frame::Flange,
    Frame::EndEffector,
    Frame::Stiffness,
];
fn model() -> Model {
    env::reset_world();
    open()
}
fn open() -> Model {
    match Model::new("/some/where/model.so", None) {
        Ok(m) => m,
        Err(e) => panic!("model not loaded: {}", e),
    }
}
fn a<const N: usize>(n: &str) -> [R; N] {
    reals(n, -10.0, 10.0)
}
/// column-major product of two 4x4 matrices
fn product(x: &[R], y: &[R]) -> Vec<R> {
    let mut v = vec![l(0.0); 16];
    for c in 0..4 {
        for r in 0..4 {
            v[4 * c + r] = x[r] * y[4 * c] + x[4 + r] * y[4 * c + 1] + x[8 + r] * y[4 * c + 2] + x[12 + r] * y[4 * c + 3];
        }
    }
    v
}
fn output(name: &str, symbol: &str, got: &[R]) {
    let ok = got.iter().enumerate().all(|(i, x)| x.as_const() == Some(out_value(symbol, i)));
    check(&format!("{}-returned-unchanged", name), ok);
}
/// the last call was that one
fn called(name: &str, symbol: &str, args: &[(&str, Vec<R>)]) {
    let (n, c) = env::world(|w| (w.model_calls.len(), w.model_calls.last().cloned()));
    check(&format!("{}-one-call", name), n == 1);
    env::world(|w| w.model_calls.clear());
    let c = match c {
        Some(c) => c,
        None => return,
    };
    note(&format!("{} called", c.symbol));
    check(&format!("{}-function", name), c.symbol == symbol);
    if c.symbol != symbol {
        return;
    }
    check(&format!("{}-arguments", name), c.args.len() == args.len());
    for (x, (n, y)) in c.args.iter().zip(args) {
        check(&format!("{}-argument-{}", name, n), same(x, y));
    }
}
/// the three functions of a frame, against what the model calls it
fn frame(m: &Model, f: usize, q: &[R; 7], fee: &[R; 16], eek: &[R; 16], st: Option<&RobotState>) {
    let j = (f + 1).min(9);
    let mut args = vec![("q", q.to_vec())];
    if f == 8 {
        args.push(("F_T_EE", fee.to_vec()));
    }
    if f == 9 {
        args.push(("F_T_EE", product(fee, eek)));
    }
    let p = match st {
        None => m.pose(&FRAMES[f], q, fee, eek),
        Some(s) => m.pose_from_state(&FRAMES[f], s),
    };
    let sy = format!("O_T_J{}", j);
    called("pose", &sy, &args);
    output("pose", &sy, &p);
    let jargs = if f == 0 { vec![] } else { args };
    let b = match st {
        None => m.body_jacobian(&FRAMES[f], q, fee, eek),
        Some(s) => m.body_jacobian_from_state(&FRAMES[f], s),
    };
    let sy = format!("Ji_J_J{}", j);
    called("body-jacobian", &sy, &jargs);
    output("body-jacobian", &sy, &b);
    let z = match st {
        None => m.zero_jacobian(&FRAMES[f], q, fee, eek),
        Some(s) => m.zero_jacobian_from_state(&FRAMES[f], s),
    };
    let sy = format!("O_J_J{}", j);
    called("zero-jacobian", &sy, &jargs);
    output("zero-jacobian", &sy, &z);
    cover("frame");
}
fn frames() {
    let m = model();
    let f = choose(10, "frame") as usize;
    frame(&m, f, &a("q"), &a("F_T_EE"), &a("EE_T_K"), None);
}
/// a state in which no two numbers are the same
fn state() -> RobotState {
    let mut s = RobotState::default();
    s.q = a("q");
    s.q_d = a("q_d");
    s.dq = a("dq");
    s.dq_d = a("dq_d");
    s.theta = a("theta");
    s.F_T_EE = a("F_T_EE");
    s.F_T_NE = a("F_T_NE");
    s.NE_T_EE = a("NE_T_EE");
    s.EE_T_K = a("EE_T_K");
    s.O_T_EE = a("O_T_EE");
    s.m_ee = real_in("m_ee", 0.0, 5.0);
    s.m_load = real_in("m_load", 0.0, 5.0);
    s.m_total = real_in("m_total", 0.0, 5.0);
    s.I_ee = a("I_ee");
    s.I_load = a("I_load");
    s.I_total = a("I_total");
    s.F_x_Cee = a("F_x_Cee");
    s.F_x_Cload = a("F_x_Cload");
    s.F_x_Ctotal = a("F_x_Ctotal");
    s.O_ddP_O = a("O_ddP_O");
    s
}
fn frames_from_state() {
    let m = model();
    let f = choose(10, "frame") as usize;
    let s = state();
    frame(&m, f, &s.q.clone(), &s.F_T_EE.clone(), &s.EE_T_K.clone(), Some(&s));
}
fn earth() -> Vec<R> {
    vec![l(0.0), l(0.0), l(-9.81)]
}
fn dynamics() {
    let m = model();
    let (q, dq, i, x): ([R; 7], [R; 7], [R; 9], [R; 3]) = (a("q"), a("dq"), a("I"), a("x"));
    let mass = real_in("m", 0.0, 10.0);
    let out = m.mass(&q, &i, mass, &x);
    called("mass", "M_NE", &[("q", q.to_vec()), ("I", i.to_vec()), ("m", vec![mass]), ("x", x.to_vec())]);
    output("mass", "M_NE", &out);
    let out = m.coriolis(&q, &dq, &i, mass, &x);
    called("coriolis", "c_NE", &[("q", q.to_vec()), ("dq", dq.to_vec()), ("I", i.to_vec()), ("m", vec![mass]), ("x", x.to_vec())]);
    output("coriolis", "c_NE", &out);
    let g: [R; 3] = a("g");
    let given = flag("gravity given");
    let out = if given { m.gravity(&q, mass, &x, &g) } else { m.gravity(&q, mass, &x, None) };
    let want = if given { g.to_vec() } else { earth() };
    called("gravity", "g_NE", &[("q", q.to_vec()), ("g", want), ("m", vec![mass]), ("x", x.to_vec())]);
    output("gravity", "g_NE", &out);
    cover("dynamics");
}
fn from_state(m: &Model, s: &RobotState) {
    let out = m.mass_from_state(s);
    let (q, i, mm, x) = (s.q.to_vec(), s.I_total.to_vec(), vec![s.m_total], s.F_x_Ctotal.to_vec());
    called("mass", "M_NE", &[("q", q.clone()), ("I", i.clone()), ("m", mm.clone()), ("x", x.clone())]);
    output("mass", "M_NE", &out);
    let out = m.coriolis_from_state(s);
    called("coriolis", "c_NE", &[("q", q.clone()), ("dq", s.dq.to_vec()), ("I", i.clone()), ("m", mm.clone()), ("x", x.clone())]);
    output("coriolis", "c_NE", &out);
    let g: [R; 3] = a("g");
    let given = flag("gravity given");
    let out = if given { m.gravity_from_state(s, &g) } else { m.gravity_from_state(s, None) };
    let want = if given { g.to_vec() } else { s.O_ddP_O.to_vec() };
    called("gravity", "g_NE", &[("q", q), ("g", want), ("m", mm), ("x", x)]);
    output("gravity", "g_NE", &out);
    cover("dynamics");
}
fn dynamics_from_state() {
    from_state(&model(), &state());
}
/// no call depends on the ones before it
fn sequence() {
    let m = model();
    let s = state();
    let (f, g) = (choose(10, "first frame") as usize, choose(10, "second frame") as usize);
    frame(&m, f, &a("q1"), &a("F1"), &a("E1"), None);
    from_state(&m, &s);
    frame(&m, g, &a("q2"), &a("F2"), &a("E2"), None);
    frame(&m, f, &s.q.clone(), &s.F_T_EE.clone(), &s.EE_T_K.clone(), Some(&s));
}
fn loading() {
    env::reset_world();
    let own = flag("own libm");
    let (no_m, no_model) = (flag("libm missing"), flag("model missing"));
    let libm = PathBuf::from(if own { "/opt/x/libm.so.7" } else { "libm.so.6" });
    let path = PathBuf::from("/some/where/model.so");
    env::world(|w| {
        if no_m {
            w.missing_libs.insert(libm.clone());
        }
        if no_model {
            w.missing_libs.insert(path.clone());
        }
    });
    let res = Model::new(&path, if own { Some(Path::new("/opt/x/libm.so.7")) } else { None });
    check("works-iff-present", res.is_ok() == !(no_m || no_model));
    if let Err(e) = &res {
        check("model-error", kind(e) == "model");
        cover("missing");
    }
    env::world(|w| {
        let o: Vec<(PathBuf, i32)> = w.log.iter().filter_map(|e| if let Ev::LibOpen(p, f) = e { Some((p.clone(), *f)) } else { None }).collect();
        // the model needs the symbols of libm
        check("libm-first", o.first().map_or(false, |x| x.0 == libm));
        check("libm-symbols-visible", o.first().map_or(false, |x| x.1 & 0x100 != 0));
        check("nothing-else-opened", o.iter().all(|x| x.0 == libm || x.0 == path));
        if res.is_ok() {
            check("model-opened", o.iter().any(|x| x.0 == path));
            check("resolved-at-once", o.iter().all(|x| x.1 & 2 != 0));
            cover("loaded");
        }
    });
}
fn missing() {
    env::reset_world();
    let k = choose(SYMBOLS.len() as u32, "symbol") as usize;
    env::world(|w| w.missing_symbols.insert(SYMBOLS[k].to_string()));
    match Model::new("/some/where/model.so", None) {
        Ok(_) => check("refused", false),
        Err(e) => check("model-error", kind(&e) == "model"),
    }
    cover("missing");
}
/// from the wire to the model: the state a robot sends
fn received() {
    let mut sim = Sim::new();
    let names: [(&str, usize); 12] = [
        ("q", 7), ("dq", 7), ("F_T_EE", 16), ("EE_T_K", 16), ("F_T_NE", 16), ("NE_T_EE", 16), ("I_ee", 9), ("F_x_Cee", 3), ("I_load", 9), ("F_x_Cload", 3), ("O_ddP_O", 3), ("q_d", 7),
    ];
    let vals: Vec<(&str, Vec<R>)> = names.iter().map(|(n, k)| (*n, (0..*k).map(|i| real_in(&format!("{}{}", n, i), -5.0, 5.0)).collect())).collect();
    let m_ee = real_in("m_ee", 0.5, 5.0);
    sim.fill = Some(Box::new(move |_, s| {
        for (n, v) in &vals {
            s.set(n, v);
        }
        s.set("m_ee", &[m_ee]);
        s.set("m_load", &[l(0.0)]);
    }));
    let hd = install(sim);
    let mut r = connect();
    let st = match r.read_once() {
        Ok(s) => s,
        Err(_) => return check("read", false),
    };
    let m = open();
    let w = hd.borrow().states.last().unwrap().clone();
    let f = choose(10, "frame") as usize;
    frame(&m, f, &w.arr("q"), &w.arr("F_T_EE"), &w.arr("EE_T_K"), Some(&st));
    from_state(&m, &st);
    if f > 0 {
        return;
    }
    let _ = m.coriolis_from_state(&st);
    let c = env::world(|x| x.model_calls.pop()).unwrap();
    // without a load the totals are those of the end effector
    check("inertia-of-the-end-effector", B::all(c.args[2].iter().zip(w.get("I_ee")).map(|(x, y)| x.within(y, 1e-9))));
    check("mass-of-the-end-effector", c.args[3][0].within(m_ee, 1e-9));
    check("centre-of-the-end-effector", B::all(c.args[4].iter().zip(w.get("F_x_Cee")).map(|(x, y)| x.within(y, 1e-9))));
}
