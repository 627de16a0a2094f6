//! Every request of the robot interface with arbitrary arguments, and what has to arrive for it.
use crate::common::*;
use crate::srv::*;
use franka::exception::{FrankaException, FrankaResult};
use franka::robot::virtual_wall_cuboid::VirtualWallCuboid;

#[derive(Clone)]
pub enum X {
    R(R),
    B(u8),
    I(i32),
}
pub fn xs(v: &[R]) -> Vec<X> {
    v.iter().map(|x| X::R(*x)).collect()
}
/// the body consists of exactly these values
pub fn body_is(name: &str, body: &[u8], want: &[X]) {
    let n: usize = want
        .iter()
        .map(|x| match x {
            X::R(_) => 8,
            X::B(_) => 1,
            X::I(_) => 4,
        })
        .sum();
    if body.len() != n {
        note(&format!("body has {} bytes instead of {}", body.len(), n));
        check(&format!("{}-length", name), false);
        return;
    }
    let mut r = Rd(body, 0);
    for (i, x) in want.iter().enumerate() {
        match x {
            X::R(v) => {
                let g = r.r();
                check(&format!("{}[{}]", name, i), same(&[g], &[*v]))
            }
            X::B(v) => check(&format!("{}[{}]", name, i), r.u8() == *v),
            X::I(v) => check(&format!("{}[{}]", name, i), r.u32() == *v as u32),
        }
    }
}
pub const NOPS: u32 = 11;
pub const OPS: [u32; 11] = [
    COLLISION, JIMP, CIMP, GUIDING, EETOK, NETOEE, LOAD, FILTERS, RECOVERY, STOP, GETLIMIT,
];
pub struct Done {
    pub cmd: u32,
    pub want: Vec<X>,
    pub res: FrankaResult<()>,
    pub wall: Option<VirtualWallCuboid>,
    pub wall_id: i32,
}
#[allow(deprecated)]
pub fn issue(r: &mut Robot, op: u32, t: &str) -> Done {
    let cmd = OPS[op as usize];
    let rs = |n: &str, _k: usize| format!("{}.{}", t, n);
    let mut wall = None;
    let mut wall_id = 0;
    let (want, res) = match cmd {
        COLLISION => {
            let a: [R; 7] = reals(&rs("a", 7), -100.0, 100.0);
            let b: [R; 7] = reals(&rs("b", 7), -100.0, 100.0);
            let c: [R; 7] = reals(&rs("c", 7), -100.0, 100.0);
            let d: [R; 7] = reals(&rs("d", 7), -100.0, 100.0);
            let e: [R; 6] = reals(&rs("e", 6), -100.0, 100.0);
            let f: [R; 6] = reals(&rs("f", 6), -100.0, 100.0);
            let g: [R; 6] = reals(&rs("g", 6), -100.0, 100.0);
            let h: [R; 6] = reals(&rs("h", 6), -100.0, 100.0);
            let mut w = vec![];
            for x in [&a, &b, &c, &d] {
                w.extend(xs(x));
            }
            for x in [&e, &f, &g, &h] {
                w.extend(xs(x));
            }
            (w, r.set_collision_behavior(a, b, c, d, e, f, g, h))
        }
        JIMP => {
            let a: [R; 7] = reals(&rs("K", 7), -1e4, 1e4);
            (xs(&a), r.set_joint_impedance(a))
        }
        CIMP => {
            let a: [R; 6] = reals(&rs("K", 6), -1e4, 1e4);
            (xs(&a), r.set_cartesian_impedance(a))
        }
        GUIDING => {
            let a: [bool; 6] = std::array::from_fn(|i| flag(&format!("guide{}", i)));
            let e = flag("guide elbow");
            let mut w: Vec<X> = a.iter().map(|x| X::B(*x as u8)).collect();
            w.push(X::B(e as u8));
            (w, r.set_guiding_mode(a, e))
        }
        EETOK => {
            let a: [R; 16] = reals(&rs("T", 16), -10.0, 10.0);
            (xs(&a), r.set_K(a))
        }
        NETOEE => {
            let a: [R; 16] = reals(&rs("T", 16), -10.0, 10.0);
            (xs(&a), r.set_EE(a))
        }
        LOAD => {
            let m = real_in(&rs("m", 1), -10.0, 10.0);
            let c: [R; 3] = reals(&rs("x", 3), -10.0, 10.0);
            let i: [R; 9] = reals(&rs("I", 9), -10.0, 10.0);
            let mut w = vec![X::R(m)];
            w.extend(xs(&c));
            w.extend(xs(&i));
            (w, r.set_load(m, c, i))
        }
        FILTERS => {
            let a: [R; 5] = reals(&rs("f", 5), 0.0, 1000.0);
            (xs(&a), r.set_filters(a[0], a[1], a[2], a[3], a[4]))
        }
        RECOVERY => (vec![], r.automatic_error_recovery()),
        STOP => (vec![], r.stop()),
        GETLIMIT => {
            let id = [0, 1, 7, -1, i32::MAX, i32::MIN][choose(6, "wall id") as usize];
            wall_id = id;
            let x = r.get_virtual_wall(id);
            (
                vec![X::I(id)],
                match x {
                    Ok(w) => {
                        wall = Some(w);
                        Ok(())
                    }
                    Err(e) => Err(e),
                },
            )
        }
        _ => unreachable!(),
    };
    Done { cmd, want, res, wall, wall_id }
}
/// payload of a virtual wall response
pub fn wall_payload(status: u8, size: &[R; 3], frame: &[R; 16], active: bool) -> Vec<u8> {
    let mut b = vec![status];
    for x in size.iter().chain(frame.iter()) {
        b.extend(x.raw().to_le_bytes());
    }
    b.push(active as u8);
    b
}
/// a controller that answers every request; walls get a complete response
pub fn answering(sim: &mut Sim) {
    sim.reply = Some(Box::new(|s: &mut Sim, q: &Req| {
        if q.cmd == GETLIMIT {
            Some(response(
                GETLIMIT,
                q.id,
                &wall_payload(s.status, &[l(0.0); 3], &[l(0.0); 16], false),
            ))
        } else {
            None
        }
    }));
}
pub fn kind(e: &FrankaException) -> &'static str {
    match e {
        FrankaException::ControlException { .. } => "control",
        FrankaException::IncompatibleLibraryVersionError { .. } => "version",
        FrankaException::NoMotionGeneratorRunningError => "nomotion",
        FrankaException::NoControllerRunningError => "nocontroller",
        FrankaException::PartialCommandError => "partial",
        FrankaException::NetworkException { .. } => "network",
        FrankaException::CommandException { .. } => "command",
        FrankaException::ModelException { .. } => "model",
        FrankaException::RealTimeException { .. } => "realtime",
    }
}
