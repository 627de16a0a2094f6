//! Real time: enforced before the robot is asked to move, or not touched at all.
use crate::common::*;
use crate::drive::*;
use crate::ops::kind;
use crate::srv::*;
use symrt::env::{self, Ev};

pub fn all() -> Vec<H> {
    vec![
        h("enforce", "Robot::new, ControlLoop::new_intern, has_realtime_kernel, set_current_thread_to_highest_scheduler_priority", enforce),
        h("every_motion", "ControlLoop::new_intern, ControlLoop::new, ControlLoop::from_control_mode", every),
        h("helper", "set_current_thread_to_highest_scheduler_priority, has_realtime_kernel", helper),
    ]
}
fn interface() -> (M, bool) {
    let m = [M::None, M::Q, M::Dq, M::Pose, M::Vel][choose(5, "interface") as usize];
    (m, m == M::None || flag("with torques"))
}
fn go(r: &mut Robot, m: M, torque: bool, calls: &std::cell::Cell<usize>) -> franka::exception::FrankaResult<()> {
    let mo = |_: &franka::robot::robot_state::RobotState, _: &Duration| {
        calls.set(calls.get() + 1);
        let mut o = Out::zero();
        o.fin = true;
        o
    };
    let to = |_: &franka::robot::robot_state::RobotState, _: &Duration| {
        calls.set(calls.get() + 1);
        Tau { tau: [l(0.0); 7], fin: true }
    };
    if torque {
        control_t(r, m, Opt::raw(), mo, to)
    } else {
        control(r, m, Opt::raw(), mo)
    }
}
struct Sys {
    kernel: bool,
    prio: i32,
    sched: i32,
    lock: i32,
}
fn sys() -> Sys {
    Sys {
        kernel: flag("realtime kernel"),
        prio: [99, 50, 2, -1][choose(4, "highest priority") as usize],
        sched: [0, 1, 22, -1][choose(4, "result of setting the scheduler") as usize],
        lock: [0, -1, 12][choose(3, "result of locking memory") as usize],
    }
}
impl Sys {
    fn apply(&self) {
        env::world(|w| {
            w.realtime_kernel = self.kernel;
            w.prio_max = self.prio;
            w.setsched_result = self.sched;
            w.mlock_result = self.lock;
        });
    }
    fn usable(&self) -> bool {
        self.prio != -1 && self.sched == 0 && self.lock == 0
    }
}
/// what the log of the operating system says, relative to the first request that moves the robot
fn judge_log(s: &Sys, torn: usize) {
    env::world(|w| {
        let log = &w.log[torn..];
        let mv = log.iter().position(|e| matches!(e, Ev::TcpOut(b) if b.len() >= 4 && b[0] == 1 && b[1] == 0 && b[2] == 0 && b[3] == 0));
        let ok: Vec<usize> = log.iter().enumerate().filter(|(_, e)| matches!(e, Ev::Sched(1, p) if *p > 0 && *p <= s.prio)).map(|x| x.0).collect();
        let lk: Vec<usize> = log.iter().enumerate().filter(|(_, e)| matches!(e, Ev::Mlock(3))).map(|x| x.0).collect();
        check("scheduler-only-fifo", log.iter().all(|e| !matches!(e, Ev::Sched(p, _) if *p != 1)));
        check("valid-priority", log.iter().all(|e| !matches!(e, Ev::Sched(_, p) if *p > s.prio || *p < s.prio - 1)));
        match mv {
            Some(i) => {
                check("priority-before-the-motion", ok.first().map_or(false, |j| *j < i));
                check("memory-locked-before-the-motion", lk.first().map_or(false, |j| *j < i));
            }
            None => check("asked-to-move", false),
        }
    });
}
fn enforce() {
    let (m, torque) = interface();
    let rt = choose(3, "configuration");
    let s = sys();
    let hd = install(Sim::new());
    s.apply();
    let r = match rt {
        0 => Robot::new("10.11.12.13", RealtimeConfig::Enforce, None),
        1 => Robot::new("10.11.12.13", None, None),
        _ => Robot::new("10.11.12.13", RealtimeConfig::Ignore, None),
    };
    let mut r = match r {
        Ok(r) => r,
        Err(e) => {
            note(kind(&e));
            return check("connecting-needs-no-realtime", false);
        }
    };
    check("nothing-while-connecting", env::world(|w| !w.log.iter().any(|e| matches!(e, Ev::Sched(..) | Ev::Mlock(_)))));
    let torn = env::world(|w| w.log.len());
    let calls = std::cell::Cell::new(0);
    let res = go(&mut r, m, torque, &calls);
    let enforced = rt != 2;
    if enforced && !(s.kernel && s.usable()) {
        match &res {
            Ok(_) => check("refused", false),
            Err(e) => {
                note(kind(e));
                check("realtime-error", kind(e) == "realtime")
            }
        }
        check("no-callback", calls.get() == 0);
        let h = hd.borrow();
        check("no-motion-requested", h.reqs.iter().all(|q| q.cmd != MOVE));
        check("no-command", h.cmds.is_empty());
        if !s.kernel {
            check("scheduler-untouched", env::world(|w| !w.log.iter().any(|e| matches!(e, Ev::Sched(..) | Ev::Mlock(_)))));
        }
        cover("refused");
    } else {
        if let Err(e) = &res {
            note(&format!("{}", e));
        }
        check("runs", res.is_ok());
        check("callbacks", calls.get() >= 1);
        if enforced {
            judge_log(&s, torn);
            cover("enforced");
        } else {
            check("ignored", env::world(|w| !w.log.iter().any(|e| matches!(e, Ev::Sched(..) | Ev::Mlock(_)))));
            cover("ignored");
        }
    }
}
/// not only the first motion; a failure leaves the robot usable
fn every() {
    let (m, torque) = interface();
    let a = sys();
    let b = sys();
    assume_quiet(B::c(a.prio == 99 && b.prio == 99 && a.lock == 0));
    let hd = install(Sim::new());
    let mut r = match Robot::new("10.11.12.13", None, None) {
        Ok(r) => r,
        Err(_) => return check("connects", false),
    };
    let calls = std::cell::Cell::new(0);
    for s in [&a, &b] {
        s.apply();
        calls.set(0);
        let (n, torn) = (hd.borrow().reqs.len(), env::world(|w| w.log.len()));
        let res = go(&mut r, m, torque, &calls);
        let good = s.kernel && s.usable();
        check("decided-per-motion", res.is_ok() == good);
        if good {
            judge_log(s, torn);
            cover("good");
        } else {
            check("no-request", hd.borrow().reqs.len() == n);
            check("no-callback", calls.get() == 0);
            cover("bad");
        }
    }
}
fn helper() {
    let s = sys();
    install(Sim::new());
    s.apply();
    #[cfg(not(feature = "public_only"))]
    {
        use franka::robot::control_tools::*;
        check("kernel", has_realtime_kernel() == s.kernel);
        let res = set_current_thread_to_highest_scheduler_priority();
        check("result", res.is_ok() == s.usable());
        if let Err(e) = &res {
            check("realtime-error", kind(e) == "realtime");
        }
    }
    check("called", true);
    cover("helper");
}
