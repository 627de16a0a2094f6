//! The model that is loaded is the one the robot sent, byte for byte.
use crate::common::*;
use crate::ops::kind;
use crate::srv::*;
use franka::model::{Frame, Model};
use franka::FrankaResult;
use std::path::PathBuf;
use symrt::env::{self, libloading::out_value, Ev};

pub fn all() -> Vec<H> {
    vec![
        h("download", "Robot::load_model, RobotImpl::load_model, LibraryDownloader::download, Network::tcp_blocking_receive_load_library_response, Network::wait_for_response_to_arrive", download)
            .bound("library sizes 1, 700, 69986..69989, 140007, 250000 bytes; the listed segmentations and write lengths"),
        h("segments", "Network::tcp_read_from_buffer, Network::tcp_blocking_receive_load_library_response", segments)
            .bound("libraries of up to 40 bytes in every division into two and three pieces"),
        h("reuse", "RobotImpl::load_model", reuse).bound("three loads in a row"),
        h("failures", "RobotImpl::load_model, LibraryDownloader::download, Network::tcp_blocking_receive_load_library_response", failures)
            .bound("one failure of each kind, followed by a second attempt"),
        h("other_answers", "Network::tcp_read_from_buffer, Network::wait_for_response_to_arrive", other_answers)
            .bound("one further response before or after the library"),
    ]
}
fn file() -> PathBuf {
    PathBuf::from("/tmp/model.so")
}
fn bytes(n: usize, seed: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 7 + i / 251 * 13 + seed * 31 + 3) % 253) as u8).collect()
}
fn serving(lib: Vec<u8>) -> Sim {
    let mut sim = Sim::new();
    sim.reply = Some(Box::new(move |s, q| {
        if q.cmd == LOADLIB {
            let mut p = vec![0u8];
            p.extend(&lib);
            s.log.push(E::Resp(q.id));
            return Some(response(LOADLIB, q.id, &p));
        }
        None
    }));
    sim
}
fn requests(hd: &Handle) -> usize {
    hd.borrow().reqs.iter().filter(|q| q.cmd == LOADLIB).count()
}
/// the model works and was made from those bytes
fn loaded(res: &FrankaResult<Model>, lib: &[u8]) {
    match res {
        Err(e) => {
            note(&format!("{}", e));
            check("loaded", false)
        }
        Ok(m) => {
            let o = env::world(|w| w.opened.iter().rev().find(|x| x.0 == file()).cloned());
            match o {
                Some((_, Some(b))) => {
                    note(&format!("{} bytes", b.len()));
                    check("loaded-bytes", b == lib)
                }
                _ => check("loaded-from-file", false),
            }
            let p = m.pose(&Frame::Flange, &[l(0.0); 7], &[l(0.0); 16], &[l(0.0); 16]);
            check("usable", p[3].as_const() == Some(out_value("O_T_J8", 3)));
        }
    }
}
fn on_disk() -> Option<Vec<u8>> {
    env::world(|w| w.files.get(&file()).cloned())
}
fn download() {
    let n = [1, 700, 69986, 69987, 69988, 69989, 140007, 250000][choose(8, "size") as usize];
    let persistent = flag("persistent");
    let lib = bytes(n, 0);
    let mut sim = serving(lib.clone());
    match choose(5, "segmentation") {
        0 => {}
        1 => sim.chunk = 1460,
        2 => sim.chunk = 65536,
        3 => sim.cuts = Some(vec![5, 8, n / 2 + 1]),
        _ => sim.cuts = Some(vec![12, 1, n.saturating_sub(1)]),
    }
    let hd = install(sim);
    env::world(|w| w.write_cap = [usize::MAX, 4096, 70000][choose(3, "longest write") as usize]);
    // the connection itself is not cut up
    let mut r = connect();
    let res = r.load_model(persistent);
    loaded(&res, &lib);
    check("one-request", requests(&hd) == 1);
    {
        let s = hd.borrow();
        let q = s.reqs.iter().find(|q| q.cmd == LOADLIB).unwrap();
        check("for-this-platform", q.body == vec![0, 0]);
    }
    match on_disk() {
        Some(b) => {
            check("kept-only-on-request", persistent);
            check("kept-bytes", b == lib);
            cover("kept");
        }
        None => {
            check("kept-on-request", !persistent);
            cover("removed");
        }
    }
    check("no-other-file", env::world(|w| w.files.keys().all(|p| *p == file())));
    // the connection is in order afterwards
    check("next-request", r.set_guiding_mode([true; 6], false).is_ok());
}
fn segments() {
    let n = 1 + choose(40, "size") as usize;
    let total = 13 + n;
    let lib = bytes(n, 1);
    let a = 1 + choose(total as u32, "first piece") as usize;
    let b = choose(total as u32, "second piece") as usize;
    assume_quiet(B::c(a + b <= total && (n % 13 == 1 || b < 2)));
    let sim = serving(lib.clone());
    let hd = install(sim);
    let mut r = connect();
    hd.borrow_mut().cuts = Some(vec![a, b]);
    let res = r.load_model(true);
    loaded(&res, &lib);
    check("kept-bytes", on_disk() == Some(lib));
    cover("segments");
}
fn reuse() {
    let there = flag("file there before");
    let old = bytes(50, 7);
    let lib = bytes(90, 2);
    let hd = install(serving(lib.clone()));
    if there {
        env::world(|w| w.files.insert(file(), old.clone()));
    }
    let mut r = connect();
    let mut disk = if there { Some(old) } else { None };
    let mut asked = 0;
    for _ in 0..3 {
        let persistent = flag("persistent");
        let res = r.load_model(persistent);
        if disk.is_none() {
            asked += 1;
        }
        let b = disk.take().unwrap_or_else(|| lib.clone());
        loaded(&res, &b);
        check("downloaded-iff-not-there", requests(&hd) == asked);
        if persistent {
            disk = Some(b);
        }
        check("left-on-disk", on_disk() == disk);
        cover("load");
    }
}
fn failures() {
    let how = choose(6, "failure");
    let persistent = flag("persistent");
    let lib = bytes(300, 3);
    let mut sim = serving(lib.clone());
    if how == 0 {
        sim.reply = None;
        sim.status = 1;
    }
    let hd = install(sim);
    let mut r = connect();
    env::world(|w| match how {
        1 => w.fail_create = true,
        2 => w.fail_write = true,
        3 => w.disk_left = 100,
        4 => {
            w.missing_libs.insert(file());
        }
        5 => {
            w.missing_symbols.insert("c_NE".into());
        }
        _ => {}
    });
    match r.load_model(persistent) {
        Ok(_) => check("reported", false),
        Err(e) => {
            note(&format!("{}", e));
            check("model-error", kind(&e) == "model")
        }
    }
    // an incomplete file must not be there for the next attempt
    check("no-broken-file", on_disk().map_or(true, |b| b == lib));
    if how <= 3 {
        check("no-file", on_disk().is_none());
        check("never-opened", env::world(|w| !w.log.iter().any(|e| matches!(e, Ev::LibOpen(p, _) if *p == file()))));
    }
    if !persistent {
        check("removed", on_disk().is_none());
    }
    env::world(|w| {
        w.fail_create = false;
        w.fail_write = false;
        w.disk_left = usize::MAX;
        w.missing_libs.clear();
        w.missing_symbols.clear();
    });
    let s2 = serving(lib.clone());
    {
        let mut s = hd.borrow_mut();
        s.reply = s2.reply;
        s.status = 0;
    }
    let res = r.load_model(true);
    loaded(&res, &lib);
    cover("second attempt");
}
/// other responses around the library do not get into it
fn other_answers() {
    let n = [1, 13, 200, 70100][choose(4, "size") as usize];
    let before = flag("before");
    let after = flag("after");
    let lib = bytes(n, 4);
    let l2 = lib.clone();
    let mut sim = Sim::new();
    sim.reply = Some(Box::new(move |_, q| {
        if q.cmd != LOADLIB {
            return None;
        }
        let mut b = vec![];
        if before {
            b.extend(response(MOVE, 4000, &[0]));
        }
        let mut p = vec![0u8];
        p.extend(&l2);
        b.extend(response(LOADLIB, q.id, &p));
        if after {
            b.extend(response(MOVE, 4001, &[2]));
        }
        Some(b)
    }));
    sim.chunk = [0, 14, 1460][choose(3, "pieces") as usize];
    assume_quiet(B::c(sim.chunk != 14 || n < 1000));
    install(sim);
    let mut r = connect();
    let res = r.load_model(true);
    loaded(&res, &lib);
    check("kept-bytes", on_disk() == Some(lib));
    check("next-request", r.set_guiding_mode([true; 6], false).is_ok());
    cover("others");
}
