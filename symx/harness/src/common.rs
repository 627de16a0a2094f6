//! Driver and helpers shared by the contracts.
use std::collections::{BTreeMap, HashMap};
use std::time::Duration as StdDuration;
pub use symrt::*;

/// one contract: name, body, time budget, number of samples of the bounded stand-in
pub struct H {
    pub name: &'static str,
    /// functions of the repository whose contract this is
    pub about: &'static str,
    pub f: fn(),
    pub samples: u64,
    /// only in the thorough tier
    pub thorough_only: bool,
    /// statement of a bound, empty if there is none
    pub bound: &'static str,
    /// the induction certificates (contracts of the same property) that lift the bound
    pub by: &'static str,
}
pub fn h(name: &'static str, about: &'static str, f: fn()) -> H {
    H { name, about, f, samples: 300, thorough_only: false, bound: "", by: "" }
}
impl H {
    pub fn bound(mut self, b: &'static str) -> H {
        self.bound = b;
        self
    }
    pub fn by(mut self, b: &'static str) -> H {
        self.by = b;
        self
    }
    pub fn samples(mut self, n: u64) -> H {
        self.samples = n;
        self
    }
    pub fn thorough(mut self) -> H {
        self.thorough_only = true;
        self
    }
}

pub fn thorough() -> bool {
    std::env::var("SYMX_TIER").map_or(false, |t| t == "thorough")
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap<V>(m: &BTreeMap<String, V>, f: impl Fn(&V) -> String) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", js(k), f(v))).collect();
    format!("{{{}}}", v.join(","))
}
fn jfail(f: &Failure) -> String {
    let ch: Vec<String> = f
        .choices
        .iter()
        .map(|(l, v)| format!("[{},{}]", js(l), v))
        .collect();
    format!(
        "{{\"name\":{},\"values\":{},\"choices\":[{}],\"note\":{},\"reproduced\":{},\"model\":{}}}",
        js(&f.name),
        jmap(&f.values, |v| js(v)),
        ch.join(","),
        js(&f.note),
        f.reproduced,
        js(&f.smt_model)
    )
}
fn jobl(o: &Obl) -> String {
    let fs: Vec<String> = o.failures.iter().map(jfail).collect();
    format!(
        "{{\"generated\":{},\"trivial\":{},\"discharged\":{},\"unknown\":{},\"solver_s\":{:.4},\"backends\":{},\"failures\":[{}]}}",
        o.generated, o.trivial, o.discharged, o.unknown, o.solver_s,
        jmap(&o.backends, |v| v.to_string()),
        fs.join(",")
    )
}
fn jrep(r: &Report) -> String {
    format!(
        "{{\"harness\":{},\"paths\":{},\"aborted\":{},\"complete\":{},\"obligations\":{},\"covers\":{},\"feas_unknown\":{},\"solver_queries\":{},\"solver_s\":{:.3},\"samples\":{},\"wall_s\":{:.3}}}",
        js(&r.harness), r.paths, r.aborted, r.complete,
        jmap(&r.obls, jobl),
        jmap(&r.covers, |v| v.to_string()),
        r.feas_unknown, r.solver_queries, r.solver_s, r.samples, r.wall_s
    )
}

pub fn main(hs: Vec<H>) {
    symrt::die_with_parent();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("list");
    match cmd {
        "list" => {
            for x in &hs {
                if x.thorough_only && !thorough() {
                    continue;
                }
                println!("{}\t{}\t{}\t{}", x.name, x.about, x.bound, x.by);
            }
        }
        // run NAME BUDGET_S SEED
        "run" => {
            let x = hs.iter().find(|x| x.name == a[2]).expect("no such harness");
            let budget: u64 = a[3].parse().unwrap();
            let seed: u64 = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            let f = x.f;
            let rep = explore(x.name, x.name, &f, StdDuration::from_secs(budget), 2_000_000);
            let needs = !rep.complete
                || rep.obls.values().any(|o| o.unknown > 0)
                || rep
                    .obls
                    .values()
                    .any(|o| o.failures.iter().any(|f| !f.reproduced));
            // concrete runs: cross-check of the extraction and stand-in for what was not decided
            let n = if needs { x.samples * 10 } else { x.samples };
            let s = sample(
                x.name,
                x.name,
                &f,
                n,
                seed,
                StdDuration::from_secs(if needs { budget / 2 } else if x.bound.is_empty() { 5 } else { 12 }),
            );
            println!("{{\"explore\":{},\"sample\":{}}}", jrep(&rep), jrep(&s));
        }
        // sample NAME BUDGET_S SEED: bounded stand-in only
        "sample" => {
            let x = hs.iter().find(|x| x.name == a[2]).expect("no such harness");
            let budget: u64 = a[3].parse().unwrap();
            let seed: u64 = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            let f = x.f;
            let s = sample(x.name, x.name, &f, x.samples * 10, seed, StdDuration::from_secs(budget));
            println!("{{\"explore\":null,\"sample\":{}}}", jrep(&s));
        }
        // replay NAME FILE   (lines: "v name value" / "c label choice")
        "replay" => {
            let x = hs.iter().find(|x| x.name == a[2]).expect("no such harness");
            let mut vals = HashMap::new();
            let mut ch = vec![];
            for l in std::fs::read_to_string(&a[3]).unwrap().lines() {
                let p: Vec<&str> = l.split('\t').collect();
                match p.as_slice() {
                    ["v", n, v] => {
                        vals.insert(n.to_string(), v.to_string());
                    }
                    ["c", _, v] => ch.push(v.parse().unwrap()),
                    _ => {}
                }
            }
            let f = x.f;
            let fails = replay(x.name, &f, vals, ch);
            for (n, note) in &fails {
                println!("FAIL {} ({})", n, note);
            }
            if fails.is_empty() {
                println!("no failure");
            }
            std::process::exit(if fails.is_empty() { 0 } else { 1 });
        }
        _ => panic!("unknown command"),
    }
}

pub const DT: f64 = 1e-3;
pub const TOL: f64 = 1e-9;
pub fn l(x: f64) -> R {
    R::lit(x)
}
