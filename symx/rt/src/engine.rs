//! Obligation generator: terms, path exploration, solver dialogue.
//!
//! A harness is an ordinary Rust function which calls the (mechanically extracted) code under
//! contract with symbolic arguments.  Every comparison of symbolic values that the code branches
//! on becomes a case split; every case is executed.  `check` emits one proof obligation
//! (path condition ==> condition) per case, which is handed to an SMT solver.
use crate::r::R;
use crate::z::Z;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Lt,
    Le,
    Eq,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum RNode {
    Var(u32),
    Add(R, R),
    Sub(R, R),
    Mul(R, R),
    Div(R, R),
    Neg(R),
    Sqrt(R),
    Ite(B, R, R),
    Uf(&'static str, Vec<R>),
    OfInt(Z),
    Floor(R),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum ZNode {
    Var(u32),
    Add(Z, Z),
    Sub(Z, Z),
    Mul(Z, Z),
    Div(Z, i128),
    Mod(Z, i128),
    Ite(B, Z, Z),
    OfReal(R),
    /// a billion times that number, taken to be whole
    Exact(R),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BNode {
    RCmp(Op, R, R),
    ZCmp(Op, Z, Z),
    Not(B),
    And(B, B),
    Or(B, B),
}
/// A symbolic truth value (specification side only; code under contract branches on real bools).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    T,
    F,
    N(u32),
}
impl B {
    pub fn c(b: bool) -> B {
        if b {
            B::T
        } else {
            B::F
        }
    }
    pub fn and(self, o: B) -> B {
        match (self, o) {
            (B::F, _) | (_, B::F) => B::F,
            (B::T, x) | (x, B::T) => x,
            _ => mkb(BNode::And(self, o)),
        }
    }
    pub fn or(self, o: B) -> B {
        match (self, o) {
            (B::T, _) | (_, B::T) => B::T,
            (B::F, x) | (x, B::F) => x,
            _ => mkb(BNode::Or(self, o)),
        }
    }
    pub fn not(self) -> B {
        match self {
            B::T => B::F,
            B::F => B::T,
            _ => mkb(BNode::Not(self)),
        }
    }
    pub fn implies(self, o: B) -> B {
        self.not().or(o)
    }
    pub fn all<I: IntoIterator<Item = B>>(i: I) -> B {
        i.into_iter().fold(B::T, |a, b| a.and(b))
    }
    pub fn any<I: IntoIterator<Item = B>>(i: I) -> B {
        i.into_iter().fold(B::F, |a, b| a.or(b))
    }
}
impl std::ops::BitAnd for B {
    type Output = B;
    fn bitand(self, o: B) -> B {
        self.and(o)
    }
}
impl std::ops::BitOr for B {
    type Output = B;
    fn bitor(self, o: B) -> B {
        self.or(o)
    }
}
impl std::ops::Not for B {
    type Output = B;
    fn not(self) -> B {
        B::not(self)
    }
}
impl From<bool> for B {
    fn from(b: bool) -> B {
        B::c(b)
    }
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub is_int: bool,
    pub lo: f64,
    pub hi: f64,
    pub zlo: i128,
    pub zhi: i128,
}

/// how values of variables are obtained
#[derive(Clone, Debug)]
pub enum Mode {
    Symbolic,
    /// replay of a counterexample: values by variable name, choices in order
    Replay(HashMap<String, String>, Vec<u32>),
    /// bounded stand-in: pseudo-random concrete values
    Sample(u64),
}

#[derive(Clone, Debug)]
pub struct Decision {
    pub taken: u32,
    pub rest: Vec<u32>,
    pub is_choice: bool,
    pub label: String,
}

#[derive(Clone, Debug, Default)]
pub struct Obl {
    pub generated: u64,
    pub trivial: u64,
    pub discharged: u64,
    pub backends: BTreeMap<String, u64>,
    pub solver_s: f64,
    pub unknown: u64,
    pub failures: Vec<Failure>,
}
#[derive(Clone, Debug)]
pub struct Failure {
    /// the query leaves functions (sin, acos ...) uninterpreted: without a concrete replay the
    /// model says nothing about the code
    pub abstracted: bool,
    pub name: String,
    pub values: BTreeMap<String, String>,
    pub choices: Vec<(String, u32)>,
    pub note: String,
    pub reproduced: bool,
    pub smt_model: String,
}

pub struct PathAbort(pub &'static str);
/// thrown by the environment when the code under contract keeps waiting although nothing more
/// will ever arrive
pub struct Diverged(pub String);

pub struct Ctx {
    pub rn: Vec<RNode>,
    pub zn: Vec<ZNode>,
    pub bn: Vec<BNode>,
    rmap: HashMap<RNode, u32>,
    zmap: HashMap<ZNode, u32>,
    bmap: HashMap<BNode, u32>,
    pub vars: Vec<VarInfo>,
    pub mode: Mode,
    pub decisions: Vec<Decision>,
    pub pos: usize,
    pub pc: Vec<B>,
    pub obls: BTreeMap<String, Obl>,
    pub covers: BTreeMap<String, u64>,
    pub note: String,
    solver: Option<Solver>,
    rng: u64,
    pub choice_pos: usize,
    pub concrete_fail: Vec<(String, String)>,
    pub cur_choices: Vec<(String, u32)>,
    pub feas_unknown: u64,
    pub feas_queries: u64,
    pub feas_s: f64,
    pub deadline: Option<Instant>,
    pub long_timeout_ms: u64,
    pub sampled_vals: BTreeMap<String, String>,
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::new());
}

struct Solver {
    child: Child,
    inp: ChildStdin,
    out: std::sync::mpsc::Receiver<String>,
    /// did not answer in time and has to be replaced
    dead: bool,
    emitted_r: HashSet<u32>,
    emitted_z: HashSet<u32>,
    emitted_b: HashSet<u32>,
    emitted_v: HashSet<u32>,
    emitted_uf: HashSet<String>,
    asserted: usize,
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// The end of this process ends what it started.
pub fn die_with_parent() {
    extern "C" {
        fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    }
    const PR_SET_PDEATHSIG: i32 = 1;
    unsafe { prctl(PR_SET_PDEATHSIG, 9, 0, 0, 0) };
}
fn solver_process(prog: &str) -> Command {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(prog);
    unsafe {
        c.pre_exec(|| {
            die_with_parent();
            Ok(())
        })
    };
    c
}

impl Solver {
    fn new() -> Solver {
        let mut child = solver_process("z3")
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3 not found");
        let inp = child.stdin.take().unwrap();
        let so: ChildStdout = child.stdout.take().unwrap();
        let (tx, out) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l.map(|l| tx.send(l)) {
                    Ok(Ok(())) => {}
                    _ => break,
                }
            }
        });
        Solver {
            child,
            inp,
            out,
            dead: false,
            emitted_r: HashSet::new(),
            emitted_z: HashSet::new(),
            emitted_b: HashSet::new(),
            emitted_v: HashSet::new(),
            emitted_uf: HashSet::new(),
            asserted: 0,
        }
    }
    fn reset(&mut self) {
        self.emitted_r.clear();
        self.emitted_z.clear();
        self.emitted_b.clear();
        self.emitted_v.clear();
        self.emitted_uf.clear();
        self.asserted = 0;
        self.send("(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n");
    }
    fn send(&mut self, s: &str) {
        if !self.dead && self.inp.write_all(s.as_bytes()).is_err() {
            self.dead = true;
        }
    }
    fn ask(&mut self, s: &str, wait_ms: u64) -> String {
        self.send(s);
        let _ = self.inp.flush();
        if self.dead {
            return "unknown".into();
        }
        loop {
            let l = match self.out.recv_timeout(Duration::from_millis(wait_ms)) {
                Ok(l) => l,
                Err(_) => {
                    // z3 does not always keep its own time limit
                    self.dead = true;
                    let _ = self.child.kill();
                    return "unknown".into();
                }
            };
            let t = l.trim();
            if t.is_empty() {
                continue;
            }
            if t.starts_with("(error") {
                panic!("z3 error: {}", t);
            }
            return t.to_string();
        }
    }
}

/// exact rational text of an f64
pub fn rat(x: f64) -> String {
    assert!(x.is_finite(), "non-finite constant in a term");
    if x == 0.0 {
        return "0.0".into();
    }
    if x.fract() == 0.0 && x.abs() < 9.0e15 {
        return if x < 0.0 {
            format!("(- {}.0)", -x as i64)
        } else {
            format!("{}.0", x as i64)
        };
    }
    let bits = x.to_bits();
    let neg = (bits >> 63) != 0;
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = bits & ((1u64 << 52) - 1);
    let (mut mant, mut exp) = if e == 0 { (m, -1074) } else { (m | (1u64 << 52), e - 1075) };
    while mant & 1 == 0 && mant != 0 {
        mant >>= 1;
        exp += 1;
    }
    let s = if exp >= 0 {
        format!("(* {}.0 {})", mant, pow2(exp as u32))
    } else {
        format!("(/ {}.0 {})", mant, pow2((-exp) as u32))
    };
    if neg {
        format!("(- {})", s)
    } else {
        s
    }
}
fn pow2(e: u32) -> String {
    // decimal big integer
    let mut d = vec![1u8];
    for _ in 0..e {
        let mut c = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + c;
            *x = v % 10;
            c = v / 10;
        }
        if c > 0 {
            d.push(c);
        }
    }
    let mut s: String = d.iter().rev().map(|x| (b'0' + x) as char).collect();
    s.push_str(".0");
    s
}

pub fn sanit(n: &str) -> String {
    format!("|{}|", n.replace('|', "_"))
}

/// emitted sets + text
#[derive(Default)]
struct Emit {
    r: HashSet<u32>,
    z: HashSet<u32>,
    b: HashSet<u32>,
    v: HashSet<u32>,
    uf: HashSet<String>,
    out: String,
    /// quotients and roots become arbitrary numbers (a weaker, easier query: unsat carries over)
    cut: bool,
    had_cut: bool,
}

impl Ctx {
    fn new() -> Ctx {
        Ctx {
            rn: vec![],
            zn: vec![],
            bn: vec![],
            rmap: HashMap::new(),
            zmap: HashMap::new(),
            bmap: HashMap::new(),
            vars: vec![],
            mode: Mode::Symbolic,
            decisions: vec![],
            pos: 0,
            pc: vec![],
            obls: BTreeMap::new(),
            covers: BTreeMap::new(),
            note: String::new(),
            solver: None,
            rng: 0x9E3779B97F4A7C15,
            choice_pos: 0,
            concrete_fail: vec![],
            cur_choices: vec![],
            feas_unknown: 0,
            feas_queries: 0,
            feas_s: 0.0,
            deadline: None,
            long_timeout_ms: if std::env::var("SYMX_TIER").map_or(false, |t| t == "thorough") {
                60000
            } else {
                10000
            },
            sampled_vals: BTreeMap::new(),
        }
    }
    pub fn symbolic(&self) -> bool {
        matches!(self.mode, Mode::Symbolic)
    }
    fn next_rand(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn begin_path(&mut self) {
        self.rn.clear();
        self.zn.clear();
        self.bn.clear();
        self.rmap.clear();
        self.zmap.clear();
        self.bmap.clear();
        self.vars.clear();
        self.pc.clear();
        self.pos = 0;
        self.choice_pos = 0;
        self.note.clear();
        self.cur_choices.clear();
        self.concrete_fail.clear();
        self.sampled_vals.clear();
        if let Some(s) = &mut self.solver {
            s.reset();
        }
    }

    fn em_var(&self, e: &mut Emit, v: u32) -> String {
        let info = &self.vars[v as usize];
        let n = sanit(&info.name);
        if e.v.insert(v) {
            e.out.push_str(&format!(
                "(declare-fun {} () {})\n",
                n,
                if info.is_int { "Int" } else { "Real" }
            ));
            if info.is_int {
                e.out.push_str(&format!(
                    "(assert (and (<= {} {}) (<= {} {})))\n",
                    zc(info.zlo),
                    n,
                    n,
                    zc(info.zhi)
                ));
            } else {
                if info.lo.is_finite() {
                    e.out.push_str(&format!("(assert (<= {} {}))\n", rat(info.lo), n));
                }
                if info.hi.is_finite() {
                    e.out.push_str(&format!("(assert (<= {} {}))\n", n, rat(info.hi)));
                }
            }
        }
        n
    }
    fn em_r(&self, e: &mut Emit, r: R) -> String {
        if let Some(c) = r.as_const() {
            return rat(c);
        }
        let i = r.idx();
        let nm = format!("r{}", i);
        if e.r.contains(&i) {
            return nm;
        }
        let node = self.rn[i as usize].clone();
        let body = match &node {
            RNode::Var(v) => {
                let n = self.em_var(e, *v);
                n
            }
            RNode::Add(a, b) => format!("(+ {} {})", self.em_r(e, *a), self.em_r(e, *b)),
            RNode::Sub(a, b) => format!("(- {} {})", self.em_r(e, *a), self.em_r(e, *b)),
            RNode::Mul(a, b) => format!("(* {} {})", self.em_r(e, *a), self.em_r(e, *b)),
            RNode::Div(a, b) => {
                if b.as_const().is_some() {
                    format!("(/ {} {})", self.em_r(e, *a), self.em_r(e, *b))
                } else {
                    // quotient as a fresh variable: q * b = a (b <> 0 is in the path condition)
                    if e.cut {
                        e.had_cut = true;
                        e.r.insert(i);
                        e.out.push_str(&format!("(declare-fun {nm} () Real)\n"));
                        return nm;
                    }
                    let a = self.em_r(e, *a);
                    let b = self.em_r(e, *b);
                    e.r.insert(i);
                    e.out.push_str(&format!(
                        "(declare-fun {nm} () Real)\n(assert (= (* {nm} {b}) {a}))\n"
                    ));
                    return nm;
                }
            }
            RNode::Neg(a) => format!("(- {})", self.em_r(e, *a)),
            RNode::Sqrt(a) => {
                if e.cut {
                    e.had_cut = true;
                    e.r.insert(i);
                    e.out.push_str(&format!(
                        "(declare-fun {nm} () Real)\n(assert (>= {nm} 0.0))\n"
                    ));
                    return nm;
                }
                let a = self.em_r(e, *a);
                e.r.insert(i);
                e.out.push_str(&format!(
                    "(declare-fun {nm} () Real)\n(assert (and (>= {nm} 0.0) (= (* {nm} {nm}) {a})))\n"
                ));
                return nm;
            }
            RNode::Ite(c, a, b) => format!(
                "(ite {} {} {})",
                self.em_b(e, *c),
                self.em_r(e, *a),
                self.em_r(e, *b)
            ),
            RNode::Uf(f, args) => {
                let a: Vec<String> = args.iter().map(|x| self.em_r(e, *x)).collect();
                let fname = format!("uf_{}", f);
                if e.uf.insert(fname.clone()) {
                    e.out.push_str(&format!(
                        "(declare-fun {} ({}) Real)\n",
                        fname,
                        vec!["Real"; args.len()].join(" ")
                    ));
                }
                let body = format!("({} {})", fname, a.join(" "));
                e.r.insert(i);
                e.out
                    .push_str(&format!("(define-fun {} () Real {})\n", nm, body));
                if *f == "sin" || *f == "cos" {
                    e.out.push_str(&format!(
                        "(assert (and (<= (- 1.0) {nm}) (<= {nm} 1.0)))\n"
                    ));
                }
                return nm;
            }
            RNode::OfInt(z) => format!("(to_real {})", self.em_z(e, *z)),
            RNode::Floor(a) => format!("(to_real (to_int {}))", self.em_r(e, *a)),
        };
        e.r.insert(i);
        e.out
            .push_str(&format!("(define-fun {} () Real {})\n", nm, body));
        nm
    }
    fn em_z(&self, e: &mut Emit, z: Z) -> String {
        let i = match z {
            Z::C(c) => return zc(c),
            Z::N(i) => i,
        };
        let nm = format!("z{}", i);
        if e.z.contains(&i) {
            return nm;
        }
        let node = self.zn[i as usize].clone();
        let body = match &node {
            ZNode::Var(v) => self.em_var(e, *v),
            ZNode::Add(a, b) => format!("(+ {} {})", self.em_z(e, *a), self.em_z(e, *b)),
            ZNode::Sub(a, b) => format!("(- {} {})", self.em_z(e, *a), self.em_z(e, *b)),
            ZNode::Mul(a, b) => format!("(* {} {})", self.em_z(e, *a), self.em_z(e, *b)),
            ZNode::Div(a, b) => format!("(div {} {})", self.em_z(e, *a), zc(*b)),
            ZNode::Mod(a, b) => format!("(mod {} {})", self.em_z(e, *a), zc(*b)),
            ZNode::Ite(c, a, b) => format!(
                "(ite {} {} {})",
                self.em_b(e, *c),
                self.em_z(e, *a),
                self.em_z(e, *b)
            ),
            ZNode::Exact(r) => format!("(to_int (* {} 1000000000.0))", self.em_r(e, *r)),
            ZNode::OfReal(r) => {
                let r = self.em_r(e, *r);
                format!("(ite (>= {r} 0.0) (to_int {r}) (- (to_int (- {r}))))")
            }
        };
        e.z.insert(i);
        e.out
            .push_str(&format!("(define-fun {} () Int {})\n", nm, body));
        nm
    }
    fn em_b(&self, e: &mut Emit, b: B) -> String {
        let i = match b {
            B::T => return "true".into(),
            B::F => return "false".into(),
            B::N(i) => i,
        };
        let nm = format!("b{}", i);
        if e.b.contains(&i) {
            return nm;
        }
        let node = self.bn[i as usize].clone();
        let body = match &node {
            BNode::RCmp(op, a, b) => {
                format!("({} {} {})", ops(*op), self.em_r(e, *a), self.em_r(e, *b))
            }
            BNode::ZCmp(op, a, b) => {
                format!("({} {} {})", ops(*op), self.em_z(e, *a), self.em_z(e, *b))
            }
            BNode::Not(a) => format!("(not {})", self.em_b(e, *a)),
            BNode::And(a, b) => format!("(and {} {})", self.em_b(e, *a), self.em_b(e, *b)),
            BNode::Or(a, b) => format!("(or {} {})", self.em_b(e, *a), self.em_b(e, *b)),
        };
        e.b.insert(i);
        e.out
            .push_str(&format!("(define-fun {} () Bool {})\n", nm, body));
        nm
    }

    /// push everything asserted so far into the incremental session and emit `b`
    fn session_emit(&mut self, b: B) -> String {
        if self.solver.is_none() {
            let mut s = Solver::new();
            s.reset();
            self.solver = Some(s);
        }
        let mut s = self.solver.take().unwrap();
        let mut e = Emit {
            r: std::mem::take(&mut s.emitted_r),
            z: std::mem::take(&mut s.emitted_z),
            b: std::mem::take(&mut s.emitted_b),
            v: std::mem::take(&mut s.emitted_v),
            uf: std::mem::take(&mut s.emitted_uf),
            out: String::new(),
            cut: false,
            had_cut: false,
        };
        while s.asserted < self.pc.len() {
            let c = self.pc[s.asserted];
            let n = self.em_b(&mut e, c);
            e.out.push_str(&format!("(assert {})\n", n));
            s.asserted += 1;
        }
        let n = self.em_b(&mut e, b);
        s.emitted_r = e.r;
        s.emitted_z = e.z;
        s.emitted_b = e.b;
        s.emitted_v = e.v;
        s.emitted_uf = e.uf;
        s.send(&e.out);
        self.solver = Some(s);
        n
    }
    fn session_sat(&mut self, b: B, timeout_ms: u64) -> String {
        let n = self.session_emit(b);
        let s = self.solver.as_mut().unwrap();
        let t = Instant::now();
        let r = s.ask(&format!(
            "(push)\n(assert {})\n(set-option :timeout {})\n(check-sat)\n",
            n, timeout_ms
        ), timeout_ms + timeout_ms / 2);
        if s.dead {
            self.solver = None;
        }
        self.feas_s += t.elapsed().as_secs_f64();
        self.feas_queries += 1;
        r
    }
    fn session_pop(&mut self) {
        if let Some(s) = self.solver.as_mut() {
            s.send("(pop)\n");
        }
    }
    fn session_model(&mut self) -> (BTreeMap<String, String>, String) {
        let names: Vec<(u32, String)> = {
            let s = self.solver.as_ref().unwrap();
            let mut v: Vec<u32> = s.emitted_v.iter().cloned().collect();
            v.sort();
            v.into_iter()
                .map(|i| (i, self.vars[i as usize].name.clone()))
                .collect()
        };
        let mut m = BTreeMap::new();
        let mut raw = String::new();
        for (_, n) in &names {
            let s = self.solver.as_mut().unwrap();
            let l = s.ask(&format!("(get-value ({}))\n", sanit(n)), 3000);
            raw.push_str(&l);
            raw.push('\n');
            if let Some(v) = parse_value(&l) {
                m.insert(n.clone(), v);
            }
        }
        (m, raw)
    }

    /// pc /\ b without the definitions of quotients and roots: true if even that is unsatisfiable
    fn cut_unsat(&self, b: B, ms: u64) -> bool {
        let mut e = Emit { cut: true, ..Default::default() };
        for c in &self.pc {
            let n = self.em_b(&mut e, *c);
            e.out.push_str(&format!("(assert {})\n", n));
        }
        let n = self.em_b(&mut e, b);
        e.out.push_str(&format!("(assert {})\n(check-sat)\n", n));
        e.had_cut && one_shot(&e.out, ms) == "unsat"
    }
    fn nonneg(&self, r: R) -> bool {
        if let Some(c) = r.as_const() {
            return c >= 0.0;
        }
        match &self.rn[r.idx() as usize] {
            RNode::Mul(a, b) => a == b || (self.nonneg(*a) && self.nonneg(*b)),
            RNode::Add(a, b) | RNode::Div(a, b) => self.nonneg(*a) && self.nonneg(*b),
            RNode::Sqrt(_) => true,
            RNode::Ite(_, a, b) => self.nonneg(*a) && self.nonneg(*b),
            RNode::Var(v) => {
                let i = &self.vars[*v as usize];
                !i.is_int && i.lo >= 0.0
            }
            _ => false,
        }
    }
    /// s is a sum of non-negative terms, one of which is v squared
    fn square_in(&self, s: R, v: R) -> bool {
        if s.as_const().is_some() {
            return false;
        }
        match &self.rn[s.idx() as usize] {
            RNode::Mul(a, b) => a == b && *a == v,
            RNode::Add(a, b) => {
                (self.square_in(*a, v) && self.nonneg(*b)) || (self.square_in(*b, v) && self.nonneg(*a))
            }
            _ => false,
        }
    }
    /// what follows from the path condition by looking at it
    fn evident(&self, b: B) -> Option<bool> {
        let i = match b {
            B::T => return Some(true),
            B::F => return Some(false),
            B::N(i) => i,
        };
        if self.pc.contains(&b) {
            return Some(true);
        }
        match &self.bn[i as usize] {
            BNode::Not(x) => return self.evident(*x).map(|v| !v),
            BNode::RCmp(op, x, y) => {
                if *op == Op::Lt && y.as_const().map_or(false, |c| c <= 0.0) && self.nonneg(*x) {
                    return Some(false);
                }
                if *op == Op::Le && x.as_const().map_or(false, |c| c <= 0.0) && self.nonneg(*y) {
                    return Some(true);
                }
                if *op == Op::Lt || *op == Op::Le {
                    // x is zero
                    let (v, c, swapped) = match (x.as_const(), y.as_const()) {
                        (Some(c), None) => (*y, c, true),
                        (None, Some(c)) => (*x, c, false),
                        _ => (*x, f64::NAN, false),
                    };
                    let z = !c.is_nan() && self.pc.iter().any(|p| match p {
                        B::N(k) => matches!(&self.bn[*k as usize],
                            BNode::RCmp(Op::Eq, a, b) if (*a == v && b.as_const() == Some(0.0)) || (*b == v && a.as_const() == Some(0.0))),
                        _ => false,
                    });
                    if z {
                        let (a, b) = if swapped { (c, 0.0) } else { (0.0, c) };
                        return Some(if *op == Op::Lt { a < b } else { a <= b });
                    }
                }
                if *op == Op::Eq {
                    let v = match (x.as_const(), y.as_const()) {
                        (Some(c), None) if c == 0.0 => Some(*y),
                        (None, Some(c)) if c == 0.0 => Some(*x),
                        _ => None,
                    };
                    if let Some(v) = v {
                        let pos = self.pc.iter().any(|p| match p {
                            B::N(k) => matches!(&self.bn[*k as usize],
                                BNode::RCmp(Op::Lt, a, b) if *b == v && a.as_const().map_or(false, |c| c >= 0.0)),
                            _ => false,
                        });
                        if pos {
                            return Some(false);
                        }
                        // a vanishing norm makes every component vanish
                        let zero = self.pc.iter().any(|p| match p {
                            B::N(k) => match &self.bn[*k as usize] {
                                BNode::RCmp(Op::Eq, a, b) => {
                                    let n = if b.as_const() == Some(0.0) { *a } else if a.as_const() == Some(0.0) { *b } else { return false };
                                    n.as_const().is_none() && match &self.rn[n.idx() as usize] {
                                        RNode::Sqrt(q) => self.square_in(*q, v),
                                        _ => self.square_in(n, v),
                                    }
                                }
                                _ => false,
                            },
                            _ => false,
                        });
                        if zero {
                            return Some(true);
                        }
                    }
                }
            }
            _ => {}
        }
        // the negation is known
        if self.pc.iter().any(|p| match p {
            B::N(k) => matches!(&self.bn[*k as usize], BNode::Not(x) if *x == b),
            _ => false,
        }) {
            return Some(false);
        }
        None
    }

    /// stand-alone query text for pc /\ not cond
    pub fn query_text(&self, cond: B) -> String {
        let mut e = Emit::default();
        for c in &self.pc {
            let n = self.em_b(&mut e, *c);
            e.out.push_str(&format!("(assert {})\n", n));
        }
        let n = self.em_b(&mut e, cond);
        e.out.push_str(&format!("(assert (not {}))\n", n));
        e.out
    }
}

fn zc(c: i128) -> String {
    if c < 0 {
        format!("(- {})", (c as i128).unsigned_abs())
    } else {
        format!("{}", c)
    }
}
fn ops(o: Op) -> &'static str {
    match o {
        Op::Lt => "<",
        Op::Le => "<=",
        Op::Eq => "=",
    }
}

/// parses `((|x| (- (/ 1.0 3.0))))` to a decimal string usable as f64 / integer
pub fn parse_value(l: &str) -> Option<String> {
    let l = l.trim();
    let inner = l.strip_prefix("((")?.strip_suffix("))")?;
    let inner = inner.trim();
    let rest = if let Some(r) = inner.strip_prefix('|') {
        let e = r.find('|')?;
        &r[e + 1..]
    } else {
        let e = inner.find(' ')?;
        &inner[e..]
    };
    let v = eval_sexp(rest.trim())?;
    Some(v)
}
fn eval_sexp(s: &str) -> Option<String> {
    let s = s.trim();
    if let Some(x) = s.strip_prefix("(-") {
        let x = x.strip_suffix(')')?;
        let v = eval_sexp(x)?;
        return Some(if let Some(p) = v.strip_prefix('-') {
            p.to_string()
        } else {
            format!("-{}", v)
        });
    }
    if let Some(x) = s.strip_prefix("(/") {
        let x = x.strip_suffix(')')?.trim();
        // split the two operands
        let mut depth = 0;
        let mut cut = None;
        for (i, c) in x.char_indices() {
            match c {
                '(' => depth += 1,
                ')' => depth -= 1,
                ' ' if depth == 0 => {
                    cut = Some(i);
                    break;
                }
                _ => {}
            }
        }
        let i = cut?;
        let a: f64 = eval_sexp(&x[..i])?.parse().ok()?;
        let b: f64 = eval_sexp(&x[i..])?.parse().ok()?;
        return Some(format!("{:?}", a / b));
    }
    let s = s.trim_end_matches('?');
    if s.chars().all(|c| c.is_ascii_digit() || c == '.' || c == 'e' || c == '-') && !s.is_empty() {
        return Some(s.to_string());
    }
    None
}

macro_rules! with {
    (|$c:ident| $e:expr) => {
        CTX.with(|cc| {
            let $c = &mut *cc.borrow_mut();
            $e
        })
    };
}

/// term tables compare terms structurally (outside of them `==` on `R` is a case split)
struct Structural;
impl Structural {
    fn on() -> Structural {
        crate::r::IN_TABLE.with(|t| t.set(true));
        Structural
    }
}
impl Drop for Structural {
    fn drop(&mut self) {
        crate::r::IN_TABLE.with(|t| t.set(false));
    }
}
pub fn mkr(n: RNode) -> R {
    with!(|c| {
        let _g = Structural::on();
        if let Some(i) = c.rmap.get(&n) {
            return R::node(*i);
        }
        let i = c.rn.len() as u32;
        c.rn.push(n.clone());
        c.rmap.insert(n, i);
        R::node(i)
    })
}
pub fn mkz(n: ZNode) -> Z {
    with!(|c| {
        let _g = Structural::on();
        if let Some(i) = c.zmap.get(&n) {
            return Z::N(*i);
        }
        let i = c.zn.len() as u32;
        c.zn.push(n.clone());
        c.zmap.insert(n, i);
        Z::N(i)
    })
}
pub fn mkb(n: BNode) -> B {
    with!(|c| {
        let _g = Structural::on();
        if let Some(i) = c.bmap.get(&n) {
            return B::N(*i);
        }
        let i = c.bn.len() as u32;
        c.bn.push(n.clone());
        c.bmap.insert(n, i);
        B::N(i)
    })
}

fn abort(s: &'static str) -> ! {
    std::panic::panic_any(PathAbort(s))
}

/// Decide a condition the code under contract branches on.
thread_local! {
    static TICKS: std::cell::Cell<(u64, f64)> = const { std::cell::Cell::new((0, 0.0)) };
}
fn cpu_seconds() -> f64 {
    extern "C" {
        fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
    }
    const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
    let mut t = [0i64; 2];
    unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t[0] as f64 + t[1] as f64 * 1e-9
}
/// one run of a contract takes this much time at most before its computations count as endless
const ENDLESS: f64 = 40.0;
fn tick() {
    let (n, t) = TICKS.with(|c| c.get());
    TICKS.with(|c| c.set((n + 1, t)));
    if n % 16384 == 16383 {
        let late = with!(|c| if c.symbolic() { Some(c.deadline.map_or(false, |d| Instant::now() > d)) } else { None });
        match late {
            Some(true) => std::panic::panic_any(PathAbort("deadline")),
            None if cpu_seconds() - t > ENDLESS => std::panic::panic_any(Diverged("computes for ever".into())),
            _ => {}
        }
    }
}
pub fn branch(b: B) -> bool {
    match b {
        B::T => {
            tick();
            true
        }
        B::F => {
            tick();
            false
        }
        B::N(_) => {
            let r: Result<bool, &'static str> = with!(|c| {
                assert!(c.symbolic(), "symbolic branch in concrete mode");
                if let Some(d) = c.deadline {
                    if Instant::now() > d {
                        return Err("deadline");
                    }
                }
                {
                    let _g = Structural::on();
                    if let Some(v) = c.evident(b) {
                        return Ok(v);
                    }
                }
                if c.pos < c.decisions.len() {
                    let t = c.decisions[c.pos].taken == 1;
                    c.pos += 1;
                    let cond = if t { b } else { neg_in(c, b) };
                    c.pc.push(cond);
                    return Ok(t);
                }
                let nb = neg_in(c, b);
                let feasible = |c: &mut Ctx, x: B| {
                    if c.cut_unsat(x, 300) {
                        return "unsat".to_string();
                    }
                    // an undecided branch is explored; more than a moment is not worth it
                    let r = c.session_sat(x, if c.feas_unknown > 4 { 250 } else { 1500 });
                    c.session_pop();
                    r
                };
                let rt = feasible(c, b);
                let rf = if rt == "unsat" {
                    "sat".to_string()
                } else {
                    feasible(c, nb)
                };
                if std::env::var("SYMX_BR").is_ok() {
                    eprintln!("branch {:?} -> {} / {}", b, rt, rf);
                    if let B::N(i) = b {
                        eprintln!("   {:?}", c.bn[i as usize]);
                    }
                }
                if rt == "unknown" || rf == "unknown" {
                    c.feas_unknown += 1;
                }
                let (t, rest) = match (rt != "unsat", rf != "unsat") {
                    (true, true) => (true, vec![0]),
                    (true, false) => (true, vec![]),
                    (false, _) => (false, vec![]),
                };
                c.decisions.push(Decision {
                    taken: t as u32,
                    rest,
                    is_choice: false,
                    label: String::new(),
                });
                c.pos += 1;
                c.pc.push(if t { b } else { nb });
                Ok(t)
            });
            match r {
                Ok(b) => b,
                Err(m) => abort(m),
            }
        }
    }
}
fn neg_in(c: &mut Ctx, b: B) -> B {
    match b {
        B::T => B::F,
        B::F => B::T,
        _ => {
            let n = BNode::Not(b);
            let _g = Structural::on();
        if let Some(i) = c.bmap.get(&n) {
                return B::N(*i);
            }
            let i = c.bn.len() as u32;
            c.bn.push(n.clone());
            c.bmap.insert(n, i);
            B::N(i)
        }
    }
}

/// Finite nondeterministic choice, explored exhaustively.
pub fn choose(n: u32, label: &str) -> u32 {
    assert!(n > 0);
    let r: Result<u32, &'static str> = with!(|c| {
        if let Some(d) = c.deadline {
            if Instant::now() > d {
                return Err("deadline");
            }
        }
        let v = match c.mode.clone() {
            Mode::Symbolic => {
                if c.pos < c.decisions.len() {
                    let t = c.decisions[c.pos].taken;
                    c.pos += 1;
                    t
                } else {
                    c.decisions.push(Decision {
                        taken: 0,
                        rest: (1..n).rev().collect(),
                        is_choice: true,
                        label: label.to_string(),
                    });
                    c.pos += 1;
                    0
                }
            }
            Mode::Replay(_, ch) => {
                let v = ch.get(c.choice_pos).cloned().unwrap_or(0);
                c.choice_pos += 1;
                v.min(n - 1)
            }
            Mode::Sample(_) => (c.next_rand() % n as u64) as u32,
        };
        c.cur_choices.push((label.to_string(), v));
        Ok(v)
    });
    match r {
        Ok(v) => v,
        Err(m) => abort(m),
    }
}
pub fn flag(label: &str) -> bool {
    choose(2, label) == 1
}

/// A fresh real input in [lo, hi] (infinite bounds = unconstrained).
pub fn real_in(name: &str, lo: f64, hi: f64) -> R {
    enum O {
        Sym(u32),
        Val(f64),
    }
    let o = with!(|c| match c.mode.clone() {
        Mode::Symbolic => {
            let i = c.vars.len() as u32;
            assert!(
                c.vars.iter().all(|v| v.name != name),
                "duplicate variable {}",
                name
            );
            c.vars.push(VarInfo {
                name: name.to_string(),
                is_int: false,
                lo,
                hi,
                zlo: 0,
                zhi: 0,
            });
            O::Sym(i)
        }
        Mode::Replay(m, _) => {
            let v: f64 = m
                .get(name)
                .and_then(|s| s.parse().ok())
                .unwrap_or_else(|| 0f64.max(lo).min(hi));
            O::Val(v.max(lo).min(hi))
        }
        Mode::Sample(_) => {
            let k = c.next_rand();
            let u = (c.next_rand() >> 11) as f64 / (1u64 << 53) as f64;
            let (l, h) = (
                if lo.is_finite() { lo } else { -1000.0 },
                if hi.is_finite() { hi } else { 1000.0 },
            );
            let v = match k % 8 {
                0 => l,
                1 => h,
                2 => 0f64.max(l).min(h),
                3 => {
                    let s = 10f64.powi(-((k >> 8) as i32 % 8));
                    (l + (h - l) * u) * s
                }
                _ => l + (h - l) * u,
            };
            let v = v.max(l).min(h);
            c.sampled_vals.insert(name.to_string(), format!("{:?}", v));
            O::Val(v)
        }
    });
    match o {
        O::Sym(i) => mkr(RNode::Var(i)),
        O::Val(v) => R::lit(v),
    }
}
pub fn real(name: &str) -> R {
    real_in(name, f64::NEG_INFINITY, f64::INFINITY)
}
pub fn reals<const N: usize>(name: &str, lo: f64, hi: f64) -> [R; N] {
    std::array::from_fn(|i| real_in(&format!("{}[{}]", name, i), lo, hi))
}
/// A fresh integer input in [lo, hi].
pub fn int_in(name: &str, lo: i128, hi: i128) -> Z {
    enum O {
        Sym(u32),
        Val(i128),
    }
    let o = with!(|c| match c.mode.clone() {
        Mode::Symbolic => {
            let i = c.vars.len() as u32;
            assert!(
                c.vars.iter().all(|v| v.name != name),
                "duplicate variable {}",
                name
            );
            c.vars.push(VarInfo {
                name: name.to_string(),
                is_int: true,
                lo: 0.0,
                hi: 0.0,
                zlo: lo,
                zhi: hi,
            });
            O::Sym(i)
        }
        Mode::Replay(m, _) => {
            let v: i128 = m
                .get(name)
                .and_then(|s| s.trim_end_matches(".0").parse().ok())
                .unwrap_or(0);
            O::Val(v.max(lo).min(hi))
        }
        Mode::Sample(_) => {
            let k = c.next_rand();
            let u = c.next_rand() as i128;
            let span = hi - lo;
            let v = match k % 4 {
                0 => lo + (u % 8).min(span),
                1 => hi - (u % 8).min(span),
                _ => lo + if span > 0 { u % (span + 1) } else { 0 },
            };
            c.sampled_vals.insert(name.to_string(), format!("{}", v));
            O::Val(v)
        }
    });
    match o {
        O::Sym(i) => mkz(ZNode::Var(i)),
        O::Val(v) => Z::C(v),
    }
}

/// Precondition / assumption.
pub fn assume(b: B) {
    match b {
        B::T => {}
        B::F => abort("assume"),
        B::N(_) => {
            let dead = with!(|c| {
                c.pc.push(b);
                if c.pos < c.decisions.len() {
                    false
                } else {
                    let r = c.session_sat(B::T, 1500);
                    c.session_pop();
                    r == "unsat"
                }
            });
            if dead {
                abort("assume")
            }
        }
    }
}
/// assumption added without a feasibility query
pub fn assume_quiet(b: B) {
    match b {
        B::T => {}
        B::F => abort("assume"),
        B::N(_) => with!(|c| c.pc.push(b)),
    }
}

pub fn note(s: &str) {
    with!(|c| {
        c.note.push_str(s);
        c.note.push_str("; ");
    })
}
/// Reachability record (guards against vacuity).
pub fn cover(name: &str) {
    with!(|c| *c.covers.entry(name.to_string()).or_insert(0) += 1)
}

fn choices_of(c: &Ctx) -> Vec<(String, u32)> {
    c.cur_choices.clone()
}

/// Proof obligation: under the path condition, `cond` holds.
pub fn check(name: &str, cond: impl Into<B>) {
    let cond: B = cond.into();
    with!(|c| {
        if !c.symbolic() {
            *c.covers.entry(format!("concrete:{}", name)).or_insert(0) += 1;
            match cond {
                B::T => {}
                B::F => {
                    let n = c.note.clone();
                    c.concrete_fail.push((name.to_string(), n))
                }
                B::N(_) => panic!("symbolic condition in concrete mode"),
            }
            return;
        }
        let o = c.obls.entry(name.to_string()).or_default();
        o.generated += 1;
        if o.failures.len() >= 3 {
            return;
        }
        if cond == B::T {
            o.trivial += 1;
            o.discharged += 1;
            *o.backends.entry("constant-folding".into()).or_insert(0) += 1;
            return;
        }
        let seen_unknown = o.unknown;
        if let Some(d) = c.deadline {
            if Instant::now() > d {
                c.obls.get_mut(name).unwrap().unknown += 1;
                return;
            }
        }
        // an obligation the solvers could not decide before gets less time the next times
        let (short_ms, long_ms) = match seen_unknown {
            0 | 1 => (2500, c.long_timeout_ms),
            2..=7 => (1000, 3000),
            _ => (500, 1000),
        };
        let t = Instant::now();
        let nc = neg_in(c, cond);
        let mut r = c.session_sat(nc, short_ms);
        let mut backend = "z3".to_string();
        let mut model = None;
        if r == "sat" {
            model = Some(c.session_model());
        }
        c.session_pop();
        if r == "unknown" {
            let q = c.query_text(cond);
            let (rr, be, m) = portfolio(&q, long_ms, &c.vars);
            r = rr;
            backend = be;
            if r == "sat" {
                model = Some(m);
            }
        }
        let el = t.elapsed().as_secs_f64();
        let choices = choices_of(c);
        let note = c.note.clone();
        let abstracted = r == "sat" && c.query_text(cond).contains("uf_");
        let o = c.obls.get_mut(name).unwrap();
        o.solver_s += el;
        match r.as_str() {
            "unsat" => {
                o.discharged += 1;
                *o.backends.entry(backend).or_insert(0) += 1;
            }
            "sat" => {
                let (values, raw) = model.unwrap();
                o.failures.push(Failure {
                    abstracted: abstracted,
                    name: name.to_string(),
                    values,
                    choices,
                    note,
                    reproduced: false,
                    smt_model: raw,
                });
            }
            _ => {
                o.unknown += 1;
                if std::env::var("SYMX_DUMP").is_ok() {
                    let q = c.query_text(cond);
                    let _ = std::fs::write(
                        format!("/tmp/symx_{}_{}.smt2", name.replace('/', "_"), std::process::id()),
                        format!("{}(check-sat)\n", q),
                    );
                }
            }
        }
    })
}

fn one_shot(q: &str, ms: u64) -> String {
    let mut ch = match solver_process("z3")
        .args(["-in", "-smt2", &format!("-t:{}", ms)])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return "unknown".into(),
    };
    let _ = ch.stdin.take().unwrap().write_all(q.as_bytes());
    let t = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(_)) => break,
            Ok(None) if t.elapsed() > Duration::from_millis(ms + 500) => {
                let _ = ch.kill();
                let _ = ch.wait();
                return "unknown".into();
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    }
    let mut s = String::new();
    let _ = std::io::Read::read_to_string(&mut ch.stdout.take().unwrap(), &mut s);
    s.lines().find(|l| *l == "sat" || *l == "unsat").unwrap_or("unknown").to_string()
}

/// runs the external solvers concurrently on one query
fn portfolio(
    q: &str,
    timeout_ms: u64,
    vars: &[VarInfo],
) -> (String, String, (BTreeMap<String, String>, String)) {
    let mut names: Vec<String> = vec![];
    for v in vars {
        if q.contains(&format!("(declare-fun {} ()", sanit(&v.name))) {
            names.push(v.name.clone());
        }
    }
    let tail = {
        let mut t = String::from("(check-sat)\n");
        for n in &names {
            t.push_str(&format!("(get-value ({}))\n", sanit(n)));
        }
        t
    };
    let secs = (timeout_ms + 999) / 1000;
    let z3opts = "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n";
    let mut logic = String::from("QF_NRA");
    if q.contains(" Int") {
        logic = "ALL".into();
    } else if q.contains("uf_") {
        logic = "QF_UFNRA".into();
    }
    let dir = std::env::temp_dir().join(format!("symx_{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let qa = format!("{}(set-logic {})\n{}{}", z3opts, logic, q, tail);
    let qb = format!("{}{}{}", z3opts, q, tail);
    let qc = format!(
        "(set-option :produce-models true)\n(set-logic {})\n{}{}",
        if logic == "ALL" { "ALL" } else { &logic },
        q,
        tail
    );
    let specs: Vec<(&str, Vec<String>, String)> = vec![
        ("z3", vec![format!("-T:{}", secs), "-smt2".into()], qa.clone()),
        ("z3-new", vec![format!("-T:{}", secs), "-smt2".into()], qb),
        (
            "cvc5",
            vec![format!("--tlimit={}", timeout_ms), "--nl-cov".into()],
            qc,
        ),
    ];
    let mut kids = vec![];
    for (k, (prog, args, text)) in specs.into_iter().enumerate() {
        let f = dir.join(format!("q{}.smt2", k));
        let of = dir.join(format!("q{}.out", k));
        std::fs::write(&f, &text).unwrap();
        let out = std::fs::File::create(&of).unwrap();
        if let Ok(ch) = solver_process(prog)
            .args(&args)
            .arg(&f)
            .stdin(Stdio::null())
            .stdout(out)
            .stderr(Stdio::null())
            .spawn()
        {
            kids.push((prog.to_string(), ch, of, false));
        }
    }
    let start = Instant::now();
    let mut res = ("unknown".to_string(), "none".to_string(), (BTreeMap::new(), String::new()));
    'outer: loop {
        let mut live = false;
        for (p, ch, of, done) in kids.iter_mut() {
            if *done {
                continue;
            }
            match ch.try_wait() {
                Ok(Some(_)) => {
                    *done = true;
                    let s = std::fs::read_to_string(&of).unwrap_or_default();
                    let first = s.lines().find(|l| *l == "sat" || *l == "unsat");
                    match first {
                        Some("unsat") => {
                            res = ("unsat".into(), p.clone(), (BTreeMap::new(), String::new()));
                            break 'outer;
                        }
                        Some("sat") => {
                            let mut m = BTreeMap::new();
                            let vals: Vec<&str> =
                                s.lines().filter(|l| l.starts_with("((")).collect();
                            for (n, l) in names.iter().zip(vals) {
                                if let Some(v) = parse_value(l) {
                                    m.insert(n.clone(), v);
                                }
                            }
                            res = ("sat".into(), p.clone(), (m, s.clone()));
                            break 'outer;
                        }
                        _ => {}
                    }
                }
                Ok(None) => live = true,
                Err(_) => *done = true,
            }
        }
        if !live || start.elapsed() > Duration::from_millis(timeout_ms + 3000) {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for (_, ch, _, done) in kids.iter_mut() {
        if !*done {
            let _ = ch.kill();
            let _ = ch.wait();
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    res
}

/// Runs code under contract; a panic of that code is an outcome, not an error of the harness.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<PathAbort>() || p.is::<Diverged>() {
                std::panic::resume_unwind(p);
            }
            Err(msg_of(&p))
        }
    }
}
pub fn msg_of(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

#[derive(Debug, Default, Clone)]
pub struct Report {
    pub harness: String,
    pub paths: u64,
    pub aborted: u64,
    pub complete: bool,
    pub obls: BTreeMap<String, Obl>,
    pub covers: BTreeMap<String, u64>,
    pub feas_unknown: u64,
    pub solver_queries: u64,
    pub solver_s: f64,
    pub samples: u64,
    pub wall_s: f64,
}

fn run_once(f: &dyn Fn(), pfx: &str) -> Result<(), &'static str> {
    TICKS.with(|c| c.set((0, cpu_seconds())));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
    match r {
        Ok(()) => Ok(()),
        Err(p) => {
            if let Some(a) = p.downcast_ref::<PathAbort>() {
                return Err(a.0);
            }
            if let Some(d) = p.downcast_ref::<Diverged>() {
                let m = format!("does not end: {}", d.0);
                note(&m);
                check(&format!("{}.terminates", pfx), B::F);
                return Ok(());
            }
            let m = msg_of(&p);
            if m.starts_with("SYMX") || m.starts_with("z3") {
                eprintln!("{}", m);
                std::process::exit(3);
            }
            note(&format!("unexpected panic: {}", m));
            check(&format!("{}.no-unexpected-panic", pfx), B::F);
            Ok(())
        }
    }
}

/// Explores every case of the harness; then replays every counterexample concretely.
pub fn explore(harness: &str, pfx: &str, f: &dyn Fn(), budget: Duration, max_paths: u64) -> Report {
    let t0 = Instant::now();
    std::panic::set_hook(Box::new(|_| {}));
    with!(|c| {
        c.obls.clear();
        c.covers.clear();
        c.decisions.clear();
        c.mode = Mode::Symbolic;
        c.feas_unknown = 0;
        c.feas_queries = 0;
        c.feas_s = 0.0;
        c.deadline = Some(Instant::now() + budget);
    });
    let mut rep = Report {
        harness: harness.to_string(),
        complete: true,
        ..Default::default()
    };
    loop {
        with!(|c| c.begin_path());
        let r = run_once(f, pfx);
        match r {
            Ok(()) => rep.paths += 1,
            Err("deadline") => {
                rep.complete = false;
                break;
            }
            Err("narrowed") => {
                rep.complete = false;
                rep.aborted += 1;
            }
            Err(_) => rep.aborted += 1,
        }
        let more = with!(|c| {
            c.decisions.truncate(c.pos);
            loop {
                match c.decisions.last_mut() {
                    None => break false,
                    Some(d) => {
                        if let Some(n) = d.rest.pop() {
                            d.taken = n;
                            break true;
                        }
                        c.decisions.pop();
                    }
                }
            }
        });
        if !more {
            break;
        }
        if rep.paths + rep.aborted >= max_paths {
            rep.complete = false;
            break;
        }
    }
    let (obls, covers) = with!(|c| {
        rep.feas_unknown = c.feas_unknown;
        rep.solver_queries = c.feas_queries;
        rep.solver_s = c.feas_s;
        c.deadline = None;
        (c.obls.clone(), c.covers.clone())
    });
    rep.obls = obls;
    rep.covers = covers;
    // concrete replay of every counterexample on the code
    let mut fixed = rep.obls.clone();
    for (name, o) in rep.obls.iter() {
        for (k, fl) in o.failures.iter().enumerate() {
            let vals: HashMap<String, String> =
                fl.values.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
            let ch: Vec<u32> = fl.choices.iter().map(|x| x.1).collect();
            with!(|c| {
                c.mode = Mode::Replay(vals, ch);
                c.decisions.clear();
                c.begin_path();
            });
            let _ = run_once(f, pfx);
            let hit = with!(|c| c.concrete_fail.iter().any(|x| x.0 == *name));
            fixed.get_mut(name).unwrap().failures[k].reproduced = hit;
        }
    }
    for o in fixed.values_mut() {
        let n = o.failures.len();
        o.failures.retain(|f| f.reproduced || !f.abstracted);
        o.unknown += (n - o.failures.len()) as u64;
    }
    rep.obls = fixed;
    with!(|c| c.mode = Mode::Symbolic);
    rep.wall_s = t0.elapsed().as_secs_f64();
    rep
}

/// Bounded stand-in / counterexample search: runs the harness on concrete inputs.
pub fn sample(harness: &str, pfx: &str, f: &dyn Fn(), n: u64, seed: u64, budget: Duration) -> Report {
    let t0 = Instant::now();
    std::panic::set_hook(Box::new(|_| {}));
    let mut rep = Report {
        harness: harness.to_string(),
        complete: true,
        ..Default::default()
    };
    with!(|c| {
        c.obls.clear();
        c.covers.clear();
        c.deadline = None;
        c.rng = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xA5A5_5A5A_1234_5678;
        c.mode = Mode::Sample(seed);
    });
    for _ in 0..n {
        if t0.elapsed() > budget {
            rep.complete = false;
            break;
        }
        with!(|c| {
            c.decisions.clear();
            c.begin_path();
        });
        let r = run_once(f, pfx);
        if r.is_ok() {
            rep.samples += 1;
        } else {
            rep.aborted += 1;
        }
        with!(|c| {
            let fails = std::mem::take(&mut c.concrete_fail);
            for (nm, note) in fails {
                let o = c.obls.entry(nm.clone()).or_default();
                if o.failures.is_empty() {
                    o.failures.push(Failure {
                        abstracted: false,
                        name: nm,
                        values: c.sampled_vals.clone(),
                        choices: c.cur_choices.clone(),
                        note,
                        reproduced: true,
                        smt_model: String::new(),
                    });
                }
            }
        });
    }
    let (o, cv) = with!(|c| (c.obls.clone(), c.covers.clone()));
    rep.obls = o;
    rep.covers = cv;
    with!(|c| c.mode = Mode::Symbolic);
    rep.wall_s = t0.elapsed().as_secs_f64();
    rep
}

/// Replays one stored counterexample; returns the failing obligation names with notes.
pub fn replay(
    pfx: &str,
    f: &dyn Fn(),
    vals: HashMap<String, String>,
    ch: Vec<u32>,
) -> Vec<(String, String)> {
    std::panic::set_hook(Box::new(|_| {}));
    with!(|c| {
        c.mode = Mode::Replay(vals, ch);
        c.decisions.clear();
        c.deadline = None;
        c.begin_path();
    });
    let _ = run_once(f, pfx);
    with!(|c| c.concrete_fail.clone())
}
pub fn is_symbolic() -> bool {
    with!(|c| c.symbolic())
}
