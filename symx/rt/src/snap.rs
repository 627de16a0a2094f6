//! Complete pictures of the program state at loop heads, for the induction contracts.
//!
//! The extraction puts a call of `head` at every `while`/`loop` head, listing all variables in
//! scope, and derives `Snap` for every type of the repository. A type nothing is known about is
//! recorded as opaque; pictures with opaque parts prove nothing except where stated.
use crate::engine::B;
use crate::r::R;
use crate::z::{Duration, U128, U64, Z};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Debug;

#[derive(Clone, Debug, PartialEq)]
pub enum Leaf {
    R(R),
    Z(Z),
    Int(i128),
    Str(String),
    Opaque(&'static str),
}
impl Leaf {
    pub fn same(&self, o: &Leaf) -> B {
        match (self, o) {
            (Leaf::R(a), Leaf::R(b)) => {
                if a.same(*b) {
                    B::c(true)
                } else {
                    a.eq_b(*b)
                }
            }
            (Leaf::Z(a), Leaf::Z(b)) => a.eq_b(*b),
            (Leaf::Int(a), Leaf::Z(b)) | (Leaf::Z(b), Leaf::Int(a)) => b.eq_b(Z::C(*a)),
            (a, b) => B::c(a == b),
        }
    }
}
pub type Out = Vec<(String, Leaf)>;
#[derive(Clone, Debug)]
pub struct Head {
    pub site: &'static str,
    /// whatever the harness counted so far
    pub mark: usize,
    pub vars: Out,
}
pub trait Snap {
    fn snap(&self, p: &str, o: &mut Out);
}
impl<T: ?Sized> Snap for T {
    default fn snap(&self, p: &str, o: &mut Out) {
        o.push((p.to_string(), Leaf::Opaque(std::any::type_name::<T>())));
    }
}
macro_rules! ints { ($($t:ty),*) => { $(impl Snap for $t { fn snap(&self, p: &str, o: &mut Out) { o.push((p.to_string(), Leaf::Int(*self as i128))); } })* } }
ints!(u8, u16, u32, usize, i8, i16, i32, i64, isize, i128, bool, u64);
impl Snap for R {
    fn snap(&self, p: &str, o: &mut Out) {
        o.push((p.to_string(), Leaf::R(*self)));
    }
}
impl Snap for Z {
    fn snap(&self, p: &str, o: &mut Out) {
        o.push((p.to_string(), Leaf::Z(*self)));
    }
}
impl Snap for U64 {
    fn snap(&self, p: &str, o: &mut Out) {
        o.push((p.to_string(), Leaf::Z(self.z())));
    }
}
impl Snap for U128 {
    fn snap(&self, p: &str, o: &mut Out) {
        o.push((p.to_string(), Leaf::Z(self.z())));
    }
}
impl Snap for Duration {
    fn snap(&self, p: &str, o: &mut Out) {
        o.push((p.to_string(), Leaf::Z(self.ns())));
    }
}
macro_rules! strs { ($($t:ty),*) => { $(impl Snap for $t { fn snap(&self, p: &str, o: &mut Out) { o.push((p.to_string(), Leaf::Str(format!("{:?}", self)))); } })* } }
strs!(
    str,
    String,
    std::path::Path,
    std::path::PathBuf,
    std::net::SocketAddr,
    std::net::IpAddr,
    std::io::Error,
    ()
);
// stand-ins keep their state in the world, which the harness compares itself
macro_rules! units { ($($t:ty),*) => { $(impl Snap for $t { fn snap(&self, _: &str, _: &mut Out) {} })* } }
units!(
    crate::env::mio::Poll,
    crate::env::mio::net::TcpStream,
    crate::env::mio::net::UdpSocket,
    crate::env::mio::Token,
    crate::env::mio::event::Event,
    crate::env::net::TcpStream
);
/// events are overwritten by each poll before they are looked at
impl Snap for crate::env::mio::Events {
    fn snap(&self, _: &str, _: &mut Out) {}
}
impl Snap for crate::env::fs::File {
    fn snap(&self, p: &str, o: &mut Out) {
        o.push((p.to_string(), Leaf::Str(format!("{:?}", self))));
    }
}
impl<T> Snap for std::marker::PhantomData<T> {
    fn snap(&self, _: &str, _: &mut Out) {}
}
fn seq<'a, T: Snap + 'a>(i: impl ExactSizeIterator<Item = &'a T>, p: &str, o: &mut Out) {
    o.push((format!("{}.len", p), Leaf::Int(i.len() as i128)));
    for (k, x) in i.enumerate() {
        x.snap(&format!("{}[{}]", p, k), o);
    }
}
impl<T> Snap for Vec<T> {
    fn snap(&self, p: &str, o: &mut Out) {
        self.as_slice().snap(p, o);
    }
}
impl<T> Snap for [T] {
    default fn snap(&self, p: &str, o: &mut Out) {
        seq(self.iter(), p, o);
    }
}
impl Snap for [u8] {
    fn snap(&self, p: &str, o: &mut Out) {
        o.push((p.to_string(), Leaf::Str(format!("{:?}", self))));
    }
}
impl<T, const N: usize> Snap for [T; N] {
    fn snap(&self, p: &str, o: &mut Out) {
        self.as_slice().snap(p, o);
    }
}
impl<T> Snap for VecDeque<T> {
    fn snap(&self, p: &str, o: &mut Out) {
        seq(self.iter(), p, o);
    }
}
impl<T> Snap for Option<T> {
    fn snap(&self, p: &str, o: &mut Out) {
        o.push((format!("{}?", p), Leaf::Int(self.is_some() as i128)));
        if let Some(x) = self {
            x.snap(p, o);
        }
    }
}
impl<T, E> Snap for Result<T, E> {
    fn snap(&self, p: &str, o: &mut Out) {
        o.push((format!("{}?", p), Leaf::Int(self.is_ok() as i128)));
        match self {
            Ok(x) => x.snap(p, o),
            Err(x) => x.snap(p, o),
        }
    }
}
impl<T: ?Sized> Snap for Box<T> {
    fn snap(&self, p: &str, o: &mut Out) {
        (**self).snap(p, o);
    }
}
impl<'a, T: ?Sized> Snap for &'a T {
    fn snap(&self, p: &str, o: &mut Out) {
        (**self).snap(p, o);
    }
}
impl<'a, T: ?Sized> Snap for &'a mut T {
    fn snap(&self, p: &str, o: &mut Out) {
        (**self).snap(p, o);
    }
}
impl<K: Debug, V> Snap for HashMap<K, V> {
    fn snap(&self, p: &str, o: &mut Out) {
        let mut v: Vec<(String, &V)> = self.iter().map(|(k, v)| (format!("{:?}", k), v)).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        o.push((format!("{}.len", p), Leaf::Int(v.len() as i128)));
        for (k, x) in v {
            x.snap(&format!("{}[{}]", p, k), o);
        }
    }
}
impl<K: Debug, V> Snap for BTreeMap<K, V> {
    fn snap(&self, p: &str, o: &mut Out) {
        o.push((format!("{}.len", p), Leaf::Int(self.len() as i128)));
        for (k, x) in self {
            x.snap(&format!("{}[{:?}]", p, k), o);
        }
    }
}
macro_rules! tuples { ($(($($t:ident $i:tt),+)),*) => { $(impl<$($t),+> Snap for ($($t,)+) {
    fn snap(&self, p: &str, o: &mut Out) { $(self.$i.snap(&format!("{}.{}", p, $i), o);)+ }
})* } }
tuples!((A 0), (A 0, C 1), (A 0, C 1, D 2), (A 0, C 1, D 2, E 3));
impl<Rw, C, S> Snap for nalgebra::Matrix<R, Rw, C, S>
where
    Rw: nalgebra::Dim,
    C: nalgebra::Dim,
    S: nalgebra::storage::Storage<R, Rw, C>,
{
    fn snap(&self, p: &str, o: &mut Out) {
        for (k, x) in self.iter().enumerate() {
            x.snap(&format!("{}[{}]", p, k), o);
        }
    }
}

struct Rec {
    on: bool,
    mark: usize,
    heads: Vec<Head>,
}
thread_local! { static REC: RefCell<Rec> = RefCell::new(Rec { on: false, mark: 0, heads: vec![] }); }
/// called by the extracted code at each loop head
pub fn head(site: &'static str, f: impl FnOnce(&mut Out)) {
    if !REC.with(|r| r.borrow().on) {
        return;
    }
    let mut vars = vec![];
    f(&mut vars);
    // what lies unread in the sockets
    crate::env::world(|w| {
        let t: Vec<u8> = w.tcp.iter().copied().collect();
        t.as_slice().snap("(tcp)", &mut vars);
        for (k, d) in w.udp.iter().enumerate() {
            d.0.as_slice().snap(&format!("(udp{})", k), &mut vars);
        }
    });
    REC.with(|r| {
        let mut r = r.borrow_mut();
        let mark = r.mark;
        r.heads.push(Head { site, mark, vars });
    })
}
/// starts a recording
pub fn record() {
    REC.with(|r| *r.borrow_mut() = Rec { on: true, mark: 0, heads: vec![] })
}
pub fn mark(n: usize) {
    REC.with(|r| r.borrow_mut().mark = n)
}
/// number of heads recorded so far
pub fn seen() -> usize {
    REC.with(|r| r.borrow().heads.len())
}
/// ends it
pub fn recorded() -> Vec<Head> {
    REC.with(|r| std::mem::replace(&mut *r.borrow_mut(), Rec { on: false, mark: 0, heads: vec![] }).heads)
}
/// equality of two pictures as one formula; `None` if their shapes differ
pub fn same(a: &Out, b: &Out, skip: impl Fn(&str) -> bool) -> Result<B, String> {
    let fa: Vec<_> = a.iter().filter(|x| !skip(&x.0)).collect();
    let fb: Vec<_> = b.iter().filter(|x| !skip(&x.0)).collect();
    if fa.len() != fb.len() {
        return Err(format!("{} and {} parts", fa.len(), fb.len()));
    }
    let mut v = vec![];
    for (x, y) in fa.iter().zip(fb.iter()) {
        if x.0 != y.0 {
            return Err(format!("{} and {}", x.0, y.0));
        }
        if let Leaf::Opaque(t) = x.1 {
            // callbacks belong to the caller; of anything else nothing is known
            if !t.contains("{{closure}}") && !t.contains("FnMut") {
                return Err(format!("{}: nothing is known about {}", x.0, t));
            }
        }
        let e = x.1.same(&y.1);
        if let B::F = e {
            return Err(format!("{}: {:?} and {:?}", x.0, x.1, y.1));
        }
        v.push(e);
    }
    Ok(B::all(v))
}
