//! Stand-ins for everything outside the repository that the code under contract talks to: sockets,
//! files, scheduler, dynamic linker.  They record what they are asked to do (ghost state) and take
//! their answers from a `Server` that a harness supplies.
use crate::engine::Diverged;
use crate::r::R;
use crate::z::Z;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::net::SocketAddr;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Connect(SocketAddr),
    /// bytes the code wrote to the TCP connection
    TcpOut(Vec<u8>),
    UdpOut(Vec<u8>, SocketAddr),
    /// a datagram was taken out of the socket
    UdpIn(Vec<u8>),
    FileCreate(PathBuf),
    FileRemove(PathBuf),
    Sched(i32, i32),
    Mlock(i32),
    LibOpen(PathBuf, i32),
    ExistsQuery(PathBuf),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Tcp,
    Udp,
}
/// The other side of the wire (assumed contract of robot / gripper), supplied by the harness.
pub trait Server {
    /// one complete write of the client
    fn on_tcp(&mut self, w: &mut World, bytes: &[u8]);
    fn on_udp(&mut self, w: &mut World, bytes: &[u8], to: SocketAddr);
    /// the client waits for input on that socket (timeout in ns, None = forever)
    fn on_poll(&mut self, _w: &mut World, _k: Kind) {}
    /// the client looks, without waiting, whether a datagram is there
    fn on_udp_peek(&mut self, _w: &mut World) {}
}

#[derive(Clone, Debug)]
pub struct ModelCall {
    pub symbol: String,
    pub args: Vec<Vec<R>>,
}

pub struct World {
    pub tcp: VecDeque<u8>,
    pub tcp_edge: bool,
    /// a socket taken over from the standard library blocks unless it is told otherwise
    pub tcp_nonblocking: bool,
    pub udp: VecDeque<(Vec<u8>, SocketAddr)>,
    pub udp_edge: bool,
    pub log: Vec<Ev>,
    pub server: Option<Box<dyn Server>>,
    pub idle: u32,
    pub max_idle: u32,
    pub files: BTreeMap<PathBuf, Vec<u8>>,
    pub fail_create: bool,
    /// at most that many bytes are accepted by one call of write
    pub write_cap: usize,
    pub tcp_write_cap: usize,
    pub fail_write: bool,
    pub connect_fails: bool,
    pub udp_send_cap: Option<usize>,
    pub udp_send_fails: bool,
    pub realtime_kernel: bool,
    pub prio_max: i32,
    pub setsched_result: i32,
    pub mlock_result: i32,
    pub missing_symbols: BTreeSet<String>,
    pub missing_libs: BTreeSet<PathBuf>,
    pub model_calls: Vec<ModelCall>,
    /// contents of the file behind each library that was opened, at that moment
    pub opened: Vec<(PathBuf, Option<Vec<u8>>)>,
    /// bytes that still fit on the disk
    pub disk_left: usize,
    pub udp_port: u16,
    pub udp_recv_fails: bool,
    /// nanoseconds of a clock that only waiting and looking at it moves
    pub clock: i128,
    pub server_addr: SocketAddr,
}
impl World {
    pub fn new() -> World {
        World {
            tcp: VecDeque::new(),
            tcp_edge: false,
            tcp_nonblocking: false,
            udp: VecDeque::new(),
            udp_edge: false,
            log: vec![],
            server: None,
            idle: 0,
            max_idle: 40,
            files: BTreeMap::new(),
            fail_create: false,
            write_cap: usize::MAX,
            tcp_write_cap: usize::MAX,
            fail_write: false,
            connect_fails: false,
            udp_send_cap: None,
            udp_send_fails: false,
            realtime_kernel: false,
            prio_max: 99,
            setsched_result: 0,
            mlock_result: 0,
            missing_symbols: BTreeSet::new(),
            missing_libs: BTreeSet::new(),
            model_calls: vec![],
            opened: vec![],
            disk_left: usize::MAX,
            udp_port: 45678,
            udp_recv_fails: false,
            clock: 0,
            server_addr: "10.11.12.13:1338".parse().unwrap(),
        }
    }
    pub fn deliver_tcp(&mut self, b: &[u8]) {
        if !b.is_empty() {
            self.tcp.extend(b.iter());
            self.tcp_edge = true;
            self.idle = 0;
        }
    }
    pub fn deliver_udp(&mut self, b: Vec<u8>) {
        let a = self.server_addr;
        self.udp.push_back((b, a));
        self.udp_edge = true;
        self.idle = 0;
    }
    pub fn tcp_out(&self) -> Vec<Vec<u8>> {
        self.log
            .iter()
            .filter_map(|e| if let Ev::TcpOut(b) = e { Some(b.clone()) } else { None })
            .collect()
    }
    pub fn udp_out(&self) -> Vec<Vec<u8>> {
        self.log
            .iter()
            .filter_map(|e| if let Ev::UdpOut(b, _) = e { Some(b.clone()) } else { None })
            .collect()
    }
}
thread_local! { pub static WORLD: RefCell<World> = RefCell::new(World::new()); }
pub fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}
pub fn reset_world() {
    world(|w| *w = World::new())
}
/// calls into the harness' server without holding the world borrowed twice
fn serve(f: impl FnOnce(&mut dyn Server, &mut World)) {
    WORLD.with(|w| {
        let mut w = w.borrow_mut();
        if let Some(mut s) = w.server.take() {
            f(&mut *s, &mut w);
            w.server = Some(s);
        }
    })
}
/// a read from an empty blocking socket waits
fn block_on_tcp() {
    let mut n = 0;
    while world(|w| !w.tcp_nonblocking && w.tcp.is_empty()) {
        crate::snap::head("(waiting in a read)", |_| {});
        serve(|s, w| s.on_poll(w, Kind::Tcp));
        n += 1;
        if n > 40 {
            std::panic::panic_any(Diverged(
                "the code blocks in a read for bytes that never arrive".into(),
            ));
        }
    }
}
fn would_block() -> std::io::Error {
    std::io::Error::from(std::io::ErrorKind::WouldBlock)
}

pub fn exists(p: impl AsRef<Path>) -> bool {
    let p = p.as_ref();
    world(|w| {
        w.log.push(Ev::ExistsQuery(p.to_path_buf()));
        if p == Path::new("/sys/kernel/realtime") {
            w.realtime_kernel
        } else {
            w.files.contains_key(p)
        }
    })
}

pub mod time {
    pub use crate::z::Duration;
    use crate::z::Z;
    pub use std::time::SystemTime;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(i128);
    impl Instant {
        pub fn now() -> Instant {
            super::world(|w| {
                w.clock += 1_000;
                Instant(w.clock)
            })
        }
        pub fn elapsed(&self) -> Duration {
            Instant::now() - *self
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            *self - o
        }
        pub fn saturating_duration_since(&self, o: Instant) -> Duration {
            *self - o
        }
        pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
            if o.0 <= self.0 {
                Some(*self - o)
            } else {
                None
            }
        }
    }
    impl std::ops::Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            Duration(Z::C((self.0 - o.0).max(0)))
        }
    }
    impl std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d.0.concretize())
        }
    }
    impl std::ops::AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            *self = *self + d;
        }
    }
    impl std::ops::Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            Instant(self.0 - d.0.concretize())
        }
    }
}

pub mod thread {
    pub fn yield_now() {}
    pub fn sleep(d: crate::z::Duration) {
        if let crate::z::Z::C(ns) = d.0 {
            super::world(|w| w.clock += ns)
        }
    }
    pub use std::thread::current;
}

pub mod net {
    use super::*;
    pub use std::net::{
        AddrParseError, IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6,
        ToSocketAddrs,
    };
    #[derive(Debug)]
    pub struct TcpStream;
    impl TcpStream {
        pub fn connect<A: ToSocketAddrs>(a: A) -> std::io::Result<TcpStream> {
            let addr = a
                .to_socket_addrs()?
                .next()
                .ok_or_else(|| std::io::Error::from(std::io::ErrorKind::InvalidInput))?;
            world(|w| {
                w.log.push(Ev::Connect(addr));
                if w.connect_fails {
                    Err(std::io::Error::from(std::io::ErrorKind::ConnectionRefused))
                } else {
                    Ok(TcpStream)
                }
            })
        }
        pub fn connect_timeout(
            a: &SocketAddr,
            _t: crate::z::Duration,
        ) -> std::io::Result<TcpStream> {
            TcpStream::connect(*a)
        }
        pub fn set_nodelay(&self, _b: bool) -> std::io::Result<()> {
            Ok(())
        }
        pub fn set_nonblocking(&self, b: bool) -> std::io::Result<()> {
            world(|w| w.tcp_nonblocking = b);
            Ok(())
        }
    }
    impl std::os::unix::io::AsRawFd for TcpStream {
        fn as_raw_fd(&self) -> i32 {
            -1
        }
    }
}

pub mod mio {
    use super::*;
    pub use self::event::Event;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Token(pub usize);
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Interest(u8);
    impl Interest {
        pub const READABLE: Interest = Interest(1);
        pub const WRITABLE: Interest = Interest(2);
        pub fn add(self, o: Interest) -> Interest {
            Interest(self.0 | o.0)
        }
    }
    pub mod event {
        use super::super::Kind;
        use super::Token;
        #[derive(Clone, Debug)]
        pub struct Event(pub(crate) Token);
        impl Event {
            pub fn token(&self) -> Token {
                self.0
            }
            pub fn is_readable(&self) -> bool {
                true
            }
            pub fn is_writable(&self) -> bool {
                false
            }
            pub fn is_error(&self) -> bool {
                false
            }
            pub fn is_read_closed(&self) -> bool {
                false
            }
            pub fn is_write_closed(&self) -> bool {
                false
            }
        }
        pub trait Source {
            fn kind(&self) -> Kind;
        }
    }
    #[derive(Debug)]
    pub struct Events(Vec<Event>);
    impl Events {
        pub fn with_capacity(_n: usize) -> Events {
            Events(vec![])
        }
        pub fn iter(&self) -> std::slice::Iter<'_, Event> {
            self.0.iter()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn clear(&mut self) {
            self.0.clear()
        }
    }
    impl<'a> IntoIterator for &'a Events {
        type Item = &'a Event;
        type IntoIter = std::slice::Iter<'a, Event>;
        fn into_iter(self) -> Self::IntoIter {
            self.0.iter()
        }
    }
    #[derive(Debug)]
    pub struct Registry {
        reg: RefCell<Vec<(Kind, Token)>>,
    }
    impl Registry {
        pub fn register<S: event::Source + ?Sized>(
            &self,
            s: &mut S,
            t: Token,
            _i: Interest,
        ) -> std::io::Result<()> {
            self.reg.borrow_mut().push((s.kind(), t));
            Ok(())
        }
        pub fn reregister<S: event::Source + ?Sized>(
            &self,
            s: &mut S,
            t: Token,
            i: Interest,
        ) -> std::io::Result<()> {
            self.deregister(s)?;
            // registering anew reports data that is already there
            match s.kind() {
                Kind::Tcp => world(|w| w.tcp_edge = !w.tcp.is_empty()),
                Kind::Udp => world(|w| w.udp_edge = !w.udp.is_empty()),
            }
            self.register(s, t, i)
        }
        pub fn deregister<S: event::Source + ?Sized>(&self, s: &mut S) -> std::io::Result<()> {
            let k = s.kind();
            self.reg.borrow_mut().retain(|x| x.0 != k);
            Ok(())
        }
    }
    #[derive(Debug)]
    pub struct Poll {
        registry: Registry,
    }
    impl Poll {
        pub fn new() -> std::io::Result<Poll> {
            Ok(Poll {
                registry: Registry { reg: RefCell::new(vec![]) },
            })
        }
        pub fn registry(&self) -> &Registry {
            &self.registry
        }
        /// edge-triggered readiness, as mio documents it
        pub fn poll(
            &mut self,
            events: &mut Events,
            timeout: Option<crate::z::Duration>,
        ) -> std::io::Result<()> {
            // longer than ten minutes counts as for ever
            let forever = match timeout {
                None => true,
                Some(crate::z::Duration(crate::z::Z::C(ns))) => ns > 600_000_000_000,
                Some(_) => false,
            };
            loop {
                self.poll_once(events)?;
                if forever && events.0.is_empty() {
                    continue;
                }
                if events.0.is_empty() {
                    if let Some(crate::z::Duration(crate::z::Z::C(ns))) = timeout {
                        world(|w| w.clock += ns);
                    }
                }
                return Ok(());
            }
        }
        fn poll_once(&mut self, events: &mut Events) -> std::io::Result<()> {
            events.0.clear();
            let regs = self.registry.reg.borrow().clone();
            for (k, t) in regs {
                let pending = world(|w| match k {
                    Kind::Tcp => w.tcp_edge && !w.tcp.is_empty(),
                    Kind::Udp => w.udp_edge && !w.udp.is_empty(),
                });
                // bytes of a stream keep arriving while others wait to be read
                if !pending || k == Kind::Tcp {
                    serve(|s, w| s.on_poll(w, k));
                }
                let hit = world(|w| match k {
                    Kind::Tcp => {
                        let h = w.tcp_edge && !w.tcp.is_empty();
                        w.tcp_edge = false;
                        h
                    }
                    Kind::Udp => {
                        let h = w.udp_edge && !w.udp.is_empty();
                        w.udp_edge = false;
                        h
                    }
                });
                if hit {
                    events.0.push(Event(t));
                }
            }
            let stuck = world(|w| {
                // input and output reset this: without either nothing can change any more
                w.idle += 1;
                w.idle > w.max_idle
            });
            if stuck {
                std::panic::panic_any(Diverged(
                    "the code keeps waiting for input that never arrives".into(),
                ));
            }
            Ok(())
        }
    }
    pub mod net {
        use super::super::*;
        use super::event::Source;
        #[derive(Debug)]
        pub struct TcpStream;
        impl TcpStream {
            pub fn from_std(_s: crate::env::net::TcpStream) -> TcpStream {
                TcpStream
            }
            pub fn connect(a: SocketAddr) -> std::io::Result<TcpStream> {
                world(|w| w.tcp_nonblocking = true);
                crate::env::net::TcpStream::connect(a).map(|_| TcpStream)
            }
            pub fn peek(&self, buf: &mut [u8]) -> std::io::Result<usize> {
                block_on_tcp();
                world(|w| {
                    if w.tcp.is_empty() {
                        return Err(would_block());
                    }
                    let n = buf.len().min(w.tcp.len());
                    for (d, s) in buf.iter_mut().zip(w.tcp.iter()) {
                        *d = *s;
                    }
                    Ok(n)
                })
            }
            pub fn set_nodelay(&self, _b: bool) -> std::io::Result<()> {
                Ok(())
            }
            pub fn peer_addr(&self) -> std::io::Result<SocketAddr> {
                Ok(world(|w| w.server_addr))
            }
            pub fn local_addr(&self) -> std::io::Result<SocketAddr> {
                Ok("127.0.0.1:40000".parse().unwrap())
            }
            pub fn shutdown(&self, _h: std::net::Shutdown) -> std::io::Result<()> {
                Ok(())
            }
        }
        impl std::io::Read for TcpStream {
            fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                if !buf.is_empty() {
                    block_on_tcp();
                }
                world(|w| {
                    if w.tcp.is_empty() && !buf.is_empty() {
                        return Err(would_block());
                    }
                    let n = buf.len().min(w.tcp.len());
                    for d in buf[..n].iter_mut() {
                        *d = w.tcp.pop_front().unwrap();
                        w.idle = 0;
                    }
                    Ok(n)
                })
            }
        }
        impl std::io::Write for TcpStream {
            fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
                let n = world(|w| {
                    let n = buf.len().min(w.tcp_write_cap);
                    w.idle = 0;
                    w.log.push(Ev::TcpOut(buf[..n].to_vec()));
                    n
                });
                serve(|s, w| s.on_tcp(w, &buf[..n]));
                Ok(n)
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        impl std::os::unix::io::AsRawFd for TcpStream {
            fn as_raw_fd(&self) -> i32 {
                -1
            }
        }
        impl Source for TcpStream {
            fn kind(&self) -> Kind {
                Kind::Tcp
            }
        }
        #[derive(Debug)]
        pub struct UdpSocket;
        impl UdpSocket {
            pub fn bind(_a: SocketAddr) -> std::io::Result<UdpSocket> {
                Ok(UdpSocket)
            }
            pub fn from_std(_s: std::net::UdpSocket) -> UdpSocket {
                UdpSocket
            }
            pub fn local_addr(&self) -> std::io::Result<SocketAddr> {
                Ok(world(|w| {
                    SocketAddr::new(std::net::IpAddr::from([0, 0, 0, 0]), w.udp_port)
                }))
            }
            pub fn peek_from(&self, buf: &mut [u8]) -> std::io::Result<(usize, SocketAddr)> {
                serve(|s, w| s.on_udp_peek(w));
                world(|w| match w.udp.front() {
                    None => Err(would_block()),
                    Some((d, a)) => {
                        let n = d.len().min(buf.len());
                        buf[..n].copy_from_slice(&d[..n]);
                        Ok((n, *a))
                    }
                })
            }
            pub fn peek(&self, buf: &mut [u8]) -> std::io::Result<usize> {
                self.peek_from(buf).map(|x| x.0)
            }
            pub fn recv_from(&self, buf: &mut [u8]) -> std::io::Result<(usize, SocketAddr)> {
                world(|w| {
                    if w.udp_recv_fails && !w.udp.is_empty() {
                        w.udp.clear();
                        return Err(std::io::Error::from(std::io::ErrorKind::ConnectionReset));
                    }
                    match w.udp.pop_front() {
                        None => Err(would_block()),
                        Some((d, a)) => {
                            let n = d.len().min(buf.len());
                            buf[..n].copy_from_slice(&d[..n]);
                            w.log.push(Ev::UdpIn(d));
                            w.idle = 0;
                            Ok((n, a))
                        }
                    }
                })
            }
            pub fn recv(&self, buf: &mut [u8]) -> std::io::Result<usize> {
                self.recv_from(buf).map(|x| x.0)
            }
            pub fn send_to(&self, buf: &[u8], to: SocketAddr) -> std::io::Result<usize> {
                let n = world(|w| {
                    if w.udp_send_fails {
                        return Err(std::io::Error::from(std::io::ErrorKind::AddrNotAvailable));
                    }
                    let n = w.udp_send_cap.unwrap_or(usize::MAX).min(buf.len());
                    w.idle = 0;
                    w.log.push(Ev::UdpOut(buf[..n].to_vec(), to));
                    Ok(n)
                })?;
                serve(|s, w| s.on_udp(w, &buf[..n], to));
                Ok(n)
            }
            pub fn connect(&self, _a: SocketAddr) -> std::io::Result<()> {
                Ok(())
            }
        }
        impl Source for UdpSocket {
            fn kind(&self) -> Kind {
                Kind::Udp
            }
        }
        impl std::os::unix::io::AsRawFd for UdpSocket {
            fn as_raw_fd(&self) -> i32 {
                -1
            }
        }
    }
}

pub mod nix {
    #[derive(Debug)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "nix error")
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    pub mod sys {
        pub mod socket {
            pub fn setsockopt<O: sockopt::Opt>(_fd: i32, _o: O, _v: &O::Val) -> super::super::Result<()> {
                Ok(())
            }
            pub mod sockopt {
                pub trait Opt {
                    type Val;
                }
                macro_rules! opt { ($($n:ident: $t:ty),*) => { $(
                    #[derive(Clone, Copy, Debug)] pub struct $n;
                    impl Opt for $n { type Val = $t; } )* } }
                opt!(KeepAlive: bool, TcpKeepCount: u32, TcpKeepIdle: u32, TcpKeepInterval: u32,
                     TcpNoDelay: bool, ReuseAddr: bool, RcvBuf: usize, SndBuf: usize);
            }
        }
    }
}

#[allow(non_camel_case_types)]
pub mod libc {
    use super::*;
    pub type c_double = R;
    pub type c_int = i32;
    pub type c_uint = u32;
    pub type c_char = i8;
    pub type c_void = std::ffi::c_void;
    pub type pthread_t = u64;
    pub const RTLD_LAZY: i32 = 1;
    pub const RTLD_NOW: i32 = 2;
    pub const RTLD_GLOBAL: i32 = 0x100;
    pub const RTLD_LOCAL: i32 = 0;
    pub const SCHED_OTHER: i32 = 0;
    pub const SCHED_FIFO: i32 = 1;
    pub const SCHED_RR: i32 = 2;
    pub const MCL_CURRENT: i32 = 1;
    pub const MCL_FUTURE: i32 = 2;
    #[derive(Clone, Copy, Debug)]
    pub struct sched_param {
        pub sched_priority: i32,
    }
    pub unsafe fn sched_get_priority_max(_p: i32) -> i32 {
        world(|w| w.prio_max)
    }
    pub unsafe fn sched_get_priority_min(_p: i32) -> i32 {
        1
    }
    pub unsafe fn pthread_self() -> pthread_t {
        1
    }
    pub unsafe fn pthread_setschedparam(_t: pthread_t, policy: i32, p: *const sched_param) -> i32 {
        let prio = (*p).sched_priority;
        world(|w| {
            w.log.push(Ev::Sched(policy, prio));
            w.setsched_result
        })
    }
    pub unsafe fn sched_setscheduler(_pid: i32, policy: i32, p: *const sched_param) -> i32 {
        pthread_setschedparam(1, policy, p)
    }
    pub unsafe fn mlockall(f: i32) -> i32 {
        world(|w| {
            w.log.push(Ev::Mlock(f));
            w.mlock_result
        })
    }
}

pub mod fs {
    use super::*;
    #[derive(Debug)]
    pub struct File(PathBuf);
    impl File {
        pub fn create<P: AsRef<Path>>(p: P) -> std::io::Result<File> {
            let p = p.as_ref().to_path_buf();
            world(|w| {
                w.log.push(Ev::FileCreate(p.clone()));
                if w.fail_create {
                    return Err(std::io::Error::from(std::io::ErrorKind::PermissionDenied));
                }
                w.files.insert(p.clone(), vec![]);
                Ok(File(p))
            })
        }
        pub fn open<P: AsRef<Path>>(p: P) -> std::io::Result<File> {
            let p = p.as_ref().to_path_buf();
            world(|w| {
                if w.files.contains_key(&p) {
                    Ok(File(p))
                } else {
                    Err(std::io::Error::from(std::io::ErrorKind::NotFound))
                }
            })
        }
        pub fn sync_all(&self) -> std::io::Result<()> {
            Ok(())
        }
        pub fn sync_data(&self) -> std::io::Result<()> {
            Ok(())
        }
        pub fn options() -> OpenOptions {
            OpenOptions::new()
        }
        pub fn set_len(&self, n: u64) -> std::io::Result<()> {
            world(|w| w.files.entry(self.0.clone()).or_default().resize(n as usize, 0));
            Ok(())
        }
    }
    impl std::io::Write for File {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            world(|w| {
                if w.fail_write {
                    return Err(std::io::Error::from(std::io::ErrorKind::Other));
                }
                if w.disk_left == 0 && !b.is_empty() {
                    return Err(std::io::Error::from(std::io::ErrorKind::Other));
                }
                let n = b.len().min(w.write_cap).min(w.disk_left);
                if w.disk_left != usize::MAX {
                    w.disk_left -= n;
                }
                w.files.entry(self.0.clone()).or_default().extend_from_slice(&b[..n]);
                Ok(n)
            })
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    impl std::io::Read for File {
        /// reads from the start each time: enough for `read_to_end` on a fresh handle
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let d = world(|w| w.files.get(&self.0).cloned().unwrap_or_default());
            let at = READ_AT.with(|m| *m.borrow().get(&self.0).unwrap_or(&0)).min(d.len());
            let n = b.len().min(d.len() - at);
            b[..n].copy_from_slice(&d[at..at + n]);
            READ_AT.with(|m| m.borrow_mut().insert(self.0.clone(), if n == 0 { 0 } else { at + n }));
            Ok(n)
        }
    }
    thread_local! { static READ_AT: RefCell<BTreeMap<PathBuf, usize>> = RefCell::new(BTreeMap::new()); }
    #[derive(Clone, Debug, Default)]
    pub struct OpenOptions {
        create: bool,
        create_new: bool,
        truncate: bool,
    }
    impl OpenOptions {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn read(&mut self, _: bool) -> &mut Self {
            self
        }
        pub fn write(&mut self, _: bool) -> &mut Self {
            self
        }
        pub fn append(&mut self, _: bool) -> &mut Self {
            self
        }
        pub fn create(&mut self, b: bool) -> &mut Self {
            self.create = b;
            self
        }
        pub fn create_new(&mut self, b: bool) -> &mut Self {
            self.create_new = b;
            self
        }
        pub fn truncate(&mut self, b: bool) -> &mut Self {
            self.truncate = b;
            self
        }
        pub fn open<P: AsRef<Path>>(&self, p: P) -> std::io::Result<File> {
            let there = world(|w| w.files.contains_key(p.as_ref()));
            if there && self.create_new {
                return Err(std::io::Error::from(std::io::ErrorKind::AlreadyExists));
            }
            if there && !self.truncate {
                return File::open(p);
            }
            if there || self.create || self.create_new {
                return File::create(p);
            }
            Err(std::io::Error::from(std::io::ErrorKind::NotFound))
        }
    }
    pub fn read<P: AsRef<Path>>(p: P) -> std::io::Result<Vec<u8>> {
        world(|w| w.files.get(p.as_ref()).cloned())
            .ok_or_else(|| std::io::Error::from(std::io::ErrorKind::NotFound))
    }
    pub fn create_dir_all<P: AsRef<Path>>(_p: P) -> std::io::Result<()> {
        Ok(())
    }
    pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> std::io::Result<u64> {
        let d = read(p)?;
        write(q, &d)?;
        Ok(d.len() as u64)
    }
    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> std::io::Result<()> {
        let mut f = File::create(p)?;
        std::io::Write::write_all(&mut f, c.as_ref())
    }
    pub fn remove_file<P: AsRef<Path>>(p: P) -> std::io::Result<()> {
        let p = p.as_ref().to_path_buf();
        world(|w| {
            w.log.push(Ev::FileRemove(p.clone()));
            match w.files.remove(&p) {
                Some(_) => Ok(()),
                None => Err(std::io::Error::from(std::io::ErrorKind::NotFound)),
            }
        })
    }
    pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> std::io::Result<()> {
        world(|w| match w.files.remove(p.as_ref()) {
            Some(d) => {
                w.files.insert(q.as_ref().to_path_buf(), d);
                Ok(())
            }
            None => Err(std::io::Error::from(std::io::ErrorKind::NotFound)),
        })
    }
    pub fn metadata<P: AsRef<Path>>(p: P) -> std::io::Result<()> {
        if exists(p) {
            Ok(())
        } else {
            Err(std::io::Error::from(std::io::ErrorKind::NotFound))
        }
    }
}

pub mod libloading {
    use super::*;
    #[derive(Debug)]
    pub struct Error(pub String);
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl std::error::Error for Error {}

    /// value written by the stand-in of symbol `s` at output position `i`
    pub fn out_value(s: &str, i: usize) -> f64 {
        let k = SYMBOLS.iter().position(|x| *x == s).expect("symbol") as f64;
        k * 1000.0 + i as f64 + 0.25
    }
    pub const SYMBOLS: [&str; 30] = [
        "M_NE", "Ji_J_J1", "Ji_J_J2", "Ji_J_J3", "Ji_J_J4", "Ji_J_J5", "Ji_J_J6", "Ji_J_J7",
        "Ji_J_J8", "Ji_J_J9", "O_J_J1", "O_J_J2", "O_J_J3", "O_J_J4", "O_J_J5", "O_J_J6", "O_J_J7",
        "O_J_J8", "O_J_J9", "O_T_J1", "O_T_J2", "O_T_J3", "O_T_J4", "O_T_J5", "O_T_J6", "O_T_J7",
        "O_T_J8", "O_T_J9", "c_NE", "g_NE",
    ];
    unsafe fn rd(p: *const R, n: usize) -> Vec<R> {
        std::slice::from_raw_parts(p, n).to_vec()
    }
    unsafe fn finish(k: usize, args: Vec<Vec<R>>, out: *mut R, n: usize) {
        for i in 0..n {
            *out.add(i) = R::lit(out_value(SYMBOLS[k], i));
        }
        world(|w| {
            w.model_calls.push(ModelCall {
                symbol: SYMBOLS[k].to_string(),
                args,
            })
        });
    }
    unsafe extern "C" fn f_out<const K: usize, const N: usize>(out: *mut R) {
        finish(K, vec![], out, N)
    }
    unsafe extern "C" fn f_q<const K: usize, const N: usize>(q: *const R, out: *mut R) {
        finish(K, vec![rd(q, 7)], out, N)
    }
    unsafe extern "C" fn f_qt<const K: usize, const N: usize>(
        q: *const R,
        t: *const R,
        out: *mut R,
    ) {
        finish(K, vec![rd(q, 7), rd(t, 16)], out, N)
    }
    unsafe extern "C" fn f_mass<const K: usize, const N: usize>(
        q: *const R,
        i: *const R,
        m: R,
        x: *const R,
        out: *mut R,
    ) {
        finish(K, vec![rd(q, 7), rd(i, 9), vec![m], rd(x, 3)], out, N)
    }
    unsafe extern "C" fn f_cor<const K: usize, const N: usize>(
        q: *const R,
        dq: *const R,
        i: *const R,
        m: R,
        x: *const R,
        out: *mut R,
    ) {
        finish(K, vec![rd(q, 7), rd(dq, 7), rd(i, 9), vec![m], rd(x, 3)], out, N)
    }
    unsafe extern "C" fn f_grav<const K: usize, const N: usize>(
        q: *const R,
        g: *const R,
        m: R,
        x: *const R,
        out: *mut R,
    ) {
        finish(K, vec![rd(q, 7), rd(g, 3), vec![m], rd(x, 3)], out, N)
    }
    fn addr(k: usize) -> Option<usize> {
        macro_rules! q { ($n:expr; $($k:literal),*) => { match k { $($k => return Some(f_q::<$k, $n> as usize),)* _ => {} } } }
        q!(42; 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17);
        q!(16; 19, 20, 21, 22, 23, 24, 25, 26);
        Some(match k {
            0 => f_mass::<0, 49> as *const () as usize,
            1 => f_out::<1, 42> as *const () as usize,
            10 => f_out::<10, 42> as *const () as usize,
            9 => f_qt::<9, 42> as *const () as usize,
            18 => f_qt::<18, 42> as *const () as usize,
            27 => f_qt::<27, 16> as *const () as usize,
            28 => f_cor::<28, 7> as *const () as usize,
            29 => f_grav::<29, 7> as *const () as usize,
            _ => return None,
        })
    }
    pub mod os {
        pub mod unix {
            use super::super::*;
            #[derive(Debug)]
            pub struct Library(PathBuf);
            #[derive(Debug, Clone)]
            pub struct Symbol<T>(T);
            impl<T> std::ops::Deref for Symbol<T> {
                type Target = T;
                fn deref(&self) -> &T {
                    &self.0
                }
            }
            pub const RTLD_NOW: i32 = 2;
            pub const RTLD_LAZY: i32 = 1;
            pub const RTLD_GLOBAL: i32 = 0x100;
            pub const RTLD_LOCAL: i32 = 0;
            impl Library {
                pub unsafe fn open<P: AsRef<std::ffi::OsStr>>(
                    p: Option<P>,
                    flags: i32,
                ) -> Result<Library, Error> {
                    let p = PathBuf::from(p.expect("SYMX: library without name").as_ref());
                    world(|w| {
                        w.log.push(Ev::LibOpen(p.clone(), flags));
                        let d = w.files.get(&p).cloned();
                        w.opened.push((p.clone(), d));
                        if w.missing_libs.contains(&p) {
                            Err(Error("cannot open".into()))
                        } else {
                            Ok(Library(p))
                        }
                    })
                }
                pub unsafe fn new<P: AsRef<std::ffi::OsStr>>(p: P) -> Result<Library, Error> {
                    Library::open(Some(p), RTLD_LAZY)
                }
                pub unsafe fn get<T>(&self, name: &[u8]) -> Result<Symbol<T>, Error> {
                    let n = String::from_utf8_lossy(name)
                        .trim_end_matches('\0')
                        .to_string();
                    if self.0.to_string_lossy().starts_with("libm") {
                        return Err(Error("no such symbol in libm".into()));
                    }
                    if world(|w| w.missing_symbols.contains(&n)) {
                        return Err(Error(n));
                    }
                    match SYMBOLS.iter().position(|s| *s == n).and_then(addr) {
                        Some(a) => {
                            assert_eq!(std::mem::size_of::<T>(), std::mem::size_of::<usize>());
                            Ok(Symbol(std::mem::transmute_copy::<usize, T>(&a)))
                        }
                        None => Err(Error(n)),
                    }
                }
            }
        }
    }
}
