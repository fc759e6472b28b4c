//! A virtual OS for one thread: UDP sockets, clock and sleeping, entirely decided by the scenario.
//!
//! The `extern "C"` functions at the end override libc's at link time, so the unmodified
//! `std::net::UdpSocket`, `socket2` and `std::time::Instant` used by the code under test act on the
//! world installed on the current thread. Threads without a world get the real system calls.
use libc::{c_int, c_void, sockaddr, socklen_t, ssize_t};
use std::cell::Cell;
use std::collections::VecDeque;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::time::Duration;

const FD0: c_int = 1_000_000;
pub const MS: u64 = 1_000_000;
pub const S: u64 = 1_000_000_000;
const EPOCH: u64 = 1_000 * S;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Socket { sock: usize, v6: bool },
    Bind { sock: usize, addr: SocketAddr },
    Opt { sock: usize, level: i32, name: i32, val: Vec<u8> },
    Send { t: u64, sock: usize, to: SocketAddr, data: Vec<u8> },
    SendFail { t: u64, errno: i32 },
    Recv { t: u64, sock: usize, from: SocketAddr, len: usize },
    Timeout { t: u64, sock: usize },
    RecvFail { t: u64, errno: i32 },
    Sleep { t: u64, d: u64 },
    Close { sock: usize },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Arrival {
    pub at: u64,
    pub from: SocketAddr,
    pub data: Vec<u8>,
    /// Only receivable by this socket (a datagram for a closed socket is lost).
    pub sock: Option<usize>,
    /// Instead of a datagram: an error the next receive call from then on reports.
    pub errno: Option<i32>,
    /// Address it was sent to: only sockets bound to that port and address, or that joined that
    /// group, receive it. `None`: any socket does.
    pub dst: Option<SocketAddr>,
}
impl Arrival {
    pub fn new(at: u64, from: SocketAddr, data: Vec<u8>) -> Self {
        Arrival { at, from, data, sock: None, errno: None, dst: None }
    }
    pub fn error(at: u64, errno: i32) -> Self {
        Arrival { at, from: SocketAddr::from(([0, 0, 0, 0], 0)), data: vec![], sock: None, errno: Some(errno), dst: None }
    }
}

struct Sock {
    v6: bool,
    bound: Option<SocketAddr>,
    peer: Option<SocketAddr>,
    rcvtimeo: u64,
    nonblocking: bool,
    open: u32,
    reuse: bool,
    /// Joined groups, and whether on the interface the network is at (else only the loopback).
    groups: Vec<(IpAddr, bool)>,
    looped: bool,
    /// Whether what it sends to a group leaves the host.
    far: [bool; 2],
    /// Whether the port was left to the system to choose.
    ephemeral: bool,
}

/// What the network does with a datagram the code sends: may schedule arrivals.
pub type Responder<'a> = Box<dyn FnMut(&mut Net, usize, SocketAddr, SocketAddr, &[u8]) + 'a>;

/// The part of the world a responder may touch.
pub struct Net {
    pub now: u64,
    pub queue: VecDeque<Arrival>,
}
impl Net {
    /// Adds an arrival, keeping the queue ordered by time, first come first served among equals.
    pub fn push(&mut self, a: Arrival) {
        let i = self.queue.partition_point(|x| x.at <= a.at);
        self.queue.insert(i, a);
    }
}

/// The address of the virtual host on the network.
pub const HOST: Ipv4Addr = Ipv4Addr::new(192, 0, 2, 1);
pub const HOST6: Ipv6Addr = Ipv6Addr::new(0x2001, 0xdb8, 0, 0, 0, 0, 0, 1);

pub struct World<'a> {
    pub net: Net,
    socks: Vec<Sock>,
    fds: Vec<Option<usize>>,
    /// First descriptor of this world: sockets that outlive their world never hit another one's.
    base: c_int,
    pub log: Vec<Ev>,
    pub responder: Option<Responder<'a>>,
    /// (n, errno): the n-th receive call (0-based) fails with errno.
    pub recv_err: Option<(usize, i32)>,
    pub send_err: Option<(usize, i32)>,
    /// (n, d): the n-th send finds the socket not writable for d nanoseconds (a blocking one waits).
    pub send_block: Option<(usize, u64)>,
    send_blocked_until: u64,
    pub bind_err: Option<i32>,
    /// (n, errno): the n-th call that sets a socket up (socket, bind, setsockopt, ...) fails.
    pub setup_err: Option<(usize, i32)>,
    /// The calls that set sockets up, in order.
    pub setup_calls: Vec<&'static str>,
    pub setup_failed: Option<&'static str>,
    /// Sockets of other programs on this host, and whether they allow address reuse.
    pub others: Vec<(SocketAddr, bool)>,
    pub recv_calls: usize,
    pub send_calls: usize,
    pub recv_taken: usize,
    /// Error returned when a socket would wait forever: the end of the scenario.
    pub end_errno: i32,
    pub ended: bool,
    pub calls: usize,
    pub horizon: usize,
    /// Time that passes with every clock reading (models the cost of computing).
    pub tick: u64,
    /// How much later than asked for every timer fires.
    pub late: u64,
    pub dropped: usize,
}

thread_local! {
    static W: Cell<*mut World<'static>> = const { Cell::new(std::ptr::null_mut()) };
    static BASES: Cell<c_int> = const { Cell::new(0) };
}

impl<'a> Default for World<'a> {
    fn default() -> Self {
        Self::new()
    }
}
impl<'a> World<'a> {
    pub fn new() -> Self {
        World {
            net: Net { now: 0, queue: VecDeque::new() },
            socks: vec![],
            fds: vec![],
            base: BASES.with(|b| {
                b.set((b.get() + 1) % 100_000);
                FD0 + b.get() * 4096
            }),
            log: vec![],
            responder: None,
            recv_err: None,
            send_err: None,
            send_block: None,
            send_blocked_until: 0,
            bind_err: None,
            setup_err: None,
            setup_calls: vec![],
            setup_failed: None,
            others: vec![],
            recv_calls: 0,
            send_calls: 0,
            recv_taken: 0,
            end_errno: libc::EIO,
            ended: false,
            calls: 0,
            horizon: 20_000,
            tick: 0,
            late: 0,
            dropped: 0,
        }
    }
    pub fn now(&self) -> u64 {
        self.net.now
    }
    pub fn arrive(&mut self, at: u64, from: SocketAddr, data: Vec<u8>) {
        self.net.push(Arrival::new(at, from, data));
    }
    pub fn sends(&self) -> Vec<(u64, SocketAddr, Vec<u8>)> {
        self.log
            .iter()
            .filter_map(|e| match e {
                Ev::Send { t, to, data, .. } => Some((*t, *to, data.clone())),
                _ => None,
            })
            .collect()
    }
    /// Runs `f` with this world installed on the current thread.
    pub fn run<R>(&mut self, f: impl FnOnce() -> R) -> R {
        struct Restore(*mut World<'static>);
        impl Drop for Restore {
            fn drop(&mut self) {
                W.with(|w| w.set(self.0));
            }
        }
        let p = self as *mut World<'a> as *mut World<'static>;
        let _r = Restore(W.with(|w| w.replace(p)));
        f()
    }
    /// Next moment at which something already scheduled becomes receivable or sendable.
    pub fn next_event(&self) -> Option<u64> {
        let a = self.net.queue.front().map(|a| a.at); // ordered by time
        let b = (self.send_blocked_until > self.net.now).then_some(self.send_blocked_until);
        match (a, b) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        }
    }
    /// When the given descriptor's socket is readable / writable, if ever (as far as is scheduled).
    pub fn ready_at(&mut self, fd: i32, write: bool) -> Option<u64> {
        let s = self.sock(fd)?;
        if write {
            return Some(self.send_blocked_until.max(self.net.now));
        }
        let i = self.deliverable(s, u64::MAX)?;
        Some(self.net.queue[i].at.max(self.net.now))
    }
    /// How much longer sends find their socket not writable.
    pub fn send_blocked(&self) -> Option<u64> {
        (self.send_blocked_until > self.net.now).then(|| self.send_blocked_until - self.net.now)
    }
    fn call(&mut self) {
        self.calls += 1;
        if self.calls > self.horizon {
            crate::explore::fatal_here("livelock: the operation keeps using the socket or clock without ever finishing");
        }
    }
    fn sock(&mut self, fd: c_int) -> Option<usize> {
        usize::try_from(fd - self.base).ok().and_then(|i| self.fds.get(i).copied().flatten())
    }
    fn new_fd(&mut self, s: usize) -> c_int {
        self.fds.push(Some(s));
        self.base + self.fds.len() as c_int - 1
    }
    /// A set-up call: fails if the scenario says so.
    fn setup(&mut self, what: &'static str) -> Result<(), i32> {
        self.call();
        let n = self.setup_calls.len();
        self.setup_calls.push(what);
        if let Some((k, e)) = self.setup_err {
            if k == n {
                self.setup_failed = Some(what);
                return Err(e);
            }
        }
        Ok(())
    }
    /// Whether a datagram sent to `dst` reaches the socket.
    pub fn accepts(&self, s: usize, dst: SocketAddr) -> bool {
        let k = &self.socks[s];
        let Some(b) = k.bound else { return false };
        k.open > 0
            && b.is_ipv6() == dst.is_ipv6()
            && b.port() == dst.port()
            && (b.ip().is_unspecified() || b.ip() == dst.ip())
            && (!dst.ip().is_multicast() || k.groups.contains(&(dst.ip(), true)))
    }
    /// Sockets currently open.
    pub fn open_socks(&self) -> Vec<usize> {
        (0..self.socks.len()).filter(|&s| self.socks[s].open > 0).collect()
    }
    /// Whether other sockets on this host see what the socket sends to a group.
    pub fn looped(&self, s: usize) -> bool {
        self.socks[s].looped
    }
    /// Whether the network sees what the socket sends to a group.
    pub fn reaches(&self, s: usize) -> bool {
        self.socks[s].far == [true; 2]
    }
    /// Whether the socket has an unspecified address and a port the system chose.
    pub fn ephemeral(&self, s: usize) -> bool {
        let k = &self.socks[s];
        k.bound.map_or(true, |b| b.ip().is_unspecified() && k.ephemeral)
    }
    pub fn is_v6(&self, s: usize) -> bool {
        self.socks[s].v6
    }
    pub fn nonblocking(&self, s: usize) -> bool {
        self.socks[s].nonblocking
    }
    /// The world's number of the socket behind a descriptor.
    pub fn sock_of(&self, fd: i32) -> Option<usize> {
        usize::try_from(fd - self.base).ok().and_then(|i| self.fds.get(i).copied().flatten())
    }
    fn bind(&mut self, s: usize, addr: SocketAddr) -> Result<(), i32> {
        self.setup("bind")?;
        if let Some(e) = self.bind_err {
            return Err(e);
        }
        if addr.is_ipv6() != self.socks[s].v6 {
            return Err(libc::EAFNOSUPPORT);
        }
        let local = match addr.ip() {
            IpAddr::V4(i) => i.is_unspecified() || i.is_loopback() || i.is_multicast() || i.is_broadcast() || i == HOST,
            IpAddr::V6(i) => i.is_unspecified() || i.is_loopback() || i.is_multicast() || i == HOST6,
        };
        if !local {
            return Err(libc::EADDRNOTAVAIL);
        }
        if self.socks[s].bound.is_some() {
            return Err(libc::EINVAL);
        }
        let mut b = addr;
        if b.port() == 0 {
            b.set_port(40000 + s as u16);
        }
        let reuse = self.socks[s].reuse;
        let mine = self.socks.iter().filter(|k| k.open > 0).filter_map(|k| k.bound.map(|a| (a, k.reuse)));
        let clash = mine.chain(self.others.iter().copied()).any(|(o, r)| {
            o.is_ipv6() == b.is_ipv6()
                && o.port() == b.port()
                && (o.ip() == b.ip() || o.ip().is_unspecified() || b.ip().is_unspecified())
                && !(r && reuse)
        });
        if clash {
            return Err(libc::EADDRINUSE);
        }
        // What was sent to nobody in particular before is lost.
        let now = self.net.now;
        let keep: VecDeque<Arrival> = std::mem::take(&mut self.net.queue)
            .into_iter()
            .filter(|a| a.at >= now || a.dst.map_or(true, |d| (0..self.socks.len()).any(|k| self.accepts(k, d))))
            .collect();
        self.net.queue = keep;
        self.socks[s].bound = Some(b);
        self.socks[s].ephemeral = addr.port() == 0;
        self.log.push(Ev::Bind { sock: s, addr });
        Ok(())
    }
    /// The address from which what the socket sends to `to` comes.
    fn source(&self, s: usize, to: SocketAddr) -> SocketAddr {
        let mut b = self.socks[s].bound.unwrap();
        if b.ip().is_unspecified() || b.ip().is_multicast() {
            b.set_ip(match to.ip() {
                i if i.is_loopback() => i.is_ipv4().then_some(Ipv4Addr::LOCALHOST.into()).unwrap_or(i),
                IpAddr::V4(_) => HOST.into(),
                IpAddr::V6(_) => HOST6.into(),
            });
        }
        b
    }
    /// The system gives a socket that sends without having an address one.
    fn autobind(&mut self, s: usize) {
        let ip: IpAddr = if self.socks[s].v6 { Ipv6Addr::UNSPECIFIED.into() } else { Ipv4Addr::UNSPECIFIED.into() };
        let k = &mut self.socks[s];
        if k.bound.is_none() {
            k.bound = Some(SocketAddr::new(ip, 40000 + s as u16));
            k.ephemeral = true;
        }
    }
    /// From now on the socket has the local address that goes with its peer.
    fn connect(&mut self, s: usize, p: SocketAddr) -> Result<(), i32> {
        if p.is_ipv6() != self.socks[s].v6 {
            return Err(libc::EAFNOSUPPORT);
        }
        self.autobind(s);
        if self.socks[s].bound.unwrap().ip().is_unspecified() {
            self.socks[s].bound = Some(self.source(s, p));
        }
        self.socks[s].peer = Some(p);
        Ok(())
    }
    fn option(&mut self, s: usize, level: i32, name: i32, b: Vec<u8>) -> Result<(), i32> {
        self.setup("setsockopt")?;
        let num = match b.len() {
            1..=3 => b[0] as u64,
            4..=7 => u32::from_ne_bytes(b[..4].try_into().unwrap()) as u64,
            _ => 0,
        };
        match (level, name) {
            (libc::SOL_SOCKET, libc::SO_RCVTIMEO) if b.len() >= 16 => {
                let sec = i64::from_ne_bytes(b[..8].try_into().unwrap());
                let usec = i64::from_ne_bytes(b[8..16].try_into().unwrap());
                self.socks[s].rcvtimeo = (sec as u64).saturating_mul(S).saturating_add(usec as u64 * 1000);
                return Ok(());
            }
            (libc::SOL_SOCKET, libc::SO_REUSEADDR) => self.socks[s].reuse = num != 0,
            (libc::IPPROTO_IP, libc::IP_MULTICAST_LOOP) => self.socks[s].looped = num != 0,
            (libc::IPPROTO_IPV6, libc::IPV6_MULTICAST_LOOP) => self.socks[s].looped = num != 0,
            (libc::IPPROTO_IP, libc::IP_ADD_MEMBERSHIP | libc::IP_DROP_MEMBERSHIP) if b.len() >= 8 => {
                let g = IpAddr::V4(Ipv4Addr::new(b[0], b[1], b[2], b[3]));
                let i = Ipv4Addr::new(b[4], b[5], b[6], b[7]);
                let index = if b.len() >= 12 { u32::from_ne_bytes(b[8..12].try_into().unwrap()) } else { 0 };
                if index > 2 || index == 0 && !(i.is_unspecified() || i.is_loopback() || i == HOST) {
                    return Err(libc::ENODEV);
                }
                let near = index == 1 || index == 0 && i.is_loopback();
                self.membership(s, (g, !near), name == libc::IP_ADD_MEMBERSHIP)?;
            }
            (libc::IPPROTO_IP, libc::IP_MULTICAST_TTL) => self.socks[s].far[0] = num as u8 != 0,
            (libc::IPPROTO_IPV6, libc::IPV6_MULTICAST_HOPS) => self.socks[s].far[0] = num as u32 != 0,
            (libc::IPPROTO_IPV6, libc::IPV6_MULTICAST_IF) => self.socks[s].far[1] = num != 1,
            (libc::IPPROTO_IP, libc::IP_MULTICAST_IF) if b.len() >= 4 => {
                let (a, index) = match b.len() {
                    4..=7 => (&b[..4], 0),
                    8..=11 => (&b[4..8], 0),
                    _ => (&b[4..8], u32::from_ne_bytes(b[8..12].try_into().unwrap())),
                };
                self.socks[s].far[1] = if index != 0 { index != 1 } else { a[0] != 127 };
            }
            (libc::IPPROTO_IPV6, libc::IPV6_ADD_MEMBERSHIP | libc::IPV6_DROP_MEMBERSHIP) if b.len() >= 20 => {
                let g = IpAddr::V6(Ipv6Addr::from(<[u8; 16]>::try_from(&b[..16]).unwrap()));
                let index = u32::from_ne_bytes(b[16..20].try_into().unwrap());
                self.membership(s, (g, index != 1), name == libc::IPV6_ADD_MEMBERSHIP)?;
            }
            _ => {}
        }
        self.log.push(Ev::Opt { sock: s, level, name, val: b });
        Ok(())
    }
    fn membership(&mut self, s: usize, g: (IpAddr, bool), add: bool) -> Result<(), i32> {
        if !g.0.is_multicast() {
            return Err(libc::EINVAL);
        }
        let v = &mut self.socks[s].groups;
        match v.iter().position(|x| *x == g) {
            Some(_) if add => return Err(libc::EADDRINUSE),
            None if !add => return Err(libc::EADDRNOTAVAIL),
            Some(i) => drop(v.remove(i)),
            None => v.push(g),
        }
        Ok(())
    }
    /// Index of the next queued datagram this socket may take at or before `until`.
    fn deliverable(&mut self, s: usize, until: u64) -> Option<usize> {
        loop {
            let peer = self.socks[s].peer;
            let mut drop_at = None;
            let mut found = None;
            for (i, a) in self.net.queue.iter().enumerate() {
                if a.at > until {
                    break;
                }
                if a.sock.is_some_and(|x| x != s) {
                    if a.sock.is_some_and(|x| self.socks.get(x).map_or(true, |k| k.open == 0)) {
                        drop_at = Some(i);
                        break;
                    }
                    continue;
                }
                if a.dst.is_some_and(|d| !self.accepts(s, d)) {
                    continue;
                }
                if a.errno.is_none() && peer.is_some_and(|p| p != a.from) {
                    drop_at = Some(i);
                    break;
                }
                found = Some(i);
                break;
            }
            if let Some(i) = drop_at {
                self.net.queue.remove(i);
                self.dropped += 1;
                continue;
            }
            return found;
        }
    }
    fn recv(&mut self, s: usize, flags: c_int) -> Result<(SocketAddr, Vec<u8>), i32> {
        self.call();
        // looking at a datagram without taking it belongs to the receive that follows
        let n = self.recv_calls;
        if flags & libc::MSG_PEEK == 0 {
            self.recv_calls += 1;
        }
        if let Some((k, e)) = self.recv_err {
            if n == k {
                self.recv_calls = n + 1;
                let t = self.net.now;
                self.log.push(Ev::RecvFail { t, errno: e });
                return Err(e);
            }
        }
        let nb = self.socks[s].nonblocking || flags & libc::MSG_DONTWAIT != 0;
        let until = if nb {
            self.net.now
        } else if self.socks[s].rcvtimeo > 0 {
            self.net.now.saturating_add(self.socks[s].rcvtimeo).saturating_add(self.late)
        } else {
            u64::MAX
        };
        if let Some(i) = self.deliverable(s, until) {
            let at = self.net.queue[i].at;
            self.net.now = self.net.now.max(at);
            let a = if flags & libc::MSG_PEEK != 0 { self.net.queue[i].clone() } else { self.net.queue.remove(i).unwrap() };
            let t = self.net.now;
            if let Some(errno) = a.errno {
                self.log.push(Ev::RecvFail { t, errno });
                return Err(errno);
            }
            if flags & libc::MSG_PEEK == 0 {
                self.recv_taken += 1;
                self.log.push(Ev::Recv { t, sock: s, from: a.from, len: a.data.len() });
            }
            return Ok((a.from, a.data));
        }
        if nb {
            return Err(libc::EAGAIN);
        }
        if until == u64::MAX {
            self.ended = true;
            let t = self.net.now;
            let errno = self.end_errno;
            self.log.push(Ev::RecvFail { t, errno });
            return Err(errno);
        }
        self.net.now = until;
        self.log.push(Ev::Timeout { t: until, sock: s });
        Err(libc::EAGAIN)
    }
    fn send(&mut self, s: usize, to: Option<SocketAddr>, data: Vec<u8>, flags: c_int) -> Result<usize, i32> {
        self.call();
        let mut t = self.net.now;
        let nb = self.socks[s].nonblocking || flags & libc::MSG_DONTWAIT != 0;
        if nb && t < self.send_blocked_until {
            return Err(libc::EAGAIN);
        }
        let n = self.send_calls;
        self.send_calls += 1;
        if let Some((k, d)) = self.send_block {
            if n == k {
                self.send_block = None;
                if nb {
                    self.send_calls -= 1;
                    self.send_blocked_until = t + d;
                    return Err(libc::EAGAIN);
                }
                t += d;
                self.net.now = t;
            }
        }
        if let Some((k, e)) = self.send_err {
            if n == k {
                self.log.push(Ev::SendFail { t, errno: e });
                return Err(e);
            }
        }
        self.autobind(s);
        let Some(to) = to.or(self.socks[s].peer) else { return Err(libc::EDESTADDRREQ) };
        if to.is_ipv6() != self.socks[s].v6 {
            return Err(libc::EAFNOSUPPORT);
        }
        if to.port() == 0 {
            return Err(libc::EINVAL);
        }
        if data.len() > 65507 {
            return Err(libc::EMSGSIZE);
        }
        let local = self.source(s, to);
        self.log.push(Ev::Send { t, sock: s, to, data: data.clone() });
        if let Some(mut r) = self.responder.take() {
            r(&mut self.net, s, local, to, &data);
            self.responder = Some(r);
        }
        Ok(data.len())
    }
}

/// Uninstalls any world left behind by an unwound execution.
pub fn reset() {
    W.with(|w| w.set(std::ptr::null_mut()));
}
/// Access to the world installed on this thread.
pub fn with<R>(f: impl FnOnce(&mut World<'static>) -> R) -> Option<R> {
    let p = W.with(|w| w.get());
    if p.is_null() {
        None
    } else {
        Some(f(unsafe { &mut *p }))
    }
}
pub fn duration(ns: u64) -> Duration {
    Duration::from_nanos(ns)
}

fn world() -> Option<&'static mut World<'static>> {
    let p = W.try_with(|w| w.get()).unwrap_or(std::ptr::null_mut());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}
fn fail(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}
unsafe fn get_addr(a: *const sockaddr, len: socklen_t) -> Option<SocketAddr> {
    if a.is_null() || len == 0 {
        return None;
    }
    match (*a).sa_family as c_int {
        libc::AF_INET => {
            let s = &*(a as *const libc::sockaddr_in);
            Some(SocketAddr::new(IpAddr::V4(Ipv4Addr::from(u32::from_be(s.sin_addr.s_addr))), u16::from_be(s.sin_port)))
        }
        libc::AF_INET6 => {
            let s = &*(a as *const libc::sockaddr_in6);
            Some(std::net::SocketAddrV6::new(Ipv6Addr::from(s.sin6_addr.s6_addr), u16::from_be(s.sin6_port), s.sin6_flowinfo, s.sin6_scope_id).into())
        }
        _ => None,
    }
}
unsafe fn put_addr(sa: SocketAddr, a: *mut sockaddr, len: *mut socklen_t) {
    if a.is_null() || len.is_null() {
        return;
    }
    match sa {
        SocketAddr::V4(v) => {
            let mut s: libc::sockaddr_in = std::mem::zeroed();
            s.sin_family = libc::AF_INET as _;
            s.sin_port = v.port().to_be();
            s.sin_addr.s_addr = u32::from(*v.ip()).to_be();
            let n = std::mem::size_of_val(&s);
            std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n.min(*len as usize));
            *len = n as u32;
        }
        SocketAddr::V6(v) => {
            let mut s: libc::sockaddr_in6 = std::mem::zeroed();
            s.sin6_family = libc::AF_INET6 as _;
            s.sin6_port = v.port().to_be();
            s.sin6_addr.s6_addr = v.ip().octets();
            s.sin6_scope_id = v.scope_id();
            s.sin6_flowinfo = v.flowinfo();
            let n = std::mem::size_of_val(&s);
            std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n.min(*len as usize));
            *len = n as u32;
        }
    }
}

macro_rules! fake {
    ($fd:expr) => {{
        let fd: c_int = $fd;
        if fd >= FD0 {
            match world() {
                Some(w) => match w.sock(fd) {
                    Some(s) => Some((w, s)),
                    None => return fail(libc::EBADF) as _,
                },
                // A socket outliving its world can only be closed.
                None => return fail(libc::EBADF) as _,
            }
        } else {
            None
        }
    }};
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    match world() {
        Some(w) => {
            if let Err(e) = w.setup("socket") {
                return fail(e) as c_int;
            }
            let v6 = domain == libc::AF_INET6;
            w.socks.push(Sock { v6, bound: None, peer: None, rcvtimeo: 0, nonblocking: ty & libc::SOCK_NONBLOCK != 0, open: 1, reuse: false, groups: vec![], looped: true, far: [true; 2], ephemeral: false, });
            let s = w.socks.len() - 1;
            w.log.push(Ev::Socket { sock: s, v6 });
            w.new_fd(s)
        }
        None => libc::syscall(libc::SYS_socket, domain, ty, proto) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    if let Some((w, s)) = fake!(fd) {
        let Some(addr) = get_addr(a, len) else { return fail(libc::EINVAL) as c_int };
        return match w.bind(s, addr) {
            Ok(()) => 0,
            Err(e) => fail(e) as c_int,
        };
    }
    libc::syscall(libc::SYS_bind, fd, a, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    if let Some((w, s)) = fake!(fd) {
        if let Err(e) = w.setup("connect") {
            return fail(e) as c_int;
        }
        return match get_addr(a, len).map_or(Err(libc::EINVAL), |p| w.connect(s, p)) {
            Ok(()) => 0,
            Err(e) => fail(e) as c_int,
        };
    }
    libc::syscall(libc::SYS_connect, fd, a, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, val: *const c_void, len: socklen_t) -> c_int {
    if let Some((w, s)) = fake!(fd) {
        let b = std::slice::from_raw_parts(val as *const u8, len as usize).to_vec();
        if let Err(e) = w.option(s, level, name, b) {
            return fail(e) as c_int;
        }
        return 0;
    }
    libc::syscall(libc::SYS_setsockopt, fd, level, name, val, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, val: *mut c_void, len: *mut socklen_t) -> c_int {
    if let Some((w, s)) = fake!(fd) {
        if level == libc::SOL_SOCKET && name == libc::SO_RCVTIMEO {
            let t = w.socks[s].rcvtimeo;
            let tv = libc::timeval { tv_sec: (t / S) as _, tv_usec: (t % S / 1000) as _ };
            std::ptr::write_unaligned(val as *mut libc::timeval, tv);
            *len = 16;
            return 0;
        }
        let v: c_int = match name {
            libc::SO_TYPE => libc::SOCK_DGRAM,
            _ => 0,
        };
        std::ptr::write_unaligned(val as *mut c_int, v);
        *len = 4;
        return 0;
    }
    libc::syscall(libc::SYS_getsockopt, fd, level, name, val, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if let Some((w, s)) = fake!(fd) {
        let any = if w.socks[s].v6 { SocketAddr::from((Ipv6Addr::UNSPECIFIED, 0)) } else { SocketAddr::from((Ipv4Addr::UNSPECIFIED, 0)) };
        put_addr(w.socks[s].bound.unwrap_or(any), a, len);
        return 0;
    }
    libc::syscall(libc::SYS_getsockname, fd, a, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if let Some((w, s)) = fake!(fd) {
        return match w.socks[s].peer {
            Some(p) => {
                put_addr(p, a, len);
                0
            }
            None => fail(libc::ENOTCONN) as c_int,
        };
    }
    libc::syscall(libc::SYS_getpeername, fd, a, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, n: usize, flags: c_int, a: *const sockaddr, len: socklen_t) -> ssize_t {
    if let Some((w, s)) = fake!(fd) {
        let data = std::slice::from_raw_parts(buf as *const u8, n).to_vec();
        return match w.send(s, get_addr(a, len), data, flags) {
            Ok(n) => n as ssize_t,
            Err(e) => fail(e),
        };
    }
    libc::syscall(libc::SYS_sendto, fd, buf, n, flags, a, len) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, n: usize, flags: c_int) -> ssize_t {
    sendto(fd, buf, n, flags, std::ptr::null(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const libc::msghdr, flags: c_int) -> ssize_t {
    if let Some((w, s)) = fake!(fd) {
        let m = &*m;
        let mut data = vec![];
        for i in 0..m.msg_iovlen as usize {
            let v = &*m.msg_iov.add(i);
            data.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
        return match w.send(s, get_addr(m.msg_name as *const sockaddr, m.msg_namelen), data, flags) {
            Ok(n) => n as ssize_t,
            Err(e) => fail(e),
        };
    }
    libc::syscall(libc::SYS_sendmsg, fd, m, flags) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, n: usize, flags: c_int, a: *mut sockaddr, len: *mut socklen_t) -> ssize_t {
    if let Some((w, s)) = fake!(fd) {
        return match w.recv(s, flags) {
            Ok((from, data)) => {
                let k = data.len().min(n);
                std::ptr::copy_nonoverlapping(data.as_ptr(), buf as *mut u8, k);
                put_addr(from, a, len);
                if flags & libc::MSG_TRUNC != 0 {
                    data.len() as ssize_t
                } else {
                    k as ssize_t
                }
            }
            Err(e) => fail(e),
        };
    }
    libc::syscall(libc::SYS_recvfrom, fd, buf, n, flags, a, len) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, n: usize, flags: c_int) -> ssize_t {
    recvfrom(fd, buf, n, flags, std::ptr::null_mut(), std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut libc::msghdr, flags: c_int) -> ssize_t {
    if let Some((w, s)) = fake!(fd) {
        let m = &mut *m;
        return match w.recv(s, flags) {
            Ok((from, data)) => {
                let mut off = 0;
                for i in 0..m.msg_iovlen as usize {
                    let v = &*m.msg_iov.add(i);
                    let k = (data.len() - off).min(v.iov_len);
                    std::ptr::copy_nonoverlapping(data.as_ptr().add(off), v.iov_base as *mut u8, k);
                    off += k;
                }
                m.msg_flags = if off < data.len() { libc::MSG_TRUNC } else { 0 };
                m.msg_controllen = 0;
                if !m.msg_name.is_null() {
                    let mut l = m.msg_namelen;
                    put_addr(from, m.msg_name as *mut sockaddr, &mut l);
                    m.msg_namelen = l;
                }
                off as ssize_t
            }
            Err(e) => fail(e),
        };
    }
    libc::syscall(libc::SYS_recvmsg, fd, m, flags) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD0 {
        if let Some(w) = world() {
            if let Some(s) = w.sock(fd) {
                w.fds[(fd - w.base) as usize] = None;
                w.socks[s].open -= 1;
                if w.socks[s].open == 0 {
                    w.log.push(Ev::Close { sock: s });
                }
            }
        }
        return 0;
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    // std checks a descriptor with fcntl before closing it, also when its world is gone.
    if fd >= FD0 && world().map_or(true, |w| w.sock(fd).is_none()) {
        return 0;
    }
    if let Some((w, s)) = fake!(fd) {
        return match cmd {
            libc::F_GETFL => libc::O_RDWR | if w.socks[s].nonblocking { libc::O_NONBLOCK } else { 0 },
            libc::F_SETFL => {
                if let Err(e) = w.setup("fcntl") {
                    return fail(e) as c_int;
                }
                w.socks[s].nonblocking = arg as c_int & libc::O_NONBLOCK != 0;
                0
            }
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                w.socks[s].open += 1;
                w.new_fd(s)
            }
            _ => 0,
        };
    }
    libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if let Some((w, s)) = fake!(fd) {
        if req == libc::FIONBIO {
            if let Err(e) = w.setup("ioctl") {
                return fail(e) as c_int;
            }
            w.socks[s].nonblocking = *(arg as *const c_int) != 0;
        }
        return 0;
    }
    libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    if let Some(w) = world() {
        let v = std::slice::from_raw_parts_mut(fds, n as usize);
        if v.iter().any(|p| p.fd >= FD0) {
            w.call();
            let until = if timeout < 0 { u64::MAX } else { w.net.now + timeout as u64 * MS + w.late };
            let mut best: Option<u64> = None;
            for p in v.iter_mut() {
                p.revents = 0;
                let Some(s) = w.sock(p.fd) else { continue };
                if p.events & libc::POLLOUT != 0 {
                    p.revents |= libc::POLLOUT;
                    best = Some(w.net.now);
                }
                if p.events & libc::POLLIN != 0 {
                    if let Some(i) = w.deliverable(s, until) {
                        let at = w.net.queue[i].at.max(w.net.now);
                        best = Some(best.map_or(at, |b| b.min(at)));
                    } else if until == u64::MAX {
                        w.ended = true;
                        return fail(w.end_errno) as c_int;
                    }
                }
            }
            let Some(at) = best else {
                w.net.now = until;
                return 0;
            };
            w.net.now = at;
            let mut k = 0;
            for p in v.iter_mut() {
                let Some(s) = w.sock(p.fd) else { continue };
                if p.events & libc::POLLIN != 0 && w.deliverable(s, at).is_some() {
                    p.revents |= libc::POLLIN;
                }
                if p.revents != 0 {
                    k += 1;
                }
            }
            return k;
        }
    }
    libc::syscall(libc::SYS_poll, fds, n, timeout) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if let Some(w) = world() {
        w.call();
        w.net.now += w.tick;
        let t = EPOCH + w.net.now;
        (*ts).tv_sec = (t / S) as _;
        (*ts).tv_nsec = (t % S) as _;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as c_int
}
unsafe fn do_sleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> bool {
    if let Some(w) = world() {
        w.call();
        let d = (*ts).tv_sec as u64 * S + (*ts).tv_nsec as u64;
        let t = w.net.now;
        w.log.push(Ev::Sleep { t, d });
        w.net.now += d;
        if !rem.is_null() {
            *rem = std::mem::zeroed();
        }
        return true;
    }
    false
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if do_sleep(ts, rem) {
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, ts, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if flags == 0 && do_sleep(ts, rem) {
        return 0;
    }
    if let (Some(w), true) = (world(), flags == libc::TIMER_ABSTIME) {
        let t = (*ts).tv_sec as u64 * S + (*ts).tv_nsec as u64;
        let d = t.saturating_sub(EPOCH + w.net.now);
        w.net.now += d;
        return 0;
    }
    let r = libc::syscall(libc::SYS_clock_nanosleep, clk, flags, ts, rem) as c_int;
    if r < 0 {
        *libc::__errno_location()
    } else {
        0
    }
}

/// References the overriding symbols so that the linker keeps them.
pub fn link() {
    let v: [usize; 10] = [
        socket as *const () as usize,
        bind as *const () as usize,
        setsockopt as *const () as usize,
        sendto as *const () as usize,
        recvfrom as *const () as usize,
        close as *const () as usize,
        clock_gettime as *const () as usize,
        nanosleep as *const () as usize,
        poll as *const () as usize,
        fcntl as *const () as usize,
    ];
    std::hint::black_box(v);
}
