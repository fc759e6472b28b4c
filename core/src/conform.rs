//! Conformance of the virtual OS (world.rs) with the real one: every small script of socket calls
//! is run against both, on the real loopback interface and in a world, and everything the calls
//! report (results, errors, addresses, lengths, contents) has to agree. Not a check: it is about
//! the machinery and this host's kernel, not about the code under test. `mc conform` runs it.
//!
//! Left out on purpose, where the world differs: sockets on one port that could both take a
//! datagram (the world hands it to whichever asks first), datagrams queued before `connect`,
//! IP_MULTICAST_ALL (a world's socket only sees groups it joined itself), port-unreachable
//! errors, and clashes between an IPv6 and an IPv4 socket.
use crate::world::{Arrival, World, HOST};
use libc::{c_int, c_void, sockaddr, socklen_t};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum At {
    No,
    Any,
    L1,
    L2,
    Group,
    V6,
    /// Not one of the host's addresses.
    Foreign,
}
#[derive(Clone, Copy, Debug)]
struct Cfg {
    reuse: bool,
    at: At,
    join: bool,
    connect: Option<bool>,
    other: Option<(bool, At)>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Uni(usize),
    Uni2,
    Grp,
    Recv(usize),
    Peek,
    RecvB,
    SendTo(usize),
    Send,
    SendZero,
    Rebind,
    Timeout(u32),
    Join,
    Leave,
}
const GROUP: Ipv4Addr = Ipv4Addr::new(224, 0, 0, 251);

fn sa(a: SocketAddr) -> (libc::sockaddr_in6, socklen_t) {
    unsafe {
        let mut out: libc::sockaddr_in6 = std::mem::zeroed();
        match a {
            SocketAddr::V4(v) => {
                let s = &mut *(&mut out as *mut _ as *mut libc::sockaddr_in);
                s.sin_family = libc::AF_INET as _;
                s.sin_port = v.port().to_be();
                s.sin_addr.s_addr = u32::from(*v.ip()).to_be();
                (out, std::mem::size_of::<libc::sockaddr_in>() as _)
            }
            SocketAddr::V6(v) => {
                out.sin6_family = libc::AF_INET6 as _;
                out.sin6_port = v.port().to_be();
                out.sin6_addr.s6_addr = v.ip().octets();
                (out, std::mem::size_of::<libc::sockaddr_in6>() as _)
            }
        }
    }
}
fn res(r: isize) -> String {
    if r < 0 {
        format!("errno {}", std::io::Error::last_os_error().raw_os_error().unwrap())
    } else {
        format!("{r}")
    }
}
fn sock() -> c_int {
    unsafe { crate::world::socket(libc::AF_INET, libc::SOCK_DGRAM, 0) }
}
fn bind(fd: c_int, a: SocketAddr) -> String {
    let (s, n) = sa(a);
    res(unsafe { crate::world::bind(fd, &s as *const _ as *const sockaddr, n) } as isize)
}
fn opt(fd: c_int, l: c_int, n: c_int, v: &[u8]) -> String {
    res(unsafe { crate::world::setsockopt(fd, l, n, v.as_ptr() as *const c_void, v.len() as _) } as isize)
}
fn member(fd: c_int, iface: Ipv4Addr, add: bool) -> String {
    let v = [GROUP.octets(), iface.octets()].concat();
    opt(fd, libc::IPPROTO_IP, if add { libc::IP_ADD_MEMBERSHIP } else { libc::IP_DROP_MEMBERSHIP }, &v)
}
fn send(fd: c_int, to: Option<SocketAddr>, d: &[u8]) -> String {
    unsafe {
        match to {
            Some(a) => {
                let (s, n) = sa(a);
                res(crate::world::sendto(fd, d.as_ptr() as _, d.len(), 0, &s as *const _ as *const sockaddr, n))
            }
            None => res(crate::world::send(fd, d.as_ptr() as _, d.len(), 0)),
        }
    }
}
fn recv(fd: c_int, n: usize, flags: c_int, q: u16) -> String {
    let mut b = vec![0xeeu8; n];
    unsafe {
        let mut s: libc::sockaddr_in6 = std::mem::zeroed();
        let mut l = std::mem::size_of_val(&s) as socklen_t;
        let r = crate::world::recvfrom(fd, b.as_mut_ptr() as _, n, flags, &mut s as *mut _ as *mut sockaddr, &mut l);
        if r < 0 {
            return res(r);
        }
        let v = &*(&s as *const _ as *const libc::sockaddr_in);
        let from = SocketAddrV4::new(Ipv4Addr::from(u32::from_be(v.sin_addr.s_addr)), u16::from_be(v.sin_port));
        let ok = *from.ip() == Ipv4Addr::LOCALHOST && from.port() == q;
        let h = b.iter().fold(0u32, |h, x| h.wrapping_mul(31).wrapping_add(*x as u32));
        format!("{r} from-sender={ok} addrlen={l} content={h:08x}")
    }
}

/// The calls' reports, whether against the real kernel or a world (`iface`: where groups are).
fn script(cfg: Cfg, ops: &[Op], p: u16, q: u16, iface: Ipv4Addr) -> Vec<String> {
    let v4 = |ip: [u8; 4], port| SocketAddr::from((ip, port));
    let addr = |at| match at {
        At::No => None,
        At::Any => Some(v4([0, 0, 0, 0], p)),
        At::L1 => Some(v4([127, 0, 0, 1], p)),
        At::L2 => Some(v4([127, 0, 0, 2], p)),
        At::Group => Some(v4([224, 0, 0, 251], p)),
        At::V6 => Some(SocketAddr::from((std::net::Ipv6Addr::LOCALHOST, p))),
        At::Foreign => Some(v4([203, 0, 113, 7], p)),
    };
    let mut out = vec![];
    let (a, b, c) = (sock(), sock(), sock());
    for fd in [a, b, c] {
        unsafe { crate::world::fcntl(fd, libc::F_SETFL, libc::O_NONBLOCK as usize) };
    }
    // The sender.
    out.push(bind(c, v4([127, 0, 0, 1], q)));
    opt(c, libc::IPPROTO_IP, libc::IP_MULTICAST_IF, &iface.octets());
    if let Some((reuse, at)) = cfg.other {
        opt(b, libc::SOL_SOCKET, libc::SO_REUSEADDR, &(reuse as i32).to_ne_bytes());
        out.push(format!("other: {}", bind(b, addr(at).unwrap())));
    }
    if cfg.reuse {
        opt(a, libc::SOL_SOCKET, libc::SO_REUSEADDR, &1i32.to_ne_bytes());
    }
    opt(a, libc::IPPROTO_IP, libc::IP_MULTICAST_ALL, &0i32.to_ne_bytes());
    opt(b, libc::IPPROTO_IP, libc::IP_MULTICAST_ALL, &0i32.to_ne_bytes());
    if let Some(x) = addr(cfg.at) {
        out.push(format!("bind: {}", bind(a, x)));
    }
    if cfg.join {
        out.push(format!("join: {}", member(a, iface, true)));
    }
    if let Some(right) = cfg.connect {
        let (s, n) = sa(v4([127, 0, 0, 1], if right { q } else { q ^ 1 }));
        out.push(format!("connect: {}", res(unsafe { crate::world::connect(a, &s as *const _ as *const sockaddr, n) } as isize)));
    }
    for o in ops {
        out.push(format!(
            "{o:?}: {}",
            match *o {
                Op::Uni(n) => send(c, Some(v4([127, 0, 0, 1], p)), &(0..n).map(|i| (i * 7 + out.len()) as u8).collect::<Vec<_>>()),
                Op::Uni2 => send(c, Some(v4([127, 0, 0, 2], p)), b"two"),
                Op::Grp => send(c, Some(v4([224, 0, 0, 251], p)), b"group"),
                Op::Recv(n) => recv(a, n, 0, q),
                Op::Peek => recv(a, 600, libc::MSG_PEEK, q),
                Op::RecvB => recv(b, 600, 0, q),
                Op::SendTo(n) => {
                    let r = send(a, Some(v4([127, 0, 0, 1], q)), &vec![7; n]);
                    format!("{r} / {}", recv(c, 70000, 0, p).replace("from-sender=false", "").replace("from-sender=true", ""))
                }
                Op::Send => {
                    let r = send(a, None, b"hello");
                    format!("{r} / {}", recv(c, 600, 0, p))
                }
                Op::SendZero => send(a, Some(v4([127, 0, 0, 1], 0)), b"x"),
                Op::Rebind => bind(a, v4([127, 0, 0, 1], p)),
                Op::Timeout(us) => {
                    let v = [0i64.to_ne_bytes(), (us as i64).to_ne_bytes()].concat();
                    let r = opt(a, libc::SOL_SOCKET, libc::SO_RCVTIMEO, &v);
                    let mut t = [0i64; 2];
                    let mut l = 16;
                    unsafe { crate::world::getsockopt(a, libc::SOL_SOCKET, libc::SO_RCVTIMEO, t.as_mut_ptr() as _, &mut l) };
                    // The kernel counts in ticks of up to 10 ms.
                    format!("{r} {}", t[0] * 1_000_000 + t[1] >= us as i64 && (t[1] < us as i64 + 10_000) && (us > 0 || t == [0, 0]))
                }
                Op::Join => member(a, iface, true),
                Op::Leave => member(a, iface, false),
            }
        ));
    }
    for fd in [a, b, c] {
        unsafe { crate::world::close(fd) };
    }
    out
}

pub fn main() -> i32 {
    let ops = [
        Op::Uni(5),
        Op::Uni(300),
        Op::Uni(0),
        Op::Uni2,
        Op::Grp,
        Op::Recv(600),
        Op::Recv(100),
        Op::Recv(0),
        Op::Peek,
        Op::RecvB,
        Op::SendTo(1),
        Op::SendTo(65507),
        Op::SendTo(65508),
        Op::Send,
        Op::SendZero,
        Op::Rebind,
        Op::Timeout(0),
        Op::Timeout(1),
        Op::Timeout(250_000),
        Op::Join,
        Op::Leave,
    ];
    let depth: usize = std::env::args().nth(2).and_then(|a| a.parse().ok()).unwrap_or(3);
    let q = 25_352;
    let p = 25_354;
    let (mut n, mut bad) = (0u64, 0u64);
    for at in [At::No, At::Any, At::L1, At::L2, At::Group, At::V6, At::Foreign] {
        for join in [false, true] {
            for connect in [None, Some(true), Some(false)] {
                for other in [None, Some(At::Any), Some(At::L1), Some(At::L2), Some(At::Group)] {
                    for reuse in 0..4 {
                        let (mine, its) = (reuse & 1 != 0, reuse & 2 != 0);
                        if other.is_none() && its {
                            continue;
                        }
                        let cfg = Cfg { reuse: mine, at, join, connect, other: other.map(|o| (its, o)) };
                        let shares = mine && its && other.is_some_and(|o| o == At::Any || at == At::Any || o == at);
                        let d = if other.is_some() && !shares { depth.min(2) } else if shares { 0 } else { depth };
                        let mut idx = vec![0usize; d];
                        loop {
                            let s: Vec<Op> = idx.iter().map(|&i| ops[i]).collect();
                            let mcast_late = s.contains(&Op::Join) || s.contains(&Op::Leave);
                            // What was queued before joining, leaving or binding is decided on
                            // arrival by the kernel; worlds are only used with it decided before.
                            let skip = mcast_late && s.contains(&Op::Grp)
                                // Sent before, in the same instant as binding: may count as still on its way.
                                || matches!(at, At::No | At::Foreign | At::V6) && s.contains(&Op::Rebind) && s.iter().any(|o| matches!(o, Op::Uni(_) | Op::Uni2 | Op::Grp))
                                // Nobody at the other end.
                                || connect == Some(false) && s.contains(&Op::Send);
                            if !skip {
                                n += 1;
                                let real = script(cfg, &s, p, q, Ipv4Addr::LOCALHOST);
                                let mut w = World::new();
                                w.responder = Some(Box::new(|net, _, local, to, data| {
                                    let mut a = Arrival::new(net.now, local, data.to_vec());
                                    a.dst = Some(to);
                                    net.push(a);
                                }));
                                let model = w.run(|| script(cfg, &s, p, q, HOST));
                                if real != model {
                                    bad += 1;
                                    if bad <= 20 {
                                        println!("DIFFERS {cfg:?} {s:?}\n  real  {real:?}\n  world {model:?}");
                                    }
                                }
                            }
                            let Some(k) = (0..d).rev().find(|&k| idx[k] + 1 < ops.len()) else { break };
                            idx[k] += 1;
                            idx[k + 1..].fill(0);
                        }
                    }
                }
            }
        }
    }
    println!("conform: {n} scripts of up to {depth} calls run against the kernel and the virtual OS, {bad} differ");
    (bad > 0) as i32
}
