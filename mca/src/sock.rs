//! C25: how sockets are set up, shared and released, and what happens when a system call fails.
use crate::advmodel::{self as am, inst, nm, Op};
use crate::conv;
use crate::exec::{self, End, Plan};
use std::io;
use std::net::{IpAddr, SocketAddr, UdpSocket};
use std::ops::ControlFlow;
use std::os::fd::AsRawFd;
use std::time::Duration;
use uwuhi::name::{DomainName, Label};
use uwuhi::resolver::SyncResolver;
use uwuhi::service::advertising::{Advertiser, SyncAdvertiser};
use uwuhi::service::discovery::SyncDiscoverer;
use uwuhi::tap::SyncTap;
use uwuhi_async::resolver::AsyncResolver;
use uwuhi_async::service::advertising::AsyncAdvertiser;
use uwuhi_async::service::discovery::AsyncDiscoverer;
use vcore::explore::{catch, Property, Scenario};
use vcore::refdns::{self as rd, Build, Data};
use vcore::world::{self, Arrival, Ev, World, MS};
use vcore::{ensure, ensure_eq, logcap, util, Cx};

type R = Result<(), String>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Server {
    Blocking,
    Raw,
    Async,
    Tap,
}
const SERVERS: [Server; 4] = [Server::Blocking, Server::Raw, Server::Async, Server::Tap];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Client {
    Resolver,
    AsyncResolver,
    Discoverer,
    AsyncDiscoverer,
}
const CLIENTS: [Client; 4] = [Client::Resolver, Client::AsyncResolver, Client::Discoverer, Client::AsyncDiscoverer];

fn config() -> Vec<Op> {
    vec![nm(b"host", "192.0.2.1"), inst(b"in", b"_svc", true, "host.local", 80, &[b"a=b"])]
}
fn peer() -> SocketAddr {
    "192.0.2.77:5353".parse().unwrap()
}
fn query(id: u16) -> Vec<u8> {
    Build::new(id, 0).q(&rd::n("host.local"), 1, 1).done()
}
fn addr(s: &str) -> SocketAddr {
    s.parse().unwrap()
}
/// What the caller sees of an error: an equivalent error of the same kind counts as the same.
fn err_is(e: &io::Error, errno: i32) -> bool {
    e.raw_os_error() == Some(errno) || e.kind() == io::Error::from_raw_os_error(errno).kind()
}

/// A server under test, kept between attempts.
enum Srv {
    Blocking(SyncAdvertiser),
    Raw(Advertiser, Option<UdpSocket>),
    Async(AsyncAdvertiser),
    Tap(SyncTap),
}
impl Srv {
    fn new(k: Server) -> io::Result<Srv> {
        let ops = config();
        Ok(match k {
            Server::Blocking => Srv::Blocking(am::build_sync(&ops)),
            Server::Raw => Srv::Raw(am::build(&ops), None),
            Server::Tap => Srv::Tap(SyncTap::new()?),
            Server::Async => {
                let Op::Name(l, ip) = &ops[0] else { unreachable!() };
                let mut a = AsyncAdvertiser::new(Label::new(l), *ip)?;
                if let Op::Inst(i) = &ops[1] {
                    a.add_instance(i.instance(), i.details());
                }
                Srv::Async(a)
            }
        })
    }
    /// Serves until the socket reports an error; hands the server back if it can go on.
    fn serve(self) -> Result<(io::Result<()>, Option<Srv>), String> {
        Ok(match self {
            Srv::Blocking(mut a) => (catch(|| a.listen_blocking())?, Some(Srv::Blocking(a))),
            Srv::Async(mut a) => (exec::finish(a.listen())?, Some(Srv::Async(a))),
            Srv::Tap(t) => (catch(|| t.listen())?, None),
            Srv::Raw(mut a, _) => {
                // the loop the documentation of create_socket describes
                let r = catch(|| -> io::Result<()> {
                    let s = a.create_socket()?;
                    let mut buf = [0; uwuhi::MDNS_BUFFER_SIZE];
                    loop {
                        let (n, from) = s.recv_from(&mut buf)?;
                        if let Ok(Some(r)) = a.handle_packet(&buf[..n]) {
                            s.send_to(r, from)?;
                        }
                    }
                })?;
                (r, Some(Srv::Raw(a, None)))
            }
        })
    }
}
/// Sends of a server, or the number of packets a tap logged.
fn served(k: Server, w: &World) -> usize {
    match k {
        Server::Tap => w.recv_taken,
        _ => w.sends().len(),
    }
}
fn check_reply(w: &World, n: usize, q: &[u8]) -> R {
    let s = w.sends();
    ensure!(s[n].1 == peer(), "the reply went to {}", s[n].1);
    am::judge(&am::db(&config()), q, Some(&s[n].2))
}

/// Datagrams to every address an mDNS server is reached at, next to other programs on the port.
fn c25_servers(cx: &mut Cx) -> R {
    let k = *cx.pick(&SERVERS);
    let others: Vec<(SocketAddr, bool)> = match cx.choose(6) {
        0 => vec![],
        1 => vec![(addr("0.0.0.0:5353"), true)],
        2 => vec![(addr("192.0.2.1:5353"), true)],
        3 => vec![(addr("0.0.0.0:5353"), true), (addr("224.0.0.251:5353"), true), (addr("[::]:5353"), true)],
        4 => vec![(addr("[::]:5353"), false), (addr("0.0.0.0:5354"), false), (addr("0.0.0.0:53"), false)],
        _ => vec![(addr("0.0.0.0:5353"), false)],
    };
    let taken = others.iter().any(|o| *o == (addr("0.0.0.0:5353"), false));
    let dsts = ["224.0.0.251:5353", "192.0.2.1:5353", "127.0.0.1:5353", "10.200.3.4:5353"].map(addr);
    let n = cx.by_tier(4, 6);
    let picks: Vec<SocketAddr> = (0..n).map(|_| *cx.pick(&dsts)).collect();
    let log = cx.flag();
    cx.note(|| format!("{k:?} next to {others:?}, datagrams to {picks:?}"));
    cx.state(&(k, &others, &picks));
    let mut w = World::new();
    w.others = others;
    for (i, d) in picks.iter().enumerate() {
        let mut a = Arrival::new(i as u64 * MS, peer(), query(i as u16 + 1));
        a.dst = Some(*d);
        w.net.push(a);
    }
    logcap::enable(log);
    let r = w.run(|| -> Result<_, String> {
        match catch(|| Srv::new(k))? {
            Ok(s) => Ok(s.serve()?.0),
            Err(e) => Ok(Err(e)),
        }
    })?;
    cx.steps(n as u64);
    let Err(e) = r else { return Err("listening ended without an error".into()) };
    if taken {
        ensure!(err_is(&e, libc::EADDRINUSE), "the port belongs to another program, but the error is {e}");
        ensure!(w.sends().is_empty(), "a packet is sent although the port is not available");
    } else {
        ensure!(w.ended && err_is(&e, w.end_errno), "listening ended with: {e}");
        ensure!(served(k, &w) == n, "{} of {n} datagrams to {picks:?} were served", served(k, &w));
        if k != Server::Tap {
            for i in 0..n {
                check_reply(&w, i, &query(i as u16 + 1))?;
            }
        }
    }
    ensure!(w.open_socks().is_empty(), "a socket stays open after everything is dropped");
    Ok(())
}

/// An error and the number of rounds: any error once, or a few errors in several rounds.
fn fault(cx: &mut Cx, few: &[i32]) -> (i32, usize) {
    if cx.flag() {
        // every error but the ones that stand for a timeout or ask to try again
        let all: Vec<i32> = (1..=133).filter(|c| ![libc::EAGAIN, libc::EINTR, libc::ETIMEDOUT].contains(c)).collect();
        (*cx.pick(&all), 1)
    } else {
        (*cx.pick(few), cx.by_tier(2, 3))
    }
}
/// Every set-up call of a server fails with every error; then the same again without a failure.
fn c25_server_faults(cx: &mut Cx) -> R {
    let k = *cx.pick(&SERVERS);
    let (errno, rounds) = fault(cx, &[libc::EMFILE, libc::EACCES, libc::EADDRINUSE, libc::ENODEV, libc::ENOBUFS, libc::EADDRNOTAVAIL]);
    // the call that fails in each round; 12: none
    let plan: Vec<usize> = (0..rounds).map(|_| cx.choose(13)).collect();
    cx.note(|| format!("{k:?}: set-up calls {plan:?} fail with {errno}"));
    cx.state(&(k, errno, &plan));
    let mut w = World::new();
    w.others = vec![(addr("0.0.0.0:5353"), true)];
    let mut kept: Option<Srv> = None;
    for (i, p) in plan.iter().chain([&12]).enumerate() {
        w.setup_err = (*p < 12).then(|| (w.setup_calls.len() + p, errno));
        w.setup_failed = None;
        w.ended = false;
        let t = w.now();
        let mut a = Arrival::new(t + MS, peer(), query(i as u16));
        a.dst = Some(addr("224.0.0.251:5353"));
        w.net.queue.clear();
        w.net.push(a);
        let before = served(k, &w);
        let old = kept.take();
        let r = w.run(|| -> Result<_, String> {
            let s = match old {
                Some(s) => s,
                None => match catch(|| Srv::new(k)).map_err(|e| format!("setting up panicked: {e}"))? {
                    Ok(s) => s,
                    Err(e) => return Ok((Err(e), None)),
                },
            };
            s.serve()
        })?;
        cx.step();
        kept = r.1;
        let Err(e) = r.0 else { return Err("listening ended without an error".into()) };
        if let Some(call) = w.setup_failed {
            ensure!(err_is(&e, errno), "{call} fails with {}, but the error reported is {e}", io::Error::from_raw_os_error(errno));
            ensure!(served(k, &w) == before, "a packet is served although {call} failed");
            cx.cover("set-up call failed");
        } else {
            ensure!(w.ended && err_is(&e, w.end_errno), "round {i}: listening ended with {e}");
            ensure!(served(k, &w) == before + 1, "round {i}: the query was not served");
            if k != Server::Tap {
                check_reply(&w, before, &query(i as u16))?;
            }
        }
        // The async advertiser owns its socket, the others only have one while they listen.
        let own = usize::from(matches!(kept, Some(Srv::Async(_))));
        ensure!(w.open_socks().len() == own, "round {i}: {} sockets are open, expected {own}", w.open_socks().len());
    }
    w.run(|| drop(kept));
    ensure!(w.open_socks().is_empty(), "a socket stays open after everything is dropped");
    Ok(())
}
/// Several servers at once on one host; every one gets its own copy.
fn c25_coexist(cx: &mut Cx) -> R {
    let n = cx.by_tier(5, 7);
    let kinds: Vec<Server> = (0..n).map(|_| *cx.pick(&[Server::Raw, Server::Async, Server::Tap])).collect();
    cx.note(|| format!("{kinds:?} at once"));
    let mut w = World::new();
    let r = w.run(|| -> Result<Vec<Srv>, String> {
        let mut v = vec![];
        for (i, k) in kinds.iter().enumerate() {
            let mut s = catch(|| Srv::new(*k))?.map_err(|e| format!("setting up server {i} ({k:?}) next to the others failed: {e}"))?;
            if let Srv::Raw(a, sock) = &mut s {
                *sock = Some(catch(|| a.create_socket())?.map_err(|e| format!("creating socket {i} next to the others failed: {e}"))?);
            }
            v.push(s);
        }
        Ok(v)
    })?;
    cx.steps(n as u64);
    cx.state(&kinds);
    for (i, s) in r.iter().enumerate() {
        if let Srv::Raw(_, Some(u)) = s {
            let k = w.sock_of(u.as_raw_fd()).ok_or("harness: unknown socket")?;
            ensure!(!w.nonblocking(k), "the socket of server {i} does not block");
        }
    }
    let open = w.open_socks();
    ensure_eq!(open.len(), n, "open sockets");
    for &s in &open {
        for d in ["224.0.0.251:5353", "192.0.2.1:5353", "127.0.0.1:5353"] {
            ensure!(w.accepts(s, addr(d)), "socket {s} does not receive what is sent to {d}");
        }
    }
    // dropping one closes one
    for (i, s) in r.into_iter().enumerate() {
        w.run(|| drop(s));
        ensure_eq!(w.open_socks().len(), n - 1 - i, "open sockets after dropping {} of {n} servers", i + 1);
    }
    Ok(())
}

enum Cli {
    Resolver(SyncResolver),
    AsyncResolver(AsyncResolver),
    Discoverer(SyncDiscoverer),
    AsyncDiscoverer(AsyncDiscoverer),
}
/// 0, 1: given server (IPv4, IPv6), 2, 3: multicast.
fn targets() -> [(usize, SocketAddr); 10] {
    [
        (0, addr("192.0.2.53:53")),
        (0, addr("[2001:db8::53]:53")),
        (0, addr("224.0.0.251:5353")),
        (0, addr("[ff02::fb]:5353")),
        (1, addr("224.0.0.251:5353")),
        (2, addr("[ff02::fb]:5353")),
        (0, addr("127.0.0.1:53")),
        (0, addr("[::1]:5353")),
        (0, addr("[::ffff:192.0.2.53]:53")),
        (0, addr("[fe80::53%2]:53")),
    ]
}
fn has(k: Client, t: (usize, SocketAddr)) -> bool {
    t.0 < 2 || matches!(k, Client::Resolver | Client::AsyncResolver)
}
impl Cli {
    fn new(k: Client, (how, a): (usize, SocketAddr)) -> Result<io::Result<Cli>, String> {
        let local = || conv::dn(&rd::n("local"));
        Ok(match (k, how) {
            (Client::Resolver, 0) => catch(|| SyncResolver::new(a))?.map(Cli::Resolver),
            (Client::Resolver, 1) => catch(SyncResolver::new_multicast_v4)?.map(Cli::Resolver),
            (Client::Resolver, _) => catch(SyncResolver::new_multicast_v6)?.map(Cli::Resolver),
            (Client::AsyncResolver, 0) => exec::finish(AsyncResolver::new(a))?.map(Cli::AsyncResolver),
            (Client::AsyncResolver, 1) => exec::finish(AsyncResolver::new_multicast_v4())?.map(Cli::AsyncResolver),
            (Client::AsyncResolver, _) => exec::finish(AsyncResolver::new_multicast_v6())?.map(Cli::AsyncResolver),
            (Client::Discoverer, 0) => catch(|| SyncDiscoverer::new(a, local()))?.map(Cli::Discoverer),
            (Client::Discoverer, _) => catch(SyncDiscoverer::new_multicast_v4)?.map(Cli::Discoverer),
            (Client::AsyncDiscoverer, 0) => exec::finish(AsyncDiscoverer::new(a, local()))?.map(Cli::AsyncDiscoverer),
            (Client::AsyncDiscoverer, _) => exec::finish(AsyncDiscoverer::new_multicast_v4())?.map(Cli::AsyncDiscoverer),
        })
    }
    /// One operation; what it found as text.
    fn op(&mut self) -> Result<io::Result<String>, String> {
        let host: DomainName = conv::dn(&rd::n("host.local"));
        let mut v = vec![];
        Ok(match self {
            Cli::Resolver(r) => catch(|| r.resolve_domain(&host).map(|i| i.collect::<Vec<IpAddr>>()))?.map(|v| format!("{v:?}")),
            Cli::AsyncResolver(r) => exec::finish(async { r.resolve_domain(&host).await.map(|i| i.collect::<Vec<IpAddr>>()) })?.map(|v| format!("{v:?}")),
            Cli::Discoverer(d) => catch(|| {
                d.discover_service_types(|s| {
                    v.push(s.to_string());
                    ControlFlow::Continue(())
                })
            })?
            .map(|()| format!("{v:?}")),
            Cli::AsyncDiscoverer(d) => exec::finish(d.discover_service_types(|s| {
                v.push(s.to_string());
                ControlFlow::Continue(())
            }))?
            .map(|()| format!("{v:?}")),
        })
    }
    fn set(&mut self, d: Duration) -> Result<io::Result<()>, String> {
        catch(|| match self {
            Cli::Resolver(r) => r.set_timeout(d),
            Cli::AsyncResolver(r) => r.set_timeout(d),
            Cli::Discoverer(x) => x.set_retransmit_timeout(d),
            Cli::AsyncDiscoverer(x) => x.set_retransmit_timeout(d),
        })
    }
    fn want(&self) -> &'static str {
        match self {
            Cli::Resolver(_) | Cli::AsyncResolver(_) => "[192.0.2.1]",
            _ => "[\"_svc._tcp\"]",
        }
    }
}
/// Answers every query at the address it came from, as a server (or mDNS responder) would.
fn reply(data: &[u8]) -> Vec<u8> {
    let Some(q) = rd::parse(data).filter(|q| !q.q.is_empty()) else { return vec![] };
    let n = &q.q[0].name;
    let mut b = Build::new(q.id, 0x8400);
    b = match q.q[0].qtype {
        12 => b.ans(n, &Data::Name(rd::PTR, rd::n("_svc._tcp.local"))),
        _ => b.ans(n, &Data::A([192, 0, 2, 1])),
    };
    b.done()
}
fn network(w: &mut World) {
    w.responder = Some(Box::new(|net, _s, local, to, data| {
        let host: IpAddr = if to.is_ipv6() { "2001:db8::1".parse().unwrap() } else { "192.0.2.1".parse().unwrap() };
        let from = if to.ip().is_multicast() { SocketAddr::new(if to.is_ipv6() { "fe80::7".parse().unwrap() } else { "192.0.2.7".parse().unwrap() }, 5353) } else { to };
        let mut a = Arrival::new(net.now + MS, from, reply(data));
        // the reply is addressed to where the query came from
        a.dst = Some(SocketAddr::new(if local.ip().is_unspecified() { host } else { local.ip() }, local.port()));
        net.push(a);
    }));
}
fn check_socket(w: &World, s: usize, v6: bool) -> R {
    ensure!(w.is_v6(s) == v6, "the client's socket has the wrong address family");
    ensure!(w.looped(s), "the client's queries would not reach servers on the same host");
    ensure!(w.reaches(s), "the client's queries to a group would not leave the host");
    ensure!(w.ephemeral(s), "the client's socket is not bound to an unspecified address and an ephemeral port");
    Ok(())
}

/// One or two clients on a host where the mDNS port is in use.
fn c25_clients(cx: &mut Cx) -> R {
    let n = 1 + cx.choose(2);
    let mut kinds = vec![];
    for _ in 0..n {
        let k = *cx.pick(&CLIENTS);
        let t = targets()[cx.choose(targets().len())];
        if !has(k, t) {
            return Ok(());
        }
        kinds.push((k, t));
    }
    let used = cx.flag();
    let ops = cx.by_tier(3, 4);
    let order: Vec<usize> = (0..ops).map(|_| cx.choose(n)).collect();
    cx.note(|| format!("{kinds:?}, operations of {order:?}"));
    cx.state(&(&kinds, used, &order));
    let mut w = World::new();
    if used {
        w.others = vec![(addr("0.0.0.0:5353"), false), (addr("[::]:5353"), false), (addr("0.0.0.0:53"), false)];
    }
    network(&mut w);
    let mut v = vec![];
    for (k, t) in &kinds {
        let before = w.open_socks();
        let c = w.run(|| Cli::new(*k, *t))?.map_err(|e| format!("creating a {k:?} for {} failed: {e}", t.1))?;
        for s in w.open_socks() {
            if !before.contains(&s) {
                check_socket(&w, s, t.1.is_ipv6())?;
            }
        }
        v.push(c);
    }
    ensure!(w.sends().is_empty(), "creating a client sends something");
    for &i in &order {
        let sent = w.sends().len();
        let r = w.run(|| v[i].op())?;
        cx.step();
        let want = v[i].want();
        match r {
            Ok(g) => ensure!(g == want, "the operation found {g}, the network has {want}"),
            Err(e) => return Err(format!("the operation failed: {e}")),
        }
        let s = w.sends();
        ensure!(s.len() > sent && s[sent..].iter().all(|x| x.1 == kinds[i].1 .1), "queries went to {:?}", s[sent..].iter().map(|x| x.1).collect::<Vec<_>>());
        ensure!(w.open_socks().len() <= n, "{} sockets are open for {n} clients", w.open_socks().len());
    }
    while let Some(c) = v.pop() {
        w.run(|| drop(c));
        ensure!(w.open_socks().len() <= v.len(), "a dropped client leaves its socket open");
    }
    Ok(())
}
/// Every set-up call, send or receive of a client fails once, during creation or an operation.
fn c25_client_faults(cx: &mut Cx) -> R {
    let k = *cx.pick(&CLIENTS);
    let t = targets()[cx.choose(targets().len())];
    if !has(k, t) {
        return Ok(());
    }
    let (errno, rounds) = fault(cx, &[libc::EMFILE, libc::EACCES, libc::ENOBUFS, libc::ENETUNREACH]);
    let mut w = World::new();
    network(&mut w);
    let mut kept: Option<Cli> = None;
    for i in 0..=rounds {
        // 0: nothing fails, then set-up calls, a send, a receive
        let what = if i == rounds { 0 } else { cx.choose(1 + 10 + 2) };
        cx.note(|| format!("{k:?} to {}: round {i}: {}", t.1, if what == 0 { "nothing fails".into() } else if what <= 10 { format!("set-up call {}", what - 1) } else if what == 11 { "send fails".into() } else { "receive fails".into() }));
        cx.state(&(k, t.1, errno, i, what));
        w.setup_err = (1..=10).contains(&what).then(|| (w.setup_calls.len() + what - 1, errno));
        w.setup_failed = None;
        w.send_err = (what == 11).then_some((w.send_calls, errno));
        w.recv_err = (what == 12).then_some((w.recv_calls, errno));
        w.net.queue.clear();
        w.log.clear();
        let old = kept.take();
        let mut fresh = false;
        let r = w.run(|| -> Result<_, String> {
            let mut c = match old {
                Some(c) => c,
                None => match Cli::new(k, t).map_err(|e| format!("creating a client panicked: {e}"))? {
                    Ok(c) => {
                        fresh = true;
                        c
                    }
                    Err(e) => return Ok((Err(e), None)),
                },
            };
            let r = c.op()?;
            Ok((r, Some(c)))
        })?;
        let _ = fresh;
        cx.step();
        let io = w.log.iter().any(|e| matches!(e, Ev::SendFail { .. } | Ev::RecvFail { .. }));
        kept = r.1;
        match (r.0, w.setup_failed) {
            (Ok(_), Some(call)) => return Err(format!("{call} failed, but the operation reports success")),
            (Err(e), Some(call)) => ensure!(err_is(&e, errno), "{call} fails with {}, but the error reported is {e}", io::Error::from_raw_os_error(errno)),
            (Err(e), None) => ensure!(io && err_is(&e, errno), "the operation failed: {e}"),
            (Ok(g), None) => {
                ensure!(!io, "a socket error is not reported");
                let want = kept.as_ref().unwrap().want();
                ensure!(g == want, "the operation found {g}, the network has {want}");
            }
        }
        let own = usize::from(kept.is_some());
        ensure!(w.open_socks().len() <= own, "round {i}: {} sockets are open, expected {own}", w.open_socks().len());
    }
    w.run(|| drop(kept));
    ensure!(w.open_socks().is_empty(), "a socket stays open after everything is dropped");
    Ok(())
}
/// Settings that are refused leave the earlier ones in force.
fn c25_settings(cx: &mut Cx) -> R {
    let k = *cx.pick(&[Client::Resolver, Client::Discoverer]);
    let n = cx.by_tier(4, 5);
    let v6 = cx.flag();
    let vals = [Duration::ZERO, Duration::from_millis(20), Duration::from_millis(450), Duration::from_micros(1500)];
    let mut w = World::new();
    w.end_errno = libc::EIO;
    let mut c = w.run(|| Cli::new(k, targets()[v6 as usize]))?.map_err(|e| format!("creating a client failed: {e}"))?;
    let mut cur: Option<u64> = None;
    for i in 0..n {
        match cx.choose(vals.len() * 2 + 1) {
            x if x < vals.len() * 2 => {
                let (d, fault) = (vals[x / 2], x % 2 == 1);
                w.setup_err = fault.then(|| (w.setup_calls.len(), libc::ENOBUFS));
                w.setup_failed = None;
                let r = w.run(|| c.set(d))?;
                cx.note(|| format!("set to {d:?}{}: {}", if fault { ", the system refuses" } else { "" }, if r.is_ok() { "accepted" } else { "refused" }));
                w.setup_err = None;
                match r {
                    Ok(()) => {
                        ensure!(!d.is_zero(), "a timeout of zero is accepted");
                        ensure!(w.setup_failed.is_none(), "setting the timeout failed, but success is reported");
                        cur = Some(d.as_nanos() as u64);
                    }
                    Err(e) => ensure!(d.is_zero() || fault && err_is(&e, libc::ENOBUFS), "setting the timeout to {d:?} failed: {e}"),
                }
            }
            _ => wait(cx, k, &mut c, &mut w, cur)?,
        }
        cx.step();
        cx.state(&(k, i, cur));
    }
    wait(cx, k, &mut c, &mut w, cur)?;
    w.run(|| drop(c));
    Ok(())
}
/// An operation in silence: its timing shows the timeout in force.
fn wait(cx: &mut Cx, k: Client, c: &mut Cli, w: &mut World, cur: Option<u64>) -> R {
    let (t0, s0) = (w.now(), w.sends().len());
    let r = w.run(|| c.op())?;
    let took = w.now() - t0;
    let s: Vec<u64> = w.sends()[s0..].iter().map(|x| x.0 - t0).collect();
    cx.note(|| format!("operation in silence takes {} us, queries at {s:?}", took / 1000));
    match k {
        Client::Resolver => {
            let d = cur.unwrap_or(500 * MS);
            ensure!(r.is_err() && took == d, "with a timeout of {} us resolving in silence took {} us", d / 1000, took / 1000);
        }
        _ => {
            let d = cur.unwrap_or(300 * MS);
            let want: Vec<u64> = (0..).map(|i| i * d).take_while(|t| *t < 1000 * MS).collect();
            ensure!(r.is_ok() && took == 1000 * MS && s == want, "with a retransmit timeout of {} us queries are sent after {s:?} ns and discovery takes {} us", d / 1000, took / 1000);
        }
    }
    Ok(())
}
/// Operations of async clients and servers dropped anywhere release nothing but themselves.
fn c25_async_drop(cx: &mut Cx) -> R {
    let k = cx.choose(3);
    let n = cx.by_tier(3, 5);
    let mut w = World::new();
    if k != 2 {
        network(&mut w);
    }
    let mut x: Result<Cli, Srv> = match k {
        0 => Ok(w.run(|| Cli::new(Client::AsyncResolver, targets()[cx.choose(2)]))?.map_err(|e| e.to_string())?),
        1 => Ok(w.run(|| Cli::new(Client::AsyncDiscoverer, targets()[cx.choose(2)]))?.map_err(|e| e.to_string())?),
        _ => Err(w.run(|| catch(|| Srv::new(Server::Async)))?.map_err(|e| e.to_string())?),
    };
    for i in 0..n {
        let at = cx.choose(4);
        let late = cx.flag();
        cx.state(&(k, i, at, late));
        let mut plan = Plan { drop_at: Some((at, late)), ..Plan::default() };
        if k == 2 {
            for j in 0..2 {
                let t = w.now();
                let mut a = Arrival::new(t + j * MS, peer(), query(i as u16));
                a.dst = Some(addr("224.0.0.251:5353"));
                w.net.push(a);
            }
        }
        let r = w.run(|| -> Result<bool, String> {
            Ok(match &mut x {
                Ok(Cli::AsyncResolver(r)) => {
                    let h = conv::dn(&rd::n("host.local"));
                    matches!(exec::drive(async { r.resolve_domain(&h).await.map(|i| i.count()) }, &mut plan)?, End::Dropped)
                }
                Ok(Cli::AsyncDiscoverer(d)) => matches!(exec::drive(d.discover_service_types(|_| ControlFlow::Continue(())), &mut plan)?, End::Dropped),
                Err(Srv::Async(a)) => matches!(exec::drive(a.listen(), &mut plan)?, End::Dropped),
                _ => unreachable!(),
            })
        })?;
        cx.outcome(&r);
        cx.step();
        w.ended = false;
        ensure_eq!(w.open_socks().len(), 1, "open sockets after an operation");
        ensure!(async_io::control::waiting() == 0, "a dropped operation still waits for something");
    }
    w.run(|| drop(x));
    ensure!(w.open_socks().is_empty(), "a socket stays open after everything is dropped");
    let _ = (util::hash(&0u8), world::with(|_| ()));
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C25",
        rule: "Real servers (blocking, raw socket, async, tap) and clients run on a virtual host that enforces binding, address reuse, group membership and address families as Linux does, next to other programs' sockets; every system call that sets a socket up or uses it fails once per execution, in every position. Judged: what is received, which error is reported, what is sent, which sockets are left open, and that the next attempt works.",
        assumptions: &["the virtual host follows Linux's rules for UDP port sharing and group membership", "an error counts as reported if it has the same kind or code"],
        scenarios: vec![
            Scenario { name: "servers", f: c25_servers, dev: (0, 0), bounds: "4 kinds of server, 6 sets of other sockets, every sequence of 4 (6) datagrams to 4 addresses, logging on and off" },
            Scenario { name: "server_faults", f: c25_server_faults, dev: (0, 0), bounds: "4 kinds of server, every set-up call failing with any of 130 errors, or with one of 6 in each of 2 (3) rounds, followed by an undisturbed one" },
            Scenario { name: "coexist", f: c25_coexist, dev: (0, 0), bounds: "5 (7) servers of 3 kinds at once" },
            Scenario { name: "clients", f: c25_clients, dev: (0, 0), bounds: "1 or 2 clients of 4 kinds for 10 servers, port in use or not, every order of 3 (4) operations" },
            Scenario { name: "client_faults", f: c25_client_faults, dev: (0, 0), bounds: "4 kinds of client, 10 servers, every set-up call, send or receive failing with any of 130 errors, or with one of 4 in each of 2 (3) rounds, followed by an undisturbed one" },
            Scenario { name: "settings", f: c25_settings, dev: (0, 0), bounds: "every sequence of 4 (5) of: set the timeout to one of 4 values (system call failing or not), operation in silence" },
            Scenario { name: "async_drop", f: c25_async_drop, dev: (0, 0), bounds: "every sequence of 3 (5) operations each dropped at one of 4 suspensions, before or after its event" },
        ],
    }]
}
