//! C21: the async resolver next to the blocking one.
use crate::conv;
use crate::exec::{self, End, Plan};
use crate::pool::{self, Dg};
use std::io::ErrorKind;
use std::net::{IpAddr, SocketAddr};
use uwuhi::resolver::SyncResolver;
use uwuhi_async::resolver::AsyncResolver;
use vcore::explore::{catch, Property, Scenario};
use vcore::refdns::{self as rd, Name};
use vcore::world::{self, Arrival, Ev, World, MS};
use vcore::{ensure, ensure_eq, logcap, Cx};

type R = Result<(), String>;
const US: u64 = 1000;
type Got = Result<Vec<IpAddr>, (ErrorKind, Option<i32>)>;

fn text(n: &Name) -> String {
    n.iter().map(|l| String::from_utf8_lossy(l).into_owned() + ".").collect()
}
/// An operation on a resolver.
#[derive(Clone, Debug)]
pub enum Ask {
    Text(String),
    Name(Name),
    /// The addresses are used in one of several ways.
    Partly(Name, usize),
}
fn kind<T>(r: std::io::Result<T>) -> Result<T, (ErrorKind, Option<i32>)> {
    // "would block" and "timed out" are the same kind of error to a caller
    r.map_err(|e| match e.kind() {
        ErrorKind::WouldBlock | ErrorKind::TimedOut => (ErrorKind::TimedOut, None),
        k => (k, e.raw_os_error()),
    })
}
fn sync_ask(x: &mut SyncResolver, a: &Ask) -> Result<Got, String> {
    catch(|| {
        kind(match a {
            Ask::Partly(n, how) => x.resolve_domain(&conv::dn(n)).map(|i| pool::use_up(i, *how)),
            Ask::Text(s) => x.resolve(s).map(|i| i.collect::<Vec<_>>()),
            Ask::Name(n) => x.resolve_domain(&conv::dn(n)).map(|i| i.collect::<Vec<_>>()),
        })
    })
}
fn async_ask(x: &mut AsyncResolver, a: &Ask, plan: &mut Plan) -> Result<End<Got>, String> {
    exec::drive(
        async {
            kind(match a {
                Ask::Partly(n, how) => x.resolve_domain(&conv::dn(n)).await.map(|i| pool::use_up(i, *how)),
                Ask::Text(s) => x.resolve(s).await.map(|i| i.collect::<Vec<_>>()),
                Ask::Name(n) => x.resolve_domain(&conv::dn(n)).await.map(|i| i.collect::<Vec<_>>()),
            })
        },
        plan,
    )
}
type Sends = Vec<(u64, SocketAddr, Vec<u8>)>;
fn show(s: &Sends) -> String {
    s.iter().map(|(t, a, d)| format!("{}us to {a} {}", t / US, vcore::util::show(d))).collect::<Vec<_>>().join("; ")
}
/// Everything observable about a sequence of operations.
#[derive(PartialEq, Eq, Hash)]
struct Seen {
    sends: Sends,
    got: Vec<(Got, u64)>,
}
fn compare(a: &Seen, b: &Seen) -> R {
    for (i, (x, y)) in a.got.iter().zip(&b.got).enumerate() {
        ensure!(x.0 == y.0, "operation {i}: the async resolver gives {:?}, the blocking one {:?}", x.0, y.0);
    }
    ensure!(a.sends == b.sends, "the async resolver sends [{}], the blocking one [{}]", show(&a.sends), show(&b.sends));
    for (i, (x, y)) in a.got.iter().zip(&b.got).enumerate() {
        ensure!(x.1 == y.1, "operation {i}: the async resolver finishes at {} us, the blocking one at {} us", x.1 / US, y.1 / US);
    }
    Ok(())
}
/// One world for each resolver, with identical surroundings.
fn worlds<'a>(prep: impl Fn(&mut World)) -> [World<'a>; 2] {
    [(); 2].map(|_| {
        let mut w = World::new();
        w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
        prep(&mut w);
        w
    })
}
struct Conf {
    servers: Vec<SocketAddr>,
    timeout: Option<u64>,
}
fn server() -> SocketAddr {
    "192.0.2.53:53".parse().unwrap()
}
fn mk_async(c: &Conf) -> Result<AsyncResolver, String> {
    let mut x = exec::finish(AsyncResolver::new(c.servers[0]))?.map_err(|e| format!("creating an async resolver failed: {e}"))?;
    for s in &c.servers[1..] {
        x.add_server(*s);
    }
    if let Some(t) = c.timeout {
        x.set_timeout(world::duration(t)).map_err(|e| format!("set_timeout: {e}"))?;
    }
    Ok(x)
}
fn mk_sync(c: &Conf) -> Result<SyncResolver, String> {
    let mut x = SyncResolver::new(c.servers[0]).map_err(|e| format!("creating a resolver failed: {e}"))?;
    for s in &c.servers[1..] {
        x.add_server(*s);
    }
    if let Some(t) = c.timeout {
        x.set_timeout(world::duration(t)).map_err(|e| format!("set_timeout: {e}"))?;
    }
    Ok(x)
}
/// Runs the operations on both; `plan` applies to the async side's first operation.
fn both(cx: &mut Cx, c: &Conf, prep: impl Fn(&mut World), asks: &[Ask], plan: &mut Plan) -> R {
    let [mut wa, mut ws] = worlds(prep);
    let mut a = Seen { sends: vec![], got: vec![] };
    wa.run(|| -> R {
        let mut x = mk_async(c)?;
        for (i, k) in asks.iter().enumerate() {
            let mut none = Plan::default();
            let g = async_ask(&mut x, k, if i == 0 { &mut *plan } else { &mut none })?.done().unwrap();
            a.got.push((g, exec::now()));
        }
        Ok(())
    })?;
    a.sends = wa.sends();
    let mut s = Seen { sends: vec![], got: vec![] };
    ws.run(|| -> R {
        let mut x = mk_sync(c)?;
        for k in asks {
            let g = sync_ask(&mut x, k)?;
            s.got.push((g, exec::now()));
        }
        Ok(())
    })?;
    s.sends = ws.sends();
    cx.steps((wa.recv_taken + ws.recv_taken + 2 * asks.len()) as u64);
    cx.state(&a);
    cx.outcome(&a.got);
    compare(&a, &s)
}

fn c21_diff(cx: &mut Cx) -> R {
    let name = rd::n("Host.example.org");
    let p: Vec<Dg> = pool::addr_pool(&name);
    let n = cx.by_tier(3, 4);
    let to = 200 * MS;
    let mut t = 0;
    let mut arr = vec![];
    logcap::enable(cx.dev(2) == 1);
    for i in 0..n {
        let k = cx.choose(p.len());
        t += [10 * MS, 0, 195 * MS, 205 * MS][cx.dev(4)];
        let at = t + (i as u64 + 1) * US;
        cx.note(|| format!("{}us: {}", at / US, p[k].0));
        arr.push((at, pool::peers()[(i + k) % 3], k));
    }
    let c = Conf { servers: vec![server()], timeout: Some(to) };
    both(cx, &c, |w| arr.iter().for_each(|(t, a, k)| w.arrive(*t, *a, p[*k].1.clone())), &[Ask::Text(text(&name))], &mut Plan::default())
}
fn case(cx: &mut Cx, c: &pool::Case) -> R {
    cx.note(|| c.what.clone());
    let by_text = cx.flag() && c.owner.iter().all(|l| !l.contains(&b'.') && std::str::from_utf8(l).is_ok());
    logcap::enable(by_text);
    let conf = Conf { servers: vec![server()], timeout: Some(100 * MS) };
    let ask = if by_text { Ask::Text(text(&c.owner)) } else { Ask::Name(c.owner.clone()) };
    cx.state(&(&c.owner, &c.dgs));
    both(cx, &conf, |w| c.dgs.iter().enumerate().for_each(|(i, d)| w.arrive((i as u64 + 1) * MS, pool::peers()[i % 3], d.clone())), &[ask], &mut Plan::default()).map_err(|e| format!("{}: {e}", c.what))
}
fn c21_values(cx: &mut Cx) -> R {
    let c = pool::addr_values(cx);
    case(cx, &c)
}
fn c21_broken(cx: &mut Cx) -> R {
    let c = pool::addr_broken(cx);
    case(cx, &c)
}
/// Histories of resolutions: replies early, late, crosswise; socket errors; sockets not writable;
/// spurious wake-ups.
fn c21_history(cx: &mut Cx) -> R {
    let names = [rd::n("one.local"), rd::n("two.local")];
    let ops = cx.by_tier(2, 3);
    let nserv = 1 + cx.choose(2);
    let c = Conf { servers: (0..nserv).map(|i| SocketAddr::from(([192, 0, 2, 53 + i as u8], 53))).collect(), timeout: Some(100 * MS) };
    let mut arr = vec![];
    let mut slot = 0;
    for k in 0..cx.by_tier(2, 3) as u64 {
        slot += [2 * MS, 60 * MS, 130 * MS][cx.choose(3)];
        let i = cx.choose(2);
        let at = slot + (k + 1) * US;
        let b = rd::Build::new(0x3039, 0x8400);
        let d = match cx.choose(3) {
            0 => b.ans(&names[i], &rd::Data::A([10, 0, i as u8, k as u8])).done(),
            1 => {
                let m = b.ans(&names[i], &rd::Data::A([66, 6, 6, 6])).ans(&names[i], &rd::Data::Aaaa([k as u8; 16])).done();
                m[..m.len() - 3].to_vec()
            }
            _ => b.q(&names[i], 1, 1).done(),
        };
        cx.note(|| format!("{}us: name {i}, {} bytes", at / US, d.len()));
        arr.push((at, d));
    }
    let mut asks = vec![];
    for _ in 0..ops {
        let i = cx.choose(2);
        asks.push(Ask::Name(names[i].clone()));
    }
    // one disturbance
    let mut plan = Plan::default();
    let (mut send_err, mut recv_err, mut block) = (None, None, None);
    match cx.choose(5) {
        0 => {}
        1 => send_err = Some((cx.choose(nserv * ops), *cx.pick(&[libc::ENETUNREACH, libc::EPERM]))),
        2 => recv_err = Some(([0, US, 2 * MS, 61 * MS, 102 * MS, 150 * MS, 199 * MS][cx.choose(7)], *cx.pick(&[libc::ECONNREFUSED, libc::ENETDOWN]))),
        3 => block = Some((cx.choose(nserv * ops), *cx.pick(&[MS, 99 * MS, 150 * MS]))),
        _ => plan.spurious = Some(cx.choose(4)),
    }
    cx.note(|| format!("{nserv} servers, send error {send_err:?}, receive error {recv_err:?}, not writable {block:?}, {plan:?}, asked {asks:?}"));
    both(
        cx,
        &c,
        |w| {
            arr.iter().for_each(|(t, d)| w.arrive(*t, server(), d.clone()));
            w.send_err = send_err;
            w.send_block = block;
            if let Some((t, e)) = recv_err {
                w.net.push(Arrival::error(t, e));
            }
        },
        &asks,
        &mut plan,
    )
}
/// A resolution dropped at every suspension, in every way; the next one is like a fresh blocking
/// resolver's that finds the same datagrams waiting.
fn c21_dropped(cx: &mut Cx) -> R {
    let names = [rd::n("one.local"), rd::n("two.local")];
    let p: Vec<Vec<Dg>> = names.iter().map(|n| pool::addr_pool(n)).collect();
    // kinds of datagrams worth distinguishing here: addresses, aliases, foreign, damaged
    let kinds = [0usize, 1, 2, 4, 7, 11, 13, 22];
    let nserv = 1 + cx.choose(2);
    let c = Conf { servers: (0..nserv).map(|i| SocketAddr::from(([192, 0, 2, 53 + i as u8], 53))).collect(), timeout: Some(100 * MS) };
    let mut w = World::new();
    w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
    let mut t = 0;
    for k in 0..cx.by_tier(2, 3) as u64 {
        t += [10 * MS, 85 * MS, 105 * MS][cx.choose(3)];
        let i = cx.choose(2);
        let d = &p[i][kinds[cx.choose(kinds.len())]];
        cx.note(|| format!("{}us: name {i} {}", (t + k * US) / US, d.0));
        w.arrive(t + k * US, pool::peers()[k as usize % 3], d.1.clone());
    }
    if cx.flag() {
        w.send_block = Some((cx.choose(nserv), 50 * MS));
    }
    let (i, j) = (cx.choose(2), cx.choose(2));
    let mut plan = Plan { drop_at: Some((cx.choose(4), cx.flag())), ..Plan::default() };
    cx.note(|| format!("resolve name {i}, {plan:?}, then name {j}, not writable {:?}", w.send_block));
    let mut x = w.run(|| mk_async(&c))?;
    let first = w.run(|| async_ask(&mut x, &Ask::Name(names[i].clone()), &mut plan))?;
    if first != End::Dropped {
        cx.cover("not dropped");
        w.run(|| drop(x));
        return Ok(());
    }
    cx.cover("dropped");
    // the same surroundings for a fresh blocking resolver
    let mut s = World::new();
    s.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
    s.net.now = w.net.now;
    s.net.queue = w.net.queue.clone();
    if let Some(u) = w.send_blocked() {
        s.send_block = Some((0, u));
    } else if let Some((n, d)) = w.send_block {
        s.send_block = n.checked_sub(w.send_calls).map(|n| (n, d));
    }
    let before = w.sends().len();
    let got = w.run(|| async_ask(&mut x, &Ask::Name(names[j].clone()), &mut Plan::default()))?.done().unwrap();
    let a = Seen { sends: w.sends()[before..].to_vec(), got: vec![(got, w.now())] };
    let got = s.run(|| -> Result<Got, String> { sync_ask(&mut mk_sync(&c)?, &Ask::Name(names[j].clone())) })?;
    let b = Seen { sends: s.sends(), got: vec![(got, s.now())] };
    cx.steps(2);
    cx.state(&a);
    cx.outcome(&a.got);
    w.run(|| drop(x));
    compare(&a, &b).map_err(|e| format!("after a dropped resolution: {e}"))
}
/// Polled later than its events: what had arrived in time still counts.
fn c21_late(cx: &mut Cx) -> R {
    let name = rd::n("one.local");
    let p = pool::addr_pool(&name);
    let kinds = [0usize, 1, 4, 7, 11, 22];
    let mut w = World::new();
    w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
    let mut t = 0;
    let mut arr = vec![];
    for k in 0..2u64 {
        t += [10 * MS, 95 * MS, 130 * MS][cx.choose(3)];
        let i = kinds[cx.choose(kinds.len())];
        arr.push((t + k * US, i));
        w.arrive(t + k * US, server(), p[i].1.clone());
    }
    let late = (cx.choose(3), *cx.pick(&[50 * MS, 100 * MS, 500 * MS]));
    let mut plan = Plan { late: Some(late), ..Plan::default() };
    cx.note(|| format!("{:?}, {plan:?}", arr.iter().map(|a| (a.0 / US, p[a.1].0)).collect::<Vec<_>>()));
    let c = Conf { servers: vec![server()], timeout: Some(100 * MS) };
    let mut x = w.run(|| mk_async(&c))?;
    let g = w.run(|| async_ask(&mut x, &Ask::Name(name.clone()), &mut plan))?.done().unwrap();
    w.run(|| drop(x));
    cx.step();
    // addresses come from the first response having any; a response within the timeout of the
    // start or of a datagram before it may not be missed
    let mut now = 0;
    let mut must = None;
    for (t, i) in &arr {
        if *t > now + 100 * MS {
            break;
        }
        now = *t;
        let a = pool::addrs_of(&p[*i].1, &name);
        if !a.is_empty() {
            must = Some(a);
            break;
        }
    }
    let may = arr.iter().map(|(_, i)| pool::addrs_of(&p[*i].1, &name)).find(|a| !a.is_empty());
    match (&must, &g) {
        (Some(m), g) => ensure!(g.as_ref() == Ok(m), "resolving gives {g:?} although {m:?} arrived in time"),
        (None, Ok(a)) => ensure!(Some(a) == may.as_ref(), "resolving gives {a:?}, the responses say {may:?}"),
        (None, Err(e)) => ensure!(e.0 == ErrorKind::TimedOut, "resolving fails with {e:?}"),
    }
    cx.state(&(&g, w.now()));
    cx.outcome(&g);
    Ok(())
}
fn addresses() -> Vec<SocketAddr> {
    ["192.0.2.53:53", "10.1.2.3:5353", "[2001:db8::53]:53", "[ff02::fb]:5353", "224.0.0.251:5353", "239.255.255.255:1", "[ff05::1]:53", "223.255.255.255:53", "[fe80::1]:53", "[fe80::1%3]:53"].iter().map(|s| s.parse().unwrap()).collect()
}
/// Constructors, server lists, default timeout.
fn c21_servers(cx: &mut Cx) -> R {
    let pool = addresses();
    let ctor = cx.choose(pool.len() + 2);
    let [mut wa, mut ws] = worlds(|_| {});
    let mut a = wa
        .run(|| {
            exec::finish(async {
                match ctor {
                    k if k < pool.len() => AsyncResolver::new(pool[k]).await,
                    k if k == pool.len() => AsyncResolver::new_multicast_v4().await,
                    _ => AsyncResolver::new_multicast_v6().await,
                }
            })
        })?
        .map_err(|e| format!("creating an async resolver failed: {e}"))?;
    let mut s = ws
        .run(|| match ctor {
            k if k < pool.len() => SyncResolver::new(pool[k]),
            k if k == pool.len() => SyncResolver::new_multicast_v4(),
            _ => SyncResolver::new_multicast_v6(),
        })
        .map_err(|e| format!("creating a resolver failed: {e}"))?;
    let binds = |w: &World| w.log.iter().filter(|e| matches!(e, Ev::Bind { .. })).cloned().collect::<Vec<_>>();
    ensure_eq!(binds(&wa), binds(&ws), "socket of the async resolver, compared with the blocking one's");
    let name = Ask::Name(rd::n("a.example"));
    for _ in 0..cx.by_tier(2, 3) {
        let k = cx.choose(pool.len() + 1);
        if k == 0 {
            break;
        }
        if cx.flag() {
            // a resolution before
            let ga = wa.run(|| async_ask(&mut a, &name, &mut Plan::default()))?.done().unwrap();
            let gs = ws.run(|| sync_ask(&mut s, &name))?;
            ensure!(ga == gs, "the async resolver gives {ga:?}, the blocking one {gs:?}");
        }
        let ra = wa.run(|| catch(|| a.add_server(pool[k - 1])));
        let rs = ws.run(|| catch(|| s.add_server(pool[k - 1])));
        cx.step();
        ensure!(ra.is_ok() == rs.is_ok(), "adding {} is {} by the async resolver, not by the blocking one", pool[k - 1], if ra.is_ok() { "accepted" } else { "refused" });
    }
    let ga = wa.run(|| async_ask(&mut a, &name, &mut Plan::default()))?.done().unwrap();
    let gs = ws.run(|| sync_ask(&mut s, &name))?;
    let x = Seen { sends: wa.sends(), got: vec![(ga, wa.now())] };
    let y = Seen { sends: ws.sends(), got: vec![(gs, ws.now())] };
    cx.state(&x);
    wa.run(|| drop(a));
    ws.run(|| drop(s));
    compare(&x, &y)
}
/// Any number of servers; one answer, or none.
fn c21_many(cx: &mut Cx) -> R {
    let n = match cx.choose(36) {
        k if k < 33 => k + 1,
        k => [64, 100, 300][k - 33],
    };
    let v6 = cx.flag();
    let style = cx.choose(4);
    let servers: Vec<SocketAddr> = (0..n)
        .map(|k| {
            let (h, p) = [(k, 53), (0, 53 + k as u16), (k % 3, 53), (n - k, 1 + (k * 251) as u16)][style];
            if v6 {
                SocketAddr::from(([0x2001, 0xdb8, 0, 0, 0, 0, 0, 1 + h as u16], p))
            } else {
                SocketAddr::from(([192, 0, (2 + h / 250) as u8, (1 + h % 250) as u8], p))
            }
        })
        .collect();
    let name = rd::n("a.example");
    // nobody answers, or the first, or the last; sooner or after the first resolution
    let who = cx.choose(3);
    let at = *cx.pick(&[MS, 150 * MS]);
    cx.note(|| format!("{n} servers, v6 {v6}, style {style}, answer {who} at {} ms", at / MS));
    let c = Conf { servers: servers.clone(), timeout: Some(100 * MS) };
    let d = rd::Build::new(0x3039, 0x8180).ans(&name, &rd::Data::A([1, 2, 3, 4])).done();
    let asks = vec![Ask::Name(name.clone()); 3];
    both(
        cx,
        &c,
        |w| {
            if who > 0 {
                w.arrive(at, if who == 1 { servers[0] } else { servers[n - 1] }, d.clone());
            }
        },
        &asks,
        &mut Plan::default(),
    )
}
/// Every error code at every send and receive.
fn c21_errors(cx: &mut Cx) -> R {
    // every error but the ones that stand for a timeout or ask to try again
    let codes: Vec<i32> = (1..=133).filter(|c| ![libc::EAGAIN, libc::EINTR, libc::ETIMEDOUT].contains(c)).collect();
    let code = *cx.pick(&codes);
    let nserv = 1 + cx.choose(3);
    let send = cx.flag();
    let pos = cx.choose(if send { nserv + 1 } else { 4 });
    let name = rd::n("a.example");
    cx.note(|| format!("{nserv} servers, {} {pos} fails with {code}", if send { "send" } else { "receive" }));
    let c = Conf { servers: (0..nserv).map(|i| SocketAddr::from(([192, 0, 2, 53 + i as u8], 53))).collect(), timeout: Some(100 * MS) };
    let d = rd::Build::new(0x3039, 0x8180).ans(&name, &rd::Data::A([1, 2, 3, 4])).done();
    both(
        cx,
        &c,
        |w| {
            if send {
                w.send_err = Some((pos, code));
            } else {
                w.net.push(Arrival::error([0, MS, 15 * MS, 130 * MS][pos], code));
            }
            w.arrive(10 * MS, server(), vec![7; 13]);
            w.arrive(20 * MS, server(), d.clone());
            w.arrive(150 * MS, server(), d.clone());
        },
        &[Ask::Name(name.clone()), Ask::Name(name.clone()), Ask::Name(name.clone())],
        &mut Plan::default(),
    )
}
/// Timeouts from a millisecond to a lifetime.
fn c21_spans(cx: &mut Cx) -> R {
    let to = *cx.pick(&[1, 2, 5, 10, 99, 100, 101, 499, 501, 999, 1000, 1001, 1999, 2000, 4999, 5000, 5001, 9999, 10_000, 10_001, 29_999, 30_000, 30_001, 59_999, 60_000, 61_000, 300_000, 3_600_000, 86_400_000, 604_800_000, 2_592_000_000, 4_320_000_000, 34_560_000_000, 2_200_000_000_000u64]) * MS;
    let name = rd::n("a.example");
    let n = cx.choose(4);
    let at = *cx.pick(&[to / 2, to - MS / 4, to + MS / 4]);
    let good = cx.flag();
    cx.note(|| format!("timeout {} ms, {n} datagrams {} us apart", to / MS, at / US));
    let c = Conf { servers: vec![server()], timeout: Some(to) };
    both(
        cx,
        &c,
        |w| {
            for i in 0..n {
                let d = if good && i + 1 == n { rd::Build::new(0x3039, 0x8180).ans(&name, &rd::Data::A([1, 2, 3, 4])).done() } else { vec![7; 13] };
                w.arrive((i as u64 + 1) * at, server(), d);
            }
        },
        &[Ask::Name(name.clone()), Ask::Name(name.clone())],
        &mut Plan::default(),
    )
}
/// The addresses are taken out one by one, in part, or not at all, before the next resolution.
fn c21_partly(cx: &mut Cx) -> R {
    let (na, nb) = (rd::n("a.example"), rd::n("b.example"));
    let mut asks = vec![];
    let mut arr = vec![];
    let mut t = 0;
    for op in 0..cx.by_tier(3, 4) {
        let n = *cx.pick(&[2usize, 0, 1, 5, 17]);
        let how = cx.choose(if op < 2 { pool::USES } else { 1 });
        let name = if op % 2 == 0 { &na } else { &nb };
        cx.note(|| format!("resolution {op}: {n} addresses, used in way {how}"));
        arr.push((t + MS, pool::addrs(name, n, op as u8)));
        t += if n == 0 { 101 * MS } else { MS };
        asks.push(Ask::Partly(name.clone(), how));
    }
    let c = Conf { servers: vec![server()], timeout: Some(100 * MS) };
    both(cx, &c, |w| arr.iter().for_each(|(t, m)| w.arrive(*t, server(), m.clone())), &asks, &mut Plan::default())
}
/// Any number of datagrams without an answer in front of one, at once or spread out.
fn c21_stream(cx: &mut Cx) -> R {
    let n: usize = *cx.pick(&[10usize, 33, 100, 257, 1025, 4100, 66_000]);
    let gap = *cx.pick(&[0u64, US, 10 * MS, 90 * MS]);
    let name = rd::n("a.example");
    let p = pool::addr_pool(&name);
    let useless: Vec<usize> = (0..p.len()).filter(|&i| pool::addrs_of(&p[i].1, &name).is_empty()).collect();
    let which = cx.choose(useless.len() + 1);
    let good = cx.flag();
    if n > 60_000 && (which != useless.len() || ![US, 90 * MS].contains(&gap)) {
        return Ok(());
    }
    cx.note(|| format!("{n} datagrams every {} us, kind {which}, answered {good}", gap / US));
    let c = Conf { servers: vec![server()], timeout: Some(100 * MS) };
    both(
        cx,
        &c,
        |w| {
            w.horizon = 20_000 + 40 * n;
            for i in 0..n {
                let k = useless[if which == useless.len() { i % which } else { which }];
                w.arrive(i as u64 * gap, pool::peers()[i % 3], p[k].1.clone());
            }
            if good {
                w.arrive(n as u64 * gap, server(), p[0].1.clone());
            }
        },
        &[Ask::Name(name.clone()), Ask::Name(name.clone())],
        &mut Plan::default(),
    )
}
/// Timers fire late and looking at the clock takes time: the same result at about the same time.
fn c21_rough(cx: &mut Cx) -> R {
    let to = *cx.pick(&[100 * MS, 7 * MS, 500 * MS, 5000 * MS]);
    let (late, tick) = *cx.pick(&[(0, 0), (US, 0), (60 * US, 0), (MS, 0), (US, 1), (60 * US, 777), (MS, 50 * US), (0, 20 * US)]);
    let name = rd::n("a.example");
    let mut t = 0;
    let mut arr = vec![];
    for i in 0..cx.by_tier(2, 3) {
        // well before a timer may fire, or well after all have
        let gaps = [MS, to / 2, to - 2 * MS, to + 20 * MS];
            let Some(g) = gaps.get(cx.choose(5)) else { break };
        t += g;
        let d = if cx.flag() { rd::Build::new(0x3039, 0x8180).ans(&name, &rd::Data::A([9, 9, 9, i as u8])).done() } else { vec![1; 20] };
        arr.push((t, d));
    }
    let [mut wa, mut ws] = worlds(|w| {
        w.late = late;
        w.tick = tick;
        arr.iter().for_each(|(t, d)| w.arrive(*t, server(), d.clone()));
    });
    let c = Conf { servers: vec![server()], timeout: Some(to) };
    cx.note(|| format!("timeout {} us, timers {} us late, {tick} ns for each look at the clock, datagrams at {:?} us", to / US, late / US, arr.iter().map(|a| a.0 / US).collect::<Vec<_>>()));
    let ask = Ask::Name(name);
    let a = wa.run(|| -> Result<_, String> {
        let mut x = mk_async(&c)?;
        Ok((async_ask(&mut x, &ask, &mut Plan::default())?.done().unwrap(), exec::now()))
    })?;
    let s = ws.run(|| -> Result<_, String> {
        let mut x = mk_sync(&c)?;
        Ok((sync_ask(&mut x, &ask)?, exec::now()))
    })?;
    cx.steps(2);
    cx.state(&a);
    cx.outcome(&a.0);
    ensure!(a.0 == s.0, "the async resolver gives {:?}, the blocking one {:?}", a.0, s.0);
    let slack = late + 64 * tick;
    ensure!(a.1.abs_diff(s.1) <= slack, "the async resolver finishes at {} us, the blocking one at {} us", a.1 / US, s.1 / US);
    ensure!(wa.sends().iter().map(|s| (s.1, &s.2)).eq(ws.sends().iter().map(|s| (s.1, &s.2))), "the async resolver sends [{}], the blocking one [{}]", show(&wa.sends()), show(&ws.sends()));
    Ok(())
}
/// One name, another one that could be taken for it, and the first again; every reply holds both.
fn c21_kin(cx: &mut Cx) -> R {
    let a = cx.pick(vcore::corpus::bases()).clone();
    let b = cx.pick(vcore::corpus::kin(&a)).clone();
    let swap = cx.flag();
    let is_text = cx.flag();
    let plain = |n: &Name| !n.is_empty() && n.iter().all(|l| !l.contains(&b'.') && std::str::from_utf8(l).is_ok());
    if is_text && !plain(&a) && !plain(&b) {
        return Ok(());
    }
    let mut m = rd::Build::new(0x3039, 0x8180);
    for k in if swap { [1, 0] } else { [0, 1] } {
        let n = [&a, &b][k];
        m = m.ans(n, &rd::Data::A([10, 0, 0, k as u8])).ans(n, &rd::Data::Aaaa([k as u8 + 1; 16]));
    }
    let m = m.done();
    let ask = |n: &Name| if is_text && plain(n) { Ask::Text(text(n)) } else { Ask::Name(n.clone()) };
    cx.note(|| format!("{} and {}", rd::show_name(&a), rd::show_name(&b)));
    let c = Conf { servers: vec![server()], timeout: Some(100 * MS) };
    both(cx, &c, |w| (0..3).for_each(|o| w.arrive((o + 1) * MS, server(), m.clone())), &[ask(&a), ask(&b), ask(&a), ask(&b)], &mut Plan::default())
}
/// Names around every limit; the resolver stays usable.
fn c21_names(cx: &mut Cx) -> R {
    let log = cx.flag();
    logcap::enable(log);
    let first = match cx.choose(3) {
        0 => {
            let bad: Vec<String> = vec!["..".into(), "a..b".into(), ".a".into(), "".into(), "x".repeat(64), format!("a.{}.b", "y".repeat(64)), "z".repeat(300)];
            Ask::Text(cx.pick(&bad).clone())
        }
        1 => Ask::Text(cx.pick(&["a", "a.", "A.b-C._d.e", "host name.local", "."]).to_string()),
        _ => {
            let len = *cx.pick(&(3..=2100).chain([5000, 70000]).chain(65_530..65_800).collect::<Vec<usize>>());
            let mut n: Name = vec![];
            let mut left = len - 1;
            while left > 0 {
                let mut k = 63.min(left - 1);
                if left - (k + 1) == 1 {
                    k -= 1;
                }
                n.push(vec![b'n'; k]);
                left -= k + 1;
            }
            if cx.flag() {
                Ask::Name(n)
            } else {
                Ask::Text(text(&n))
            }
        }
    };
    let next = rd::n("next.example");
    let d = rd::Build::new(0x3039, 0x8180).ans(&next, &rd::Data::A([1, 2, 3, 4])).done();
    cx.note(|| format!("{first:?}"));
    let c = Conf { servers: vec![server()], timeout: None };
    both(cx, &c, |w| w.arrive(700 * MS, server(), d.clone()), &[first, Ask::Name(next.clone()), Ask::Name(next.clone())], &mut Plan::default())
}
/// Timeouts set in any order; datagrams around them.
fn c21_timeouts(cx: &mut Cx) -> R {
    let tos = [MS, 30 * MS, 500 * MS, 7000 * MS];
    let c = Conf { servers: vec![server()], timeout: None };
    let [mut wa, mut ws] = worlds(|_| {});
    let mut a = wa.run(|| mk_async(&c))?;
    let mut s = ws.run(|| mk_sync(&c))?;
    let name = rd::n("a.example");
    let mut to = 500 * MS;
    let (mut x, mut y) = (Seen { sends: vec![], got: vec![] }, Seen { sends: vec![], got: vec![] });
    for op in 0..2u8 {
        let k = cx.choose(5);
        if k > 0 {
            to = tos[k - 1];
            let ra = wa.run(|| a.set_timeout(world::duration(to)).is_ok());
            let rs = ws.run(|| s.set_timeout(world::duration(to)).is_ok());
            ensure_eq!(ra, rs, "setting the timeout succeeds");
        }
        let gaps = [0, to / 2, to - MS / 2, to + MS / 2, 2 * to];
        let mut t = wa.now().max(ws.now());
        for i in 0..2u8 {
            let g = cx.choose(gaps.len() + 1);
            if g == gaps.len() {
                break;
            }
            t += gaps[g];
            let d = if cx.flag() { rd::Build::new(0x3039, 0x8180).ans(&name, &rd::Data::A([9, 9, op, i])).done() } else { vec![1; 20] };
            wa.arrive(t, server(), d.clone());
            ws.arrive(t, server(), d);
        }
        let ga = wa.run(|| async_ask(&mut a, &Ask::Name(name.clone()), &mut Plan::default()))?.done().unwrap();
        let gs = ws.run(|| sync_ask(&mut s, &Ask::Name(name.clone())))?;
        x.got.push((ga, wa.now()));
        y.got.push((gs, ws.now()));
        cx.step();
    }
    x.sends = wa.sends();
    y.sends = ws.sends();
    cx.state(&x);
    cx.outcome(&x.got);
    wa.run(|| drop(a));
    ws.run(|| drop(s));
    compare(&x, &y)
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C21",
        rule: "The real async resolver (on a stand-in async-io whose readiness and timers follow a virtual clock) and the real blocking resolver run over the same datagrams, errors and settings; addresses, errors, sent datagrams and times must be equal. Dropped resolutions are followed by one that must equal a fresh blocking resolver's in the same surroundings.",
        assumptions: &["async-io is replaced by a stand-in with its interface; its reactor thread is not part of the check", "'would block' and 'timed out' count as the same error", "a timeout of zero is not enumerated"],
        scenarios: vec![
            Scenario { name: "diff", f: c21_diff, dev: (1, 2), bounds: "3 (4) datagrams from a pool of 24, up to 1 (2) unusual gaps or logging" },
            Scenario { name: "values", f: c21_values, dev: (0, 0), bounds: "1955 addresses, 4341 queried names or aliases, 0-99 addresses in 4 styles, alias chains of 0-30 in 3 orders, all IDs, 2048 response flags, 4 TTLs x 2 classes, 1254 labels put anywhere into the owner; as text and as name" },
            Scenario { name: "kin", f: c21_kin, dev: (0, 0), bounds: "31 names of 1 to 127 labels, each with every name one change away: both resolved in turn on one resolver, as text or name, every reply holding both in either order" },
            Scenario { name: "broken", f: c21_broken, dev: (0, 0), bounds: "about 3500 damaged datagrams before an intact one" },
            Scenario { name: "history", f: c21_history, dev: (0, 0), bounds: "2 (3) resolutions of 2 names, 1-2 servers, 2 (3) replies of 3 kinds at 3 gaps, one of: send error, receive error, socket not writable, spurious wake-up, at every position" },
            Scenario { name: "dropped", f: c21_dropped, dev: (0, 0), bounds: "dropped at each of 4 suspensions before or after its event, 2 (3) datagrams (8 kinds x 2 names x 3 gaps), 1-2 servers, unwritable socket at each send" },
            Scenario { name: "late", f: c21_late, dev: (0, 0), bounds: "2 datagrams of 6 kinds at 3 gaps, polled late after each of 3 suspensions by 3 delays" },
            Scenario { name: "servers", f: c21_servers, dev: (0, 0), bounds: "11 constructors x all sequences of up to 2 (3) additions from 10 addresses, with or without a resolution before each" },
            Scenario { name: "many", f: c21_many, dev: (0, 0), bounds: "1-33, 64, 100, 300 servers of both families in 4 styles, one answer at 2 moments or none, 3 resolutions" },
            Scenario { name: "rough", f: c21_rough, dev: (0, 0), bounds: "4 timeouts x 8 ways in which timers fire late and looking at the clock takes time x up to 2 (3) datagrams at 4 gaps" },
            Scenario { name: "errors", f: c21_errors, dev: (0, 0), bounds: "130 error codes at every send of 1-3 servers or 4 moments of receiving, 3 resolutions" },
            Scenario { name: "spans", f: c21_spans, dev: (0, 0), bounds: "34 timeouts from 1 ms to 69 years, 0-3 datagrams at 3 gaps" },
            Scenario { name: "partly", f: c21_partly, dev: (0, 0), bounds: "3 (4) resolutions with 0-17 addresses, each but the last with the addresses used in one of 10 ways (not at all, some, all, one by one)" },
            Scenario { name: "stream", f: c21_stream, dev: (0, 0), bounds: "10 to 4100 datagrams without use (each of 16 kinds, or all in turn) at 4 rates, and 66000 at 2 rates, followed by an answer or not" },
            Scenario { name: "names", f: c21_names, dev: (0, 0), bounds: "invalid and unusual texts, 2370 wire lengths, followed by two resolutions" },
            Scenario { name: "timeouts", f: c21_timeouts, dev: (0, 0), bounds: "2 resolutions, 5 timeout settings, up to 2 datagrams each over 5 gaps around the timeout" },
        ],
    }]
}
