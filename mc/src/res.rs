//! C16, C17: the blocking resolver on a virtual network.
use crate::conv;
use crate::pool::{self, Dg};
use std::io::ErrorKind;
use std::net::{IpAddr, SocketAddr};
use uwuhi::resolver::SyncResolver;
use vcore::explore::{catch, Property, Scenario};
use vcore::refdns::{self as rd, Name};
use vcore::world::{self, Ev, World, MS};
use vcore::{ensure, ensure_eq, logcap, util, Cx};

type R = Result<(), String>;
const US: u64 = 1000;

type Got = Result<Vec<IpAddr>, (ErrorKind, Option<i32>)>;
fn resolve(x: &mut SyncResolver, name: &Name, text: bool) -> Result<Got, String> {
    let s: String = name.iter().map(|l| String::from_utf8_lossy(l).into_owned() + ".").collect();
    catch(|| {
        let r = if text { x.resolve(&s).map(|i| i.collect::<Vec<_>>()) } else { x.resolve_domain(&conv::dn(name)).map(|i| i.collect::<Vec<_>>()) };
        r.map_err(|e| (e.kind(), e.raw_os_error()))
    })
}
fn server() -> SocketAddr {
    "192.0.2.53:53".parse().unwrap()
}
fn check_query(data: &[u8], name: &Name) -> R {
    let Some(m) = rd::parse(data) else { return Err("query is too short".into()) };
    ensure!(m.err.is_none() && m.end == data.len(), "query does not decode: {}", util::hex(data));
    ensure_eq!(m.flags, rd::RD, "query flags");
    ensure!(m.rr.iter().all(|r| r.is_empty()), "query has records");
    let mut t: Vec<u16> = m.q.iter().map(|q| q.qtype).collect();
    t.sort();
    ensure!(t == [rd::A, rd::AAAA], "query asks for types {t:?} instead of A and AAAA");
    for q in &m.q {
        ensure!(q.qclass == 1, "query class {}", q.qclass);
        ensure!(rd::eq_ci(&q.name, name), "query is about {}, expected {}", rd::show_name(&q.name), rd::show_name(name));
    }
    Ok(())
}
fn timed_out(g: &Got) -> bool {
    matches!(g, Err((ErrorKind::TimedOut | ErrorKind::WouldBlock, _)))
}
/// Judges one resolution started at t0 that ended at `end`; returns the number of datagrams used.
fn judge(t0: u64, to: u64, end: u64, arr: &[(u64, &[u8])], name: &Name, g: &Got) -> Result<usize, String> {
    judge_rough(t0, to, end, arr, name, g, 0, 0)
}
/// The same where timers fire up to `late` after their time and computing takes up to `work`.
fn judge_rough(t0: u64, to: u64, end: u64, arr: &[(u64, &[u8])], name: &Name, g: &Got, late: u64, work: u64) -> Result<usize, String> {
    let mut now = t0;
    for (i, (t, d)) in arr.iter().enumerate() {
        let t = (*t).max(now);
        if t > now + to {
            break;
        }
        now = t;
        let a = pool::addrs_of(d, name);
        if !a.is_empty() {
            ensure!(g.as_ref() == Ok(&a), "resolving gives {g:?}, the first response with addresses says {a:?}");
            ensure!((now..=now + work).contains(&end), "the answer arrived after {} us but the resolution took {} us", (now - t0) / US, (end - t0) / US);
            return Ok(i + 1);
        }
        if i + 1 == arr.len() {
            now = t;
        }
    }
    let used = {
        let mut n = t0;
        let mut k = 0;
        for (t, _) in arr {
            let t = (*t).max(n);
            if t > n + to {
                break;
            }
            n = t;
            k += 1;
        }
        k
    };
    ensure!(timed_out(g), "resolving gives {g:?} although no response with addresses arrived in time");
    ensure!((now + to..=now + to + late + work).contains(&end), "timed out {} us after the last datagram, the timeout is {} us", (end - now) / US, to / US);
    Ok(used)
}

fn c16_run(cx: &mut Cx, srv: SocketAddr) -> R {
    let name = rd::n("Host.example.org");
    let p: Vec<Dg> = pool::addr_pool(&name);
    let n = cx.by_tier(3, 4);
    let to = 200 * MS;
    let mut w = World::new();
    w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
    let mut t = 0;
    let mut arr = vec![];
    let log = cx.dev(2) == 1;
    logcap::enable(log);
    for i in 0..n {
        let k = cx.choose(p.len());
        t += [10 * MS, 0, 195 * MS, 205 * MS][cx.dev(4)];
        let at = t + (i as u64 + 1) * US;
        cx.note(|| format!("{}us: {}", at / US, p[k].0));
        arr.push((at, k));
        w.arrive(at, pool::peers()[(i + k) % 3], p[k].1.clone());
    }
    let (g, end) = w.run(|| -> Result<_, String> {
        let mut x = SyncResolver::new(srv).map_err(|e| format!("creating a resolver failed: {e}"))?;
        x.set_timeout(world::duration(to)).map_err(|e| format!("set_timeout: {e}"))?;
        let g = resolve(&mut x, &name, true)?;
        Ok((g, world::with(|w| w.now()).unwrap()))
    })?;
    cx.steps(w.recv_taken as u64 + 1);
    let a: Vec<(u64, &[u8])> = arr.iter().map(|&(t, k)| (t, &p[k].1[..])).collect();
    judge(0, to, end, &a, &name, &g)?;
    cx.state(&(&g, end));
    cx.outcome(&g);
    Ok(())
}
fn c16_unicast(cx: &mut Cx) -> R {
    c16_run(cx, server())
}
fn c16_multicast(cx: &mut Cx) -> R {
    c16_run(cx, "224.0.0.251:5353".parse().unwrap())
}
/// Several resolutions through one resolver; replies arrive early, late, twice and crosswise.
fn c16_stale(cx: &mut Cx) -> R {
    let names = [rd::n("one.local"), rd::n("two.local"), rd::n("One.local.net")];
    let to = 100 * MS;
    let ops = cx.by_tier(2, 3);
    let n = cx.by_tier(3, 4);
    let reply = |i: usize, part: usize| -> Vec<u8> {
        let b = rd::Build::new(0x3039, 0x8400);
        let (v4, v6) = (rd::Data::A([10, 0, i as u8, part as u8]), rd::Data::Aaaa([i as u8 + 1; 16]));
        match part {
            0 => b.ans(&names[i], &v4).done(),
            1 => b.ans(&names[i], &v4).ans(&names[i], &v6).done(),
            2 => {
                // damaged after a good address
                let m = b.ans(&names[i], &rd::Data::A([66, 6, 6, 6])).ans(&names[i], &v6).done();
                m[..m.len() - 3].to_vec()
            }
            _ => b.q(&names[i], 1, 1).done(),
        }
    };
    let mut w = World::new();
    w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
    let mut arr: Vec<(u64, Vec<u8>)> = vec![];
    let mut slot = 0;
    let k_names = cx.by_tier(2, 3);
    for k in 0..n {
        let gap = cx.choose(3);
        slot += [2 * MS, 60 * MS, 130 * MS][gap];
        let i = cx.choose(k_names);
        let part = cx.choose(4);
        let at = slot + (k as u64 + 1) * US;
        cx.note(|| format!("{}us: name {i} part {part}", at / US));
        let m = reply(i, part);
        arr.push((at, m.clone()));
        w.arrive(at, pool::peers()[k % 3], m);
    }
    let mut x = w.run(|| SyncResolver::new(server()).map_err(|e| format!("creating a resolver failed: {e}")))?;
    w.run(|| x.set_timeout(world::duration(to))).map_err(|e| format!("set_timeout: {e}"))?;
    let mut todo = &arr[..];
    for o in 0..ops {
        let i = cx.choose(k_names);
        cx.note(|| format!("resolve name {i}"));
        let t0 = w.now();
        let taken = w.recv_taken;
        let g = w.run(|| resolve(&mut x, &names[i], o % 2 == 0))?;
        cx.step();
        let a: Vec<(u64, &[u8])> = todo.iter().map(|(t, m)| (*t, &m[..])).collect();
        judge(t0, to, w.now(), &a, &names[i], &g).map_err(|e| format!("resolution {o}: {e}"))?;
        cx.state(&(o, &g));
        cx.outcome(&g);
        todo = &todo[w.recv_taken - taken..];
    }
    w.run(|| drop(x));
    Ok(())
}

fn plain(n: &Name) -> bool {
    !n.is_empty() && n.iter().all(|l| !l.contains(&b'.') && std::str::from_utf8(l).is_ok())
}
/// One name, another one that could be taken for it, and the first again; every reply holds both.
fn c16_kin(cx: &mut Cx) -> R {
    let a = cx.pick(vcore::corpus::bases()).clone();
    let b = cx.pick(vcore::corpus::kin(&a)).clone();
    let swap = cx.flag();
    let text = cx.flag();
    let names = [a, b];
    if text && !names.iter().any(plain) {
        return Ok(());
    }
    let mut m = rd::Build::new(0x3039, 0x8180);
    for k in if swap { [1, 0] } else { [0, 1] } {
        m = m.ans(&names[k], &rd::Data::A([10, 0, 0, k as u8])).ans(&names[k], &rd::Data::Aaaa([k as u8 + 1; 16]));
    }
    let m = m.done();
    cx.note(|| format!("{} and {}", rd::show_name(&names[0]), rd::show_name(&names[1])));
    cx.state(&names);
    let to = 100 * MS;
    let mut w = World::new();
    w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
    let mut x = w.run(|| SyncResolver::new(server()).map_err(|e| format!("creating a resolver failed: {e}")))?;
    w.run(|| x.set_timeout(world::duration(to))).map_err(|e| format!("set_timeout: {e}"))?;
    for (o, k) in [0, 1, 0, 1].into_iter().enumerate() {
        let t0 = w.now();
        let sb = w.sends().len();
        // the last one gets no answer
        let arr: Vec<(u64, &[u8])> = if o < 3 { vec![(t0 + MS, &m)] } else { vec![] };
        for (t, m) in &arr {
            w.arrive(*t, pool::peers()[o % 3], m.to_vec());
        }
        let g = w.run(|| resolve(&mut x, &names[k], text && plain(&names[k])))?;
        cx.step();
        let s = &w.sends()[sb..];
        ensure!(s.len() == 1, "resolution {o}: {} queries were sent", s.len());
        check_query(&s[0].2, &names[k]).map_err(|e| format!("resolution {o}: {e}"))?;
        judge(t0, to, w.now(), &arr, &names[k], &g).map_err(|e| format!("resolution {o}, of {}: {e}", rd::show_name(&names[k])))?;
    }
    w.run(|| drop(x));
    Ok(())
}

fn c16_case(cx: &mut Cx, c: &pool::Case) -> R {
    let to = 100 * MS;
    cx.note(|| c.what.clone());
    let text = cx.flag() && c.owner.iter().all(|l| !l.contains(&b'.') && std::str::from_utf8(l).is_ok());
    logcap::enable(text);
    let mut w = World::new();
    w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
    let mut arr: Vec<(u64, &[u8])> = vec![];
    for (i, g) in c.dgs.iter().enumerate() {
        let at = (i as u64 + 1) * MS;
        arr.push((at, g));
        w.arrive(at, pool::peers()[i % 3], g.clone());
    }
    let (g, end) = w.run(|| -> Result<_, String> {
        let mut x = SyncResolver::new(server()).map_err(|e| format!("creating a resolver failed: {e}"))?;
        x.set_timeout(world::duration(to)).map_err(|e| format!("set_timeout: {e}"))?;
        let g = resolve(&mut x, &c.owner, text)?;
        Ok((g, world::with(|w| w.now()).unwrap()))
    })?;
    cx.steps(w.recv_taken as u64 + 1);
    let s = w.sends();
    ensure!(s.len() == 1, "{}: {} queries were sent", c.what, s.len());
    check_query(&s[0].2, &c.owner)?;
    judge(0, to, end, &arr, &c.owner, &g).map_err(|e| format!("{}: {e}", c.what))?;
    cx.state(&(&c.owner, &c.dgs));
    cx.outcome(&g);
    Ok(())
}
fn c16_values(cx: &mut Cx) -> R {
    let c = pool::addr_values(cx);
    c16_case(cx, &c)
}
fn c16_broken(cx: &mut Cx) -> R {
    let c = pool::addr_broken(cx);
    c16_case(cx, &c)
}

// ---------------------------------------------------------------- C17

fn servers() -> Vec<SocketAddr> {
    ["192.0.2.53:53", "10.1.2.3:5353", "[2001:db8::53]:53", "[ff02::fb]:5353", "224.0.0.251:5353", "239.255.255.255:1", "[ff05::1]:53", "223.255.255.255:53", "[fe80::1]:53", "[fe80::1%3]:53"].iter().map(|s| s.parse().unwrap()).collect()
}
/// Every list of servers that may or may not be accepted; the query must go to each accepted one.
fn c17_servers(cx: &mut Cx) -> R {
    let pool = servers();
    let ctor = cx.choose(pool.len() + 2);
    let mut list: Vec<SocketAddr> = vec![];
    let mut w = World::new();
    let name = rd::n("a.example");
    let made = w.run(|| match ctor {
        k if k < pool.len() => SyncResolver::new(pool[k]),
        k if k == pool.len() => SyncResolver::new_multicast_v4(),
        _ => SyncResolver::new_multicast_v6(),
    });
    list.push(match ctor {
        k if k < pool.len() => pool[k],
        k if k == pool.len() => "224.0.0.251:5353".parse().unwrap(),
        _ => "[ff02::fb]:5353".parse().unwrap(),
    });
    let mut x = made.map_err(|e| format!("creating a resolver for {} failed: {e}", list[0]))?;
    let bound = w.log.iter().any(|e| matches!(e, Ev::Bind { addr, .. } if addr.is_ipv6() == list[0].is_ipv6() && addr.ip().is_unspecified() && addr.port() == 0));
    ensure!(bound, "the socket is not bound to an unspecified address of the server's family");
    let mut rep = 0;
    let mut ask = |w: &mut World, x: &mut SyncResolver, list: &[SocketAddr], cx: &mut Cx| -> R {
        let before = w.sends().len();
        let t0 = w.now();
        rep += 1;
        let g = w.run(|| resolve(x, &name, rep % 2 == 1))?;
        cx.step();
        ensure!(timed_out(&g), "resolving without any response gives {g:?}");
        ensure!(w.now() - t0 == 500 * MS, "the default timeout is {} ms", (w.now() - t0) / MS);
        let s = &w.sends()[before..];
        let mut to: Vec<SocketAddr> = s.iter().map(|x| x.1).collect();
        let mut want = list.to_vec();
        to.sort();
        want.sort();
        ensure!(to == want, "resolution {rep}: queries went to {to:?}, the servers are {want:?}");
        for x in s {
            check_query(&x.2, &name)?;
            ensure!(x.0 == t0, "a query was sent late");
        }
        Ok(())
    };
    for _ in 0..cx.by_tier(2, 3) {
        let k = cx.choose(pool.len() + 1);
        if k == 0 {
            break;
        }
        if cx.flag() {
            cx.note(|| format!("resolution with servers {list:?}"));
            ask(&mut w, &mut x, &list, cx)?;
        }
        let s = pool[k - 1];
        let ok = !list[0].ip().is_multicast() && s.is_ipv4() == list[0].is_ipv4();
        let r = w.run(|| catch(|| x.add_server(s)));
        cx.step();
        ensure!(r.is_ok() == ok, "adding server {s} to {list:?} was {}", if ok { "refused" } else { "accepted" });
        if ok {
            list.push(s);
        }
    }
    cx.note(|| format!("servers {list:?}"));
    for _ in 0..2 {
        ask(&mut w, &mut x, &list, cx)?;
    }
    cx.state(&list);
    w.run(|| drop(x));
    Ok(())
}
/// Host names around every limit, as text and as name.
fn c17_names(cx: &mut Cx) -> R {
    let style = cx.choose(4);
    let log = cx.flag();
    logcap::enable(log);
    let mut w = World::new();
    let mut x = w.run(|| SyncResolver::new(server()).map_err(|e| format!("creating a resolver failed: {e}")))?;
    let (ok, g, name) = match style {
        0 | 1 => {
            // a name of exactly `len` bytes on the wire
            let len = *cx.pick(&(3..=2100).chain([1, 4096 + 90, 5000, 70000]).chain(65_530..65_800).collect::<Vec<usize>>());
            let lab = *cx.pick(&[63usize, 1, 31]);
            let mut name: Name = vec![];
            let mut left = len.max(1) - 1;
            while left > 0 {
                let mut k = lab.min(left - 1);
                if left - (k + 1) == 1 {
                    // a label needs at least two bytes
                    if k > 1 {
                        k -= 1;
                    } else {
                        k += 1;
                    }
                }
                name.push(vec![b'n'; k]);
                left -= k + 1;
            }
            ensure_eq!(rd::name_len(&name), len, "harness: length of the test name");
            cx.note(|| format!("name of {len} bytes in labels of {lab}"));
            cx.state(&(len, lab));
            (len <= 255, w.run(|| resolve(&mut x, &name, style == 0))?, name)
        }
        2 => {
            let bad: Vec<String> = vec!["..".into(), "a..b".into(), ".a".into(), "a..".into(), "x".repeat(64), format!("a.{}.b", "y".repeat(64)), format!("{}.", "z".repeat(300))];
            let s = cx.pick(&bad).clone();
            cx.state(&s);
            let g: Got = w.run(|| catch(|| x.resolve(&s).map(|i| i.collect()).map_err(|e| (e.kind(), e.raw_os_error()))))?;
            (false, g, vec![])
        }
        _ => {
            let good = ["a", "a.", "A.b-C._d.e", "xn--bcher-kva.example", "host name.local", "."];
            let s = *cx.pick(&good);
            cx.state(s);
            let g: Got = w.run(|| catch(|| x.resolve(s).map(|i| i.collect()).map_err(|e| (e.kind(), e.raw_os_error()))))?;
            (true, g, rd::n(s))
        }
    };
    cx.step();
    cx.outcome(&(ok, g.is_ok()));
    if ok {
        ensure!(timed_out(&g), "resolving a valid name without a response gives {g:?}");
        let s = w.sends();
        ensure!(s.len() == 1, "{} queries were sent", s.len());
        check_query(&s[0].2, &name)?;
    } else {
        ensure!(g.is_err(), "resolving an invalid name succeeds");
        ensure!(!timed_out(&g), "an invalid name is reported as a timeout");
        ensure!(w.sends().is_empty(), "a query was sent for an invalid name ({} bytes)", w.sends()[0].2.len());
    }
    // the resolver stays usable
    let t0 = w.now();
    let before = w.sends().len();
    let ok_name = rd::n("next.example");
    w.arrive(t0 + MS, server(), rd::Build::new(0x3039, 0x8180).ans(&ok_name, &rd::Data::A([1, 2, 3, 4])).done());
    w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
    let g = w.run(|| resolve(&mut x, &ok_name, true))?;
    ensure_eq!(g, Ok(vec![IpAddr::from([1, 2, 3, 4])]), "the next resolution");
    ensure!(w.sends().len() == before + 1, "the next resolution sent {} queries", w.sends().len() - before);
    w.run(|| drop(x));
    Ok(())
}
/// Any number of servers, in any order, some of them more than once, or on one host or one port.
fn c17_many(cx: &mut Cx) -> R {
    let n = match cx.choose(70) {
        k if k < 64 => k + 1,
        k => [65, 100, 128, 256, 257, 300][k - 64],
    };
    let v6 = cx.flag();
    let style = cx.choose(5);
    let at = |k: usize| -> SocketAddr {
        let (h, p) = match style {
            0 => (k, 53),
            1 => (0, 53 + k as u16),
            2 => (k / 2, 53),
            3 => (k % 3, 53),
            _ => (n - k, 1 + (k * 251) as u16),
        };
        if v6 {
            SocketAddr::from(([0x2001, 0xdb8, 0, 0, 0, 0, 0, 1 + h as u16], p))
        } else {
            SocketAddr::from(([192, 0, (2 + h / 250) as u8, (1 + h % 250) as u8], p))
        }
    };
    let name = rd::n("a.example");
    cx.note(|| format!("{n} servers, v6 {v6}, style {style}"));
    cx.state(&(n, v6, style));
    let mut w = World::new();
    w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
    let mut x = w.run(|| SyncResolver::new(at(0)).map_err(|e| format!("creating a resolver failed: {e}")))?;
    for k in 1..n {
        w.run(|| catch(|| x.add_server(at(k)))).map_err(|e| format!("adding server {k} was refused: {e}"))?;
    }
    let mut want: Vec<SocketAddr> = (0..n).map(at).collect();
    want.sort();
    for rep in 0..3 {
        let before = w.sends().len();
        let answer = rep == 1;
        if answer {
            let t = w.now() + MS;
            w.arrive(t, at(n - 1), rd::Build::new(0x3039, 0x8180).ans(&name, &rd::Data::A([1, 2, 3, 4])).done());
        }
        let t0 = w.now();
        let g = w.run(|| resolve(&mut x, &name, rep == 0))?;
        cx.step();
        if answer {
            ensure_eq!(g, Ok(vec![IpAddr::from([1, 2, 3, 4])]), "result of a resolution one server answered");
        } else {
            ensure!(timed_out(&g), "resolving without any response gives {g:?}");
        }
        let s = &w.sends()[before..];
        let mut to: Vec<SocketAddr> = s.iter().map(|x| x.1).collect();
        to.sort();
        // naming a server twice does not oblige the resolver to ask it twice
        let (mut a, mut b) = (to.clone(), want.clone());
        a.dedup();
        b.dedup();
        ensure!(a == b && to.len() <= want.len(), "{} queries went to {to:?}, the servers are {want:?}", to.len());
        for x in s {
            check_query(&x.2, &name)?;
            ensure!(x.0 == t0, "a query was sent late");
        }
    }
    w.run(|| drop(x));
    Ok(())
}
/// The addresses are taken out one by one, in part, or not at all, before the next resolution.
fn c16_partly(cx: &mut Cx) -> R {
    let (na, nb) = (rd::n("a.example"), rd::n("b.example"));
    let to = 100 * MS;
    let mut w = World::new();
    w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
    let mut x = w.run(|| SyncResolver::new(server()).map_err(|e| format!("creating a resolver failed: {e}")))?;
    w.run(|| x.set_timeout(world::duration(to))).map_err(|e| format!("set_timeout: {e}"))?;
    for op in 0..cx.by_tier(3, 4) {
        let n = *cx.pick(&[2usize, 0, 1, 5, 17]);
        let how = cx.choose(if op < 2 { pool::USES } else { 1 });
        let name = if op % 2 == 0 { &na } else { &nb };
        cx.note(|| format!("resolution {op}: {n} addresses, used in way {how}"));
        let m = pool::addrs(name, n, op as u8);
        w.arrive(w.now() + MS, server(), m.clone());
        let g: Got = w.run(|| {
            catch(|| {
                let name = conv::dn(name);
                let r = if op == 1 { x.resolve("b.example").map(|i| pool::use_up(i, how)) } else { x.resolve_domain(&name).map(|i| pool::use_up(i, how)) };
                r.map_err(|e| (e.kind(), e.raw_os_error()))
            })
        })?;
        cx.step();
        let all = pool::addrs_of(&m, name);
        if all.is_empty() {
            ensure!(timed_out(&g), "resolution {op} gives {g:?} although no address arrived");
        } else {
            let want = pool::use_up(all.into_iter(), how);
            ensure!(g.as_ref() == Ok(&want), "resolution {op}: the addresses used in way {how} are {g:?}, expected {want:?}");
        }
        cx.state(&(op, how, &g));
        cx.outcome(&g);
    }
    w.run(|| drop(x));
    Ok(())
}
/// Any number of datagrams without an answer in front of one, at once or spread out.
fn c16_stream(cx: &mut Cx) -> R {
    let n: usize = *cx.pick(&[10usize, 33, 100, 257, 1025, 4100, 66_000]);
    let gap = *cx.pick(&[0u64, US, 10 * MS, 90 * MS]);
    let name = rd::n("a.example");
    let p = pool::addr_pool(&name);
    let useless: Vec<usize> = (0..p.len()).filter(|&i| pool::addrs_of(&p[i].1, &name).is_empty()).collect();
    let which = cx.choose(useless.len() + 1);
    let good = cx.flag();
    if n > 60_000 && (which != useless.len() || ![US, 90 * MS].contains(&gap)) {
        return Ok(());
    }
    cx.note(|| format!("{n} datagrams every {} us, kind {which}, answered {good}", gap / US));
    cx.state(&(n, gap, which, good));
    let to = 100 * MS;
    let mut w = World::new();
    w.horizon = 20_000 + 40 * n;
    w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
    let mut x = w.run(|| SyncResolver::new(server()).map_err(|e| format!("creating a resolver failed: {e}")))?;
    w.run(|| x.set_timeout(world::duration(to))).map_err(|e| format!("set_timeout: {e}"))?;
    let mut arr: Vec<(u64, &[u8])> = vec![];
    for i in 0..n {
        arr.push((i as u64 * gap, &p[useless[if which == useless.len() { i % which } else { which }]].1));
    }
    if good {
        arr.push((n as u64 * gap, &p[0].1));
    }
    for (t, d) in &arr {
        w.arrive(*t, server(), d.to_vec());
    }
    for op in 0..2 {
        let t0 = w.now();
        let g = w.run(|| resolve(&mut x, &name, op == 1))?;
        let used = judge(t0, to, w.now(), &arr, &name, &g)?;
        arr.drain(..used);
        cx.outcome(&g);
    }
    cx.steps(w.recv_taken as u64);
    w.run(|| drop(x));
    Ok(())
}
/// Timeouts from a millisecond to a lifetime.
fn c17_spans(cx: &mut Cx) -> R {
    let to = *cx.pick(&[1, 2, 5, 10, 99, 100, 101, 499, 501, 999, 1000, 1001, 1999, 2000, 4999, 5000, 5001, 9999, 10_000, 10_001, 29_999, 30_000, 30_001, 59_999, 60_000, 61_000, 300_000, 3_600_000, 86_400_000, 604_800_000, 2_592_000_000, 4_320_000_000, 34_560_000_000, 2_240_000_000_000, 4_418_000_000_000u64]) * MS;
    let name = rd::n("a.example");
    let n = cx.choose(4);
    let at = *cx.pick(&[to / 2, to - MS / 4, to + MS / 4]);
    let good = cx.flag();
    cx.note(|| format!("timeout {} ms, {n} datagrams {} us apart", to / MS, at / US));
    cx.state(&(to, n, at, good));
    let mut w = World::new();
    w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
    let mut x = w.run(|| SyncResolver::new(server()).map_err(|e| format!("creating a resolver failed: {e}")))?;
    w.run(|| x.set_timeout(world::duration(to))).map_err(|e| format!("set_timeout: {e}"))?;
    let mut arr = vec![];
    for i in 0..n {
        let d = if good && i + 1 == n { rd::Build::new(0x3039, 0x8180).ans(&name, &rd::Data::A([1, 2, 3, 4])).done() } else { vec![7; 13] };
        let t = (i as u64 + 1) * at;
        w.arrive(t, server(), d.clone());
        arr.push((t, d));
    }
    let g = w.run(|| resolve(&mut x, &name, false))?;
    cx.steps(w.recv_taken as u64 + 1);
    let a: Vec<(u64, &[u8])> = arr.iter().map(|(t, d)| (*t, &d[..])).collect();
    judge(0, to, w.now(), &a, &name, &g)?;
    cx.outcome(&g);
    w.run(|| drop(x));
    Ok(())
}
/// Timers fire late and looking at the clock takes time.
fn c17_rough(cx: &mut Cx) -> R {
    let to = *cx.pick(&[100 * MS, 7 * MS, 500 * MS, 5000 * MS]);
    let (late, tick) = *cx.pick(&[(0, 0), (US, 0), (60 * US, 0), (MS, 0), (US, 1), (60 * US, 777), (MS, 50 * US), (0, 20 * US)]);
    let name = rd::n("a.example");
    let mut w = World::new();
    w.late = late;
    w.tick = tick;
    w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
    let mut x = w.run(|| SyncResolver::new(server()).map_err(|e| format!("creating a resolver failed: {e}")))?;
    w.run(|| x.set_timeout(world::duration(to))).map_err(|e| format!("set_timeout: {e}"))?;
    for op in 0..2 {
        let t0 = w.now();
        let mut t = t0;
        let mut arr = vec![];
        for i in 0..cx.by_tier(2, 3) {
            // well before a timer may fire, or well after all have
            let gaps = [MS, to / 2, to - 2 * MS, to + 20 * MS];
            let Some(g) = gaps.get(cx.choose(5)) else { break };
            t += g;
            let d = if cx.flag() { rd::Build::new(0x3039, 0x8180).ans(&name, &rd::Data::A([9, 9, op as u8, i as u8])).done() } else { vec![1; 20] };
            arr.push((t, d.clone()));
            w.arrive(t, server(), d);
        }
        cx.note(|| format!("timeout {} us, timers {} us late, {tick} ns for each look at the clock, datagrams at {:?} us", to / US, late / US, arr.iter().map(|a| (a.0 - t0) / US).collect::<Vec<_>>()));
        let g = w.run(|| resolve(&mut x, &name, false))?;
        cx.step();
        let a: Vec<(u64, &[u8])> = arr.iter().map(|(t, d)| (*t, &d[..])).collect();
        judge_rough(t0, to, w.now(), &a, &name, &g, late, 64 * tick)?;
        cx.state(&(&g, w.now() - t0));
        w.net.queue.clear();
    }
    w.run(|| drop(x));
    Ok(())
}
/// Every name of the families, as text when it can be one, and as name.
fn c17_hosts(cx: &mut Cx) -> R {
    let how = cx.choose(3);
    let name = cx.pick(vcore::corpus::hosts()).clone();
    let plain = !name.is_empty() && name.iter().all(|l| !l.contains(&b'.') && std::str::from_utf8(l).is_ok());
    cx.note(|| rd::show_name(&name));
    cx.state(&(how, &name));
    let mut w = World::new();
    let made = w.run(|| match how {
        0 => SyncResolver::new(server()),
        1 => SyncResolver::new_multicast_v4(),
        _ => SyncResolver::new_multicast_v6(),
    });
    let mut x = made.map_err(|e| format!("creating a resolver failed: {e}"))?;
    let reps: &[bool] = if plain { &[true, false, true] } else { &[false, false] };
    for (i, &text) in reps.iter().enumerate() {
        let g = w.run(|| resolve(&mut x, &name, text))?;
        cx.step();
        ensure!(timed_out(&g), "resolving {} without a response gives {g:?}", rd::show_name(&name));
        let s = w.sends();
        ensure!(s.len() == i + 1, "{} queries were sent", s.len());
        check_query(&s[i].2, &name)?;
    }
    if plain {
        // without the final dot
        let t = name.iter().map(|l| String::from_utf8_lossy(l).into_owned()).collect::<Vec<_>>().join(".");
        let g: Got = w.run(|| catch(|| x.resolve(&t).map(|i| i.collect()).map_err(|e| (e.kind(), e.raw_os_error()))))?;
        ensure!(timed_out(&g), "resolving {t:?} without a response gives {g:?}");
        let s = w.sends();
        ensure!(s.len() == reps.len() + 1, "{} queries were sent", s.len());
        check_query(&s[reps.len()].2, &name)?;
    }
    w.run(|| drop(x));
    Ok(())
}
/// Timeouts set in any order, datagrams before and after they pass.
fn c17_timeouts(cx: &mut Cx) -> R {
    let mut w = World::new();
    let mut x = w.run(|| SyncResolver::new(server()).map_err(|e| format!("creating a resolver failed: {e}")))?;
    let mut to = 500 * MS;
    let name = rd::n("a.example");
    for op in 0..cx.by_tier(2, 3) {
        let k = cx.choose(5);
        if k > 0 {
            to = [MS, 30 * MS, 500 * MS, 7000 * MS][k - 1];
            w.run(|| x.set_timeout(world::duration(to))).map_err(|e| format!("set_timeout: {e}"))?;
        }
        let t0 = w.now();
        let gaps = [0, to / 2, to - MS / 2, to + MS / 2, 2 * to];
        let mut t = t0;
        let mut arr = vec![];
        for i in 0..2 {
            let g = cx.choose(gaps.len() + 1);
            if g == gaps.len() {
                break;
            }
            t += gaps[g];
            let at = t + (i + 1) * US;
            let d = if cx.flag() { rd::Build::new(0x3039, 0x8180).ans(&name, &rd::Data::A([9, 9, op as u8, i as u8])).done() } else { vec![1; 20] };
            arr.push((at, d.clone()));
            w.arrive(at, server(), d);
        }
        w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
        cx.note(|| format!("timeout {} us, datagrams at {:?} us", to / US, arr.iter().map(|a| (a.0 - t0) / US).collect::<Vec<_>>()));
        let g = w.run(|| resolve(&mut x, &name, false))?;
        cx.step();
        let a: Vec<(u64, &[u8])> = arr.iter().map(|(t, d)| (*t, &d[..])).collect();
        judge(t0, to, w.now(), &a, &name, &g)?;
        cx.state(&(&g, w.now() - t0));
        // leave nothing behind for the next operation
        w.net.queue.clear();
    }
    w.run(|| drop(x));
    Ok(())
}
/// A socket error at every send and receive.
fn c17_errors(cx: &mut Cx) -> R {
    // every error but the ones that stand for a timeout or ask to try again
    let codes: Vec<i32> = (1..=133).filter(|c| ![libc::EAGAIN, libc::EINTR, libc::ETIMEDOUT].contains(c)).collect();
    let code = *cx.pick(&codes);
    let nserv = 1 + cx.choose(3);
    let on_send = cx.flag();
    let pos = cx.choose(5);
    let ndata = cx.choose(3);
    let good_last = cx.flag();
    let name = rd::n("a.example");
    let mut w = World::new();
    w.responder = Some(Box::new(|net, _, _, _, q| pool::patch_ids(net, q)));
    let mut x = w.run(|| SyncResolver::new(server()).map_err(|e| format!("creating a resolver failed: {e}")))?;
    for i in 1..nserv {
        w.run(|| x.add_server(SocketAddr::from(([192, 0, 2, i as u8], 53))));
    }
    if on_send {
        w.send_err = Some((pos, code));
    } else {
        w.recv_err = Some((pos, code));
    }
    for i in 0..ndata {
        let d = if good_last && i + 1 == ndata { rd::Build::new(0x3039, 0x8180).ans(&name, &rd::Data::A([1, 2, 3, 4])).done() } else { vec![7; 13] };
        w.arrive((i as u64 + 1) * MS, server(), d);
    }
    cx.note(|| format!("{nserv} servers, {} {pos} fails with {code}, {ndata} datagrams", if on_send { "send" } else { "receive" }));
    let g = w.run(|| resolve(&mut x, &name, false))?;
    cx.step();
    cx.state(&(code, nserv, on_send, pos, ndata, good_last));
    cx.outcome(&g);
    let answered = good_last && ndata > 0;
    let hit = if on_send { pos < nserv } else { pos < ndata || (pos == ndata && !answered) };
    if hit {
        ensure_eq!(g.as_ref().err().and_then(|e| e.1), Some(code), "error of the resolution after the socket failed (result {g:?})");
    } else if answered {
        ensure_eq!(g, Ok(vec![IpAddr::from([1, 2, 3, 4])]), "result");
    } else {
        ensure!(timed_out(&g), "resolving without a response gives {g:?}");
    }
    // and the resolver works again afterwards
    w.send_err = None;
    w.recv_err = None;
    w.net.queue.clear();
    let at = w.now() + MS;
    w.arrive(at, server(), rd::Build::new(0x3039, 0x8180).ans(&name, &rd::Data::A([4, 3, 2, 1])).done());
    let g = w.run(|| resolve(&mut x, &name, false))?;
    ensure_eq!(g, Ok(vec![IpAddr::from([4, 3, 2, 1])]), "the resolution after a failed one");
    w.run(|| drop(x));
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C16",
            rule: "The real resolver runs on a virtual network over all datagram sequences of the bounded length; addresses and completion time are compared with what an independent parser finds for the name in the first relevant response.",
            assumptions: &["a reply to an earlier resolution of the same name with the same ID cannot be told from a fresh one and is not enumerated as foreign", "damage behind the answer section, record classes and duplicate addresses are not enumerated"],
            scenarios: vec![
                Scenario { name: "unicast", f: c16_unicast, dev: (1, 2), bounds: "3 (4) datagrams from a pool of 24, up to 1 (2) unusual gaps or logging" },
                Scenario { name: "multicast", f: c16_multicast, dev: (1, 2), bounds: "the same through the mDNS address" },
                Scenario { name: "values", f: c16_values, dev: (0, 0), bounds: "1955 addresses, 4341 queried names or aliases, 0-99 addresses in 4 styles, alias chains of 0-30 in 3 orders, all IDs, 2048 response flags, 4 TTLs x 2 classes, 1254 labels put anywhere into the owner; as text and as name" },
                Scenario { name: "kin", f: c16_kin, dev: (0, 0), bounds: "31 names of 1 to 127 labels, each with every name one change away: both resolved in turn on one resolver, as text or name, every reply holding both in either order" },
                Scenario { name: "broken", f: c16_broken, dev: (0, 0), bounds: "about 3500 damaged datagrams (each kind of damage in each section at 12 sizes, with and without addresses before it) before an intact one" },
                Scenario { name: "partly", f: c16_partly, dev: (0, 0), bounds: "3 (4) resolutions with 0-17 addresses, each but the last with the addresses used in one of 10 ways (not at all, some, all, one by one)" },
                Scenario { name: "stream", f: c16_stream, dev: (0, 0), bounds: "10 to 4100 datagrams without use (each of 16 kinds, or all in turn) at 4 rates, and 66000 at 2 rates, followed by an answer or not" },
                Scenario { name: "stale", f: c16_stale, dev: (0, 0), bounds: "2 (3) resolutions of 2 (3) names, 3 (4) replies (4 kinds) for any name at any of 3 gaps" },
            ],
        },
        Property {
            id: "C17",
            rule: "All server lists, names around every limit, timeout settings with datagrams around the timeout, and a socket error at every send and receive; sent queries, destinations, times and errors are compared with the specification.",
            assumptions: &["a timeout of zero and interrupted system calls are not enumerated"],
            scenarios: vec![
                Scenario { name: "servers", f: c17_servers, dev: (0, 0), bounds: "11 constructors x all sequences of up to 2 (3) additions from 10 addresses, with or without a resolution before each" },
                Scenario { name: "names", f: c17_names, dev: (0, 0), bounds: "every wire length from 3 to 2100 and from 65530 to 65800 x 3 label sizes as text and as name; invalid and unusual texts" },
                Scenario { name: "hosts", f: c17_hosts, dev: (0, 0), bounds: "through a server and both multicast groups: 4341 names (every byte in a label, every label length, label count and total length) as text with and without the final dot and as name" },
                Scenario { name: "timeouts", f: c17_timeouts, dev: (0, 0), bounds: "2 (3) resolutions, 4 timeouts, up to 2 datagrams each over 5 gaps around the timeout" },
                Scenario { name: "rough", f: c17_rough, dev: (0, 0), bounds: "2 resolutions, 4 timeouts x 8 ways in which timers fire late and looking at the clock takes time x up to 2 (3) datagrams at 4 gaps" },
                Scenario { name: "errors", f: c17_errors, dev: (0, 0), bounds: "130 codes at every send or receive, 1-3 servers, 0-2 datagrams" },
                Scenario { name: "many", f: c17_many, dev: (0, 0), bounds: "1-65, 100, 128, 256, 257, 300 servers of both families: all different, on one host, in pairs, three again and again, backwards; 3 resolutions" },
                Scenario { name: "spans", f: c17_spans, dev: (0, 0), bounds: "35 timeouts from 1 ms to 140 years, 0-3 datagrams at 3 gaps" },
            ],
        },
    ]
}
