//! C13–C15: the blocking discoverer on a virtual network.
use crate::conv;
use crate::pool::{self, Det, Dg};
use std::net::SocketAddr;
use std::ops::ControlFlow;
use uwuhi::name::Label;
use uwuhi::service::discovery::SyncDiscoverer;
use uwuhi::service::{InstanceDetails, Service, ServiceInstance, ServiceTransport, TxtRecordValue, TxtRecords};
use vcore::explore::{catch, Property, Scenario};
use vcore::refdns::{self as rd, Build, Name};
use vcore::world::{self, World, MS};
use vcore::{ensure, ensure_eq, logcap, util, Cx};

type R = Result<(), String>;
const US: u64 = 1000;

pub fn svc(name: &[u8], tcp: bool) -> Service {
    Service::new(Label::new(name), if tcp { ServiceTransport::TCP } else { ServiceTransport::Other })
}
fn now() -> u64 {
    world::with(|w| w.now()).unwrap()
}
/// What a discovery operation did.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Did {
    calls: Vec<(u64, Vec<Vec<u8>>)>,
    end: u64,
    err: Option<(std::io::ErrorKind, Option<i32>)>,
}
fn err_of<T>(r: &std::io::Result<T>) -> Option<(std::io::ErrorKind, Option<i32>)> {
    r.as_ref().err().map(|e| (e.kind(), e.raw_os_error()))
}
fn tr(t: ServiceTransport) -> Vec<u8> {
    match t {
        ServiceTransport::TCP => b"_tcp".to_vec(),
        ServiceTransport::Other => b"_udp".to_vec(),
    }
}
/// Runs instance (or service type) discovery; the callback stops at its `stop`-th call (0: never).
fn discover(d: &mut SyncDiscoverer, service: Option<&Service>, stop: usize) -> Result<Did, String> {
    let mut calls = vec![];
    let mut stopped = false;
    let mut late = false;
    let mut on = |l: Vec<Vec<u8>>| {
        late |= stopped;
        calls.push((now(), l));
        if calls.len() == stop {
            stopped = true;
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    };
    let r = catch(|| match service {
        Some(s) => d.discover_instances(s, |i: &ServiceInstance| on(vec![i.instance_name().as_bytes().to_vec(), i.service_name().as_bytes().to_vec(), tr(i.service_transport())])),
        None => d.discover_service_types(|s: &Service| on(vec![s.name().as_bytes().to_vec(), tr(s.transport())])),
    })?;
    ensure!(!late, "callback invoked again after it said stop");
    Ok(Did { calls, end: now(), err: err_of(&r) })
}

/// Time course of an operation whose datagrams never stop it: times of queries, and when it ends.
/// `arr` are arrival times of datagrams not yet received, from `t0`.
fn sends_until(t0: u64, r: u64, d: u64, arr: &[u64]) -> (Vec<u64>, u64, usize) {
    let mut now = t0;
    let mut sends = vec![t0];
    let mut i = 0;
    let end = t0 + d;
    loop {
        if now >= end {
            return (sends, end, i);
        }
        let to = now + r;
        if let Some(&a) = arr.get(i) {
            if a.max(now) <= to.min(end) {
                now = a.max(now);
                i += 1;
                continue;
            }
        }
        if to < end {
            now = to;
            sends.push(now);
        } else {
            return (sends, end, i);
        }
    }
}
fn check_queries(w: &World, from: usize, server: SocketAddr, want: &[u64], name: &Name, types: &[u16]) -> R {
    let s = &w.sends()[from..];
    let times: Vec<u64> = s.iter().map(|x| x.0).collect();
    ensure!(times == want, "queries sent at {:?} us, expected at {:?} us", times.iter().map(|t| t / US).collect::<Vec<_>>(), want.iter().map(|t| t / US).collect::<Vec<_>>());
    for (_, to, data) in s {
        ensure_eq!(*to, server, "query destination");
        let Some(m) = rd::parse(data) else { return Err("query is too short".into()) };
        ensure!(m.err.is_none() && m.end == data.len(), "query does not decode: {}", util::hex(data));
        ensure!(m.flags & !rd::RD == 0, "query flags {:#06x}", m.flags);
        ensure!(m.rr.iter().all(|r| r.is_empty()), "query has records");
        let mut t: Vec<u16> = m.q.iter().map(|q| q.qtype).collect();
        t.sort();
        ensure!(t == types, "query asks for types {t:?}, expected {types:?}");
        for q in &m.q {
            ensure!(q.qclass == 1, "query class {}", q.qclass);
            ensure!(rd::eq_ci(&q.name, name), "query is about {}, expected {}", rd::show_name(&q.name), rd::show_name(name));
        }
    }
    Ok(())
}
fn ms(d: u64) -> std::time::Duration {
    world::duration(d)
}
fn server() -> SocketAddr {
    "224.0.0.251:5353".parse().unwrap()
}

// ---------------------------------------------------------------- C13

/// Expected callbacks of one operation over datagrams received at the given times.
fn expect_calls(arr: &[(u64, &[u8])], owner: &Name, inst: bool, stop: usize) -> (Vec<(u64, Vec<Vec<u8>>)>, bool) {
    let mut v: Vec<(u64, Vec<Vec<u8>>)> = vec![];
    for (t, d) in arr {
        for n in pool::ptr_targets(d, owner) {
            let l = if inst {
                pool::instance_of(&n).map(|(i, s, t)| vec![i, s, if t { b"_tcp".to_vec() } else { b"_udp".to_vec() }])
            } else {
                pool::service_of(&n).map(|(s, t)| vec![s, if t { b"_tcp".to_vec() } else { b"_udp".to_vec() }])
            };
            let Some(l) = l else { continue };
            if v.iter().any(|x| x.1 == l) {
                continue;
            }
            v.push((*t, l));
            if v.len() == stop {
                return (v, true);
            }
        }
    }
    (v, false)
}
fn show_calls(v: &[(u64, Vec<Vec<u8>>)]) -> String {
    v.iter().map(|(t, l)| format!("{}us {}", t / US, l.iter().map(|x| x.escape_ascii().to_string()).collect::<Vec<_>>().join("."))).collect::<Vec<_>>().join(", ")
}
fn setup(domain: &str, r: u64, d: u64) -> Result<SyncDiscoverer, String> {
    setup_in(&rd::n(domain), r, d)
}
fn setup_in(domain: &Name, r: u64, d: u64) -> Result<SyncDiscoverer, String> {
    let mut x = SyncDiscoverer::new(server(), conv::dn(domain)).map_err(|e| format!("creating a discoverer failed: {e}"))?;
    x.set_retransmit_timeout(ms(r)).map_err(|e| format!("setting the retransmit timeout failed: {e}"))?;
    x.set_discovery_timeout(ms(d)).map_err(|e| format!("setting the discovery timeout failed: {e}"))?;
    Ok(x)
}
fn judge_op(w: &World, sends_before: usize, t0: u64, r: u64, d: u64, arr: &[(u64, &[u8])], owner: &Name, inst: bool, stop: usize, did: &Did) -> Result<usize, String> {
    let times: Vec<u64> = arr.iter().map(|a| a.0).collect();
    let (mut sends, mut end, got) = sends_until(t0, r, d, &times);
    let seen: Vec<(u64, &[u8])> = arr[..got].iter().map(|a| (a.0.max(t0), a.1)).collect();
    let (calls, stopped) = expect_calls(&seen, owner, inst, stop);
    if stopped {
        end = calls.last().unwrap().0;
        sends.retain(|&s| s <= end);
    }
    ensure!(did.calls == calls, "callbacks [{}], expected [{}]", show_calls(&did.calls), show_calls(&calls));
    ensure_eq!(did.err, None, "error of the operation");
    ensure!(did.end == end, "the operation ended after {} us, expected {} us", (did.end - t0) / US, (end - t0) / US);
    check_queries(w, sends_before, server(), &sends, owner, &[rd::PTR])?;
    Ok(got)
}
fn pick_gap(cx: &mut Cx) -> u64 {
    // mostly back to back; sometimes just before or after a retransmission
    [10 * MS, 0, 95 * MS, 120 * MS][cx.dev(4)]
}
fn c13_run(cx: &mut Cx, inst: bool) -> R {
    let (r, d) = (100 * MS, 450 * MS);
    let owner = if inst { rd::n("_svc._tcp.local") } else { rd::n("_services._dns-sd._udp.local") };
    let targets = if inst { pool::instance_targets("_svc._tcp.local") } else { pool::service_targets() };
    let p: Vec<Dg> = pool::ptr_pool(&owner, &targets);
    let n = cx.by_tier(3, 4);
    let stop = cx.choose(4);
    let mut w = World::new();
    let mut t = 0;
    let mut arr: Vec<(u64, usize)> = vec![];
    for i in 0..n {
        let k = cx.choose(p.len());
        t += pick_gap(cx);
        let at = t + (i as u64 + 1) * US;
        cx.note(|| format!("{}us: {}", at / US, p[k].0));
        arr.push((at, k));
        w.arrive(at, pool::peers()[(i + k) % 3], p[k].1.clone());
    }
    cx.note(|| format!("stop at callback {stop}"));
    let did = w.run(|| -> Result<Did, String> {
        let mut x = setup("local", r, d)?;
        let s = svc(b"_svc", true);
        discover(&mut x, inst.then_some(&s), stop)
    })?;
    cx.steps(w.recv_taken as u64);
    let a: Vec<(u64, &[u8])> = arr.iter().map(|&(t, k)| (t, &p[k].1[..])).collect();
    judge_op(&w, 0, 0, r, d, &a, &owner, inst, stop, &did)?;
    cx.state(&(&did, stop));
    cx.outcome(&did.calls.len());
    Ok(())
}
fn c13_instances(cx: &mut Cx) -> R {
    c13_run(cx, true)
}
fn c13_types(cx: &mut Cx) -> R {
    c13_run(cx, false)
}
/// Two or three operations on one discoverer, replies arriving before, between and after them.
fn c13_stale(cx: &mut Cx) -> R {
    let (r, d) = (100 * MS, 250 * MS);
    let ops = cx.by_tier(2, 3);
    // what each operation looks for
    let kinds: [(Option<(&[u8], bool)>, &str); 3] = [(Some((b"_svc", true)), "_svc._tcp.local"), (Some((b"_svc", false)), "_svc._udp.local"), (None, "_services._dns-sd._udp.local")];
    let replies: Vec<Dg> = vec![
        ("_svc._tcp a, b", Build::new(12345, 0x8400).ans(&rd::n("_svc._tcp.local"), &pool::ptr("a._svc._tcp.local")).ans(&rd::n("_svc._tcp.local"), &pool::ptr("b._svc._tcp.local")).done()),
        ("_svc._udp a", Build::new(12345, 0x8400).ans(&rd::n("_svc._udp.local"), &pool::ptr("a._svc._udp.local")).done()),
        (
            "service types",
            Build::new(12345, 0x8400)
                .ans(&rd::n("_services._dns-sd._udp.local"), &pool::ptr("_svc._tcp.local"))
                .ans(&rd::n("_services._dns-sd._udp.local"), &pool::ptr("_svc._udp.local"))
                .done(),
        ),
    ];
    let n = cx.by_tier(3, 3);
    let slots = ops * 3 + 1;
    let mut w = World::new();
    let mut arr: Vec<(u64, usize)> = vec![];
    let mut slot = 0;
    for i in 0..n {
        // non-decreasing moments: early, mid and late in each operation
        let s = slot + cx.choose(slots - slot);
        slot = s;
        let k = cx.choose(replies.len());
        let at = (s as u64 / 3) * 250 * MS + [1, 120, 240][s % 3] * MS + i as u64 * US;
        arr.push((at, k));
        w.arrive(at, pool::peers()[i % 3], replies[k].1.clone());
    }
    let which: Vec<usize> = (0..ops).map(|_| cx.choose(3)).collect();
    let stops: Vec<usize> = (0..ops).map(|_| cx.dev(3)).collect();
    cx.note(|| format!("operations {which:?} (stops {stops:?}), datagrams {:?}", arr.iter().map(|(t, k)| format!("{}us {}", t / US, replies[*k].0)).collect::<Vec<_>>()));
    let mut todo = &arr[..];
    let mut x = w.run(|| setup("local", r, d))?;
    for o in 0..ops {
        let (service, owner) = kinds[which[o]];
        let owner = rd::n(owner);
        let s = service.map(|(n, t)| svc(n, t));
        let t0 = w.now();
        let sb = w.sends().len();
        let taken = w.recv_taken;
        let did = w.run(|| discover(&mut x, s.as_ref(), stops[o]))?;
        let a: Vec<(u64, &[u8])> = todo.iter().map(|&(t, k)| (t, &replies[k].1[..])).collect();
        judge_op(&w, sb, t0, r, d, &a, &owner, s.is_some(), stops[o], &did).map_err(|e| format!("operation {o}: {e}"))?;
        cx.step();
        cx.state(&(o, &did));
        todo = &todo[w.recv_taken - taken..];
    }
    w.run(|| drop(x));
    Ok(())
}

/// One service, another one that could be taken for it, and the first again; every reply holds both.
fn c13_kin(cx: &mut Cx) -> R {
    let (r, d) = (100 * MS, 150 * MS);
    let (a, b) = pool::pick_kin(cx, false);
    let swap = cx.flag();
    let types = cx.flag();
    let (na, nb) = (pool::who_name(&a), pool::who_name(&b));
    let target = |owner: &Name, l: &[u8]| -> rd::Data {
        let mut n = vec![l.to_vec()];
        n.extend(owner.clone());
        rd::Data::Name(rd::PTR, n)
    };
    let en = rd::n("_services._dns-sd._udp.local");
    let mut m = Build::new(12345, 0x8400);
    for k in if swap { [1, 0] } else { [0, 1] } {
        let n = [&na, &nb][k];
        m = m.ans(n, &target(n, &[b'p' + k as u8])).ans(&en, &rd::Data::Name(rd::PTR, n.clone()));
    }
    let m = m.done();
    cx.note(|| format!("{} and {}", rd::show_name(&na), rd::show_name(&nb)));
    cx.state(&(&na, &nb));
    let mut w = World::new();
    let mut x = w.run(|| setup("local", r, d))?;
    for (o, k) in [0, 1, 0, 2, 1].iter().enumerate() {
        if *k == 2 && !types {
            continue;
        }
        let (who, owner) = [(Some(&a), &na), (Some(&b), &nb), (None, &en)][*k];
        let s = who.map(|w| svc(&w.1, w.2));
        let t0 = w.now();
        let sb = w.sends().len();
        w.arrive(t0 + MS, pool::peers()[o % 3], m.clone());
        let did = w.run(|| discover(&mut x, s.as_ref(), 0))?;
        cx.step();
        judge_op(&w, sb, t0, r, d, &[(t0 + MS, &m)], owner, s.is_some(), 0, &did).map_err(|e| format!("operation {o}, about {}: {e}", rd::show_name(owner)))?;
    }
    w.run(|| drop(x));
    Ok(())
}

/// Runs discovery over a case's datagrams, one every millisecond.
fn c13_case(cx: &mut Cx, c: &pool::Case, inst: bool, stop: usize) -> R {
    let (r, d) = (100 * MS, 450 * MS);
    cx.note(|| c.what.clone());
    let mut w = World::new();
    let mut arr: Vec<(u64, &[u8])> = vec![];
    for (i, g) in c.dgs.iter().enumerate() {
        let at = (i as u64 + 1) * MS / 4;
        arr.push((at, g));
        w.arrive(at, pool::peers()[i % 3], g.clone());
    }
    let did = w.run(|| -> Result<Did, String> {
        let mut x = setup_in(&c.domain, r, d)?;
        let s = svc(if inst { &c.svc } else { b"_" }, c.tcp);
        discover(&mut x, inst.then_some(&s), stop)
    })?;
    cx.steps(w.recv_taken as u64);
    judge_op(&w, 0, 0, r, d, &arr, &c.owner, inst, stop, &did).map_err(|e| format!("{}: {e}", c.what))?;
    cx.state(&(&c.owner, &c.dgs));
    cx.outcome(&did.calls.len());
    Ok(())
}
fn c13_values(cx: &mut Cx) -> R {
    let inst = cx.flag();
    let c = pool::ptr_values(cx, inst);
    c13_case(cx, &c, inst, 0)
}
fn c13_broken(cx: &mut Cx) -> R {
    let inst = cx.flag();
    let c = pool::ptr_broken(cx, inst);
    let stop = cx.choose(3);
    c13_case(cx, &c, inst, stop)
}
/// Every byte of a good answer changed to every value, then the good answer.
fn c13_mutated(cx: &mut Cx) -> R {
    let inst = cx.flag();
    let owner = if inst { rd::n("_svc._tcp.local") } else { rd::n("_services._dns-sd._udp.local") };
    let t = if inst { pool::instance_targets("_svc._tcp.local") } else { pool::service_targets() };
    let p = pool::ptr_pool(&owner, &t);
    let base = [&p[1].1, &p[12].1][cx.choose(2)].clone();
    let mut m = base.clone();
    let at = cx.choose(base.len());
    m[at] = cx.choose(256) as u8;
    let c = pool::Case { inst: vec![], svc: b"_svc".to_vec(), tcp: true, domain: rd::n("local"), owner, dgs: vec![m, p[0].1.clone()], what: format!("byte {at} changed") };
    c13_case(cx, &c, inst, 0)
}

/// Hundreds to thousands of distinct targets, each announced twice.
fn c13_crowd(cx: &mut Cx) -> R {
    let inst = cx.flag();
    let c = pool::crowd(cx, inst);
    c13_case(cx, &c, inst, 0)
}

/// Any number of datagrams, each of one kind or all in turn, in front of a new target.
fn c13_stream(cx: &mut Cx) -> R {
    let (r, d) = (100 * MS, 450 * MS);
    let inst = cx.flag();
    let n: usize = *cx.pick(&[10usize, 33, 100, 257, 1025, 4100, 66_000]);
    let gap = *cx.pick(&[0u64, 5 * US]);
    let (owner, last) = if inst { (rd::n("_svc._tcp.local"), "the last one._svc._tcp.local") } else { (rd::n("_services._dns-sd._udp.local"), "_last._tcp.local") };
    let p = pool::ptr_pool(&owner, &if inst { pool::instance_targets("_svc._tcp.local") } else { pool::service_targets() });
    let which = cx.choose(p.len() + 1);
    if n > 60_000 && which < p.len() {
        return Ok(());
    }
    cx.note(|| format!("{n} datagrams every {} us, kind {which}", gap / US));
    cx.state(&(inst, n, gap, which));
    let end = Build::new(12345, 0x8400).ans(&owner, &pool::ptr(last)).done();
    let mut arr: Vec<(u64, &[u8])> = (0..n).map(|i| (i as u64 * gap + MS, &p[if which == p.len() { i % which } else { which }].1[..])).collect();
    arr.push((n as u64 * gap + 2 * MS, &end));
    let mut w = World::new();
    w.horizon = 20_000 + 40 * n;
    for (i, (t, g)) in arr.iter().enumerate() {
        w.arrive(*t, pool::peers()[i % 3], g.to_vec());
    }
    let did = w.run(|| -> Result<Did, String> {
        let mut x = setup("local", r, d)?;
        let s = svc(b"_svc", true);
        discover(&mut x, inst.then_some(&s), 0)
    })?;
    cx.steps(w.recv_taken as u64);
    judge_op(&w, 0, 0, r, d, &arr, &owner, inst, 0, &did)?;
    cx.outcome(&did.calls.len());
    Ok(())
}

// ---------------------------------------------------------------- C14

fn c14_timing(cx: &mut Cx) -> R {
    let r = *cx.pick(&[100 * MS, 7 * MS, 300 * MS, 999 * MS, 1500 * MS, 60_000 * MS]);
    let d = *cx.pick(&[1000 * MS + 500 * US, 0, MS + 500 * US, 299 * MS + 500 * US, 301 * MS + 500 * US, 3000 * MS + 500 * US]);
    let kind = cx.choose(3);
    let n = cx.by_tier(4, 5);
    // arrival gaps around the two timeouts; the last value means: no more datagrams
    let gaps: Vec<u64> = vec![0, MS, r - MS, r + MS, 2 * r - 2 * MS, 5 * r / 2, d / 2, d, u64::MAX].into_iter().filter(|&g| g == u64::MAX || g < 10_000 * MS).collect();
    let owner = [rd::n("_svc._tcp.local"), rd::n("_services._dns-sd._udp.local"), rd::n("inst._svc._tcp.local")][kind].clone();
    let payload: [Vec<u8>; 3] = [
        vec![0xff; 5],
        Build::new(12345, 0x8400).ans(&rd::n("nobody.local"), &rd::Data::A([1, 1, 1, 1])).done(),
        match kind {
            0 => Build::new(12345, 0x8400).ans(&owner, &pool::ptr("inst._svc._tcp.local")).done(),
            1 => Build::new(12345, 0x8400).ans(&owner, &pool::ptr("_svc._tcp.local")).done(),
            _ => Build::new(12345, 0x8400).ans(&owner, &pool::txt(&[b"a=b"])).done(),
        },
    ];
    let mut w = World::new();
    let mut t = 0;
    let mut arr = vec![];
    for i in 0..n {
        let g = *cx.pick(&gaps);
        if g == u64::MAX {
            break;
        }
        t += g;
        let at = t + (i as u64 + 1) * US;
        arr.push(at);
        w.arrive(at, pool::peers()[i % 3], payload[i % 3].clone());
    }
    cx.note(|| format!("operation {kind}, retransmit {} us, limit {} us, datagrams at {:?} us", r / US, d / US, arr.iter().map(|t| t / US).collect::<Vec<_>>()));
    let (err, end) = w.run(|| -> Result<_, String> {
        let mut x = setup("local", r, d)?;
        let s = svc(b"_svc", true);
        let e = match kind {
            0 => err_of(&catch(|| x.discover_instances(&s, |_| ControlFlow::Continue(())))?),
            1 => err_of(&catch(|| x.discover_service_types(|_| ControlFlow::Continue(())))?),
            _ => err_of(&catch(|| x.load_instance_details(&ServiceInstance::from_service(Label::new("inst"), s)))?),
        };
        Ok((e, now()))
    })?;
    cx.steps(w.calls as u64);
    let (sends, want_end, _) = sends_until(0, r, d, &arr);
    if kind == 2 {
        ensure_eq!(err.map(|e| e.0), Some(std::io::ErrorKind::TimedOut), "error when no SRV record came");
    } else {
        ensure_eq!(err, None, "error of the operation");
    }
    ensure!(end <= d, "the operation took {} us although its limit is {} us", end / US, d / US);
    ensure!(end == want_end, "the operation gave up after {} us although its limit is {} us", end / US, d / US);
    check_queries(&w, 0, server(), &sends, &owner, if kind == 2 { &[rd::TXT, rd::SRV] } else { &[rd::PTR] })?;
    cx.state(&(kind, r, d, &sends));
    cx.outcome(&sends.len());
    Ok(())
}
/// Timers that fire late, computing and callbacks that take time.
fn c14_rough(cx: &mut Cx) -> R {
    let n = cx.by_tier(2, 3);
    let c = pool::Rough::pick(cx, n);
    cx.note(|| format!("{c:?}"));
    let mut w = c.world();
    let mut calls = vec![];
    let (t0, err, end) = w.run(|| -> Result<_, String> {
        let mut x = setup("local", c.r, c.d)?;
        let s = svc(b"_svc", true);
        let t0 = now();
        let mut on = || {
            let t = now();
            world::with(|w| w.net.now += c.cost);
            calls.push((t, now()));
            ControlFlow::Continue(())
        };
        let e = match c.kind {
            0 => err_of(&catch(|| x.discover_instances(&s, |_| on()))?),
            1 => err_of(&catch(|| x.discover_service_types(|_| on()))?),
            _ => err_of(&catch(|| x.load_instance_details(&ServiceInstance::from_service(Label::new("inst"), s)))?).filter(|e| e.0 != std::io::ErrorKind::TimedOut),
        };
        Ok((t0, e, now()))
    })?;
    cx.steps(w.calls as u64);
    ensure_eq!(err, None, "error of the operation");
    cx.state(&(w.sends().len(), end, &calls));
    cx.outcome(&w.sends().len());
    c.judge(&w, t0, end, &calls)
}
/// A socket error at every send and receive, for every kind of operation.
fn c14_errors(cx: &mut Cx) -> R {
    let (r, d) = (100 * MS, 450 * MS);
    let kind = cx.choose(3);
    // every error but the ones that stand for a timeout or ask to try again
    let codes: Vec<i32> = (1..=133).filter(|c| ![libc::EAGAIN, libc::EINTR, libc::ETIMEDOUT].contains(c)).collect();
    let code = *cx.pick(&codes);
    let pos = cx.choose(7);
    let on_send = cx.flag();
    let with_data = cx.choose(3);
    let mut w = World::new();
    if on_send {
        w.send_err = Some((pos, code));
    } else {
        w.recv_err = Some((pos, code));
    }
    let owner = ["_svc._tcp.local", "_services._dns-sd._udp.local", "inst._svc._tcp.local"][kind];
    let mut arr = vec![];
    for i in 0..with_data {
        let at = (130 * i as u64 + 20) * MS;
        arr.push(at);
        w.arrive(at, pool::peers()[0], Build::new(1, 0x8400).ans(&rd::n(owner), &rd::Data::A([1, 1, 1, 1])).done());
    }
    cx.note(|| format!("operation {kind}: {} {pos} fails with {code}, {with_data} datagrams", if on_send { "send" } else { "receive" }));
    let (err, end) = w.run(|| -> Result<_, String> {
        let mut x = setup("local", r, d)?;
        let s = svc(b"_svc", true);
        let e = match kind {
            0 => err_of(&catch(|| x.discover_instances(&s, |_| ControlFlow::Continue(())))?),
            1 => err_of(&catch(|| x.discover_service_types(|_| ControlFlow::Continue(())))?),
            _ => err_of(&catch(|| x.load_instance_details(&ServiceInstance::from_service(Label::new("inst"), s)))?),
        };
        Ok((e, now()))
    })?;
    cx.steps(w.calls as u64);
    let hit = w.log.iter().any(|e| matches!(e, world::Ev::SendFail { .. } | world::Ev::RecvFail { .. }));
    let (sends, _, got) = sends_until(0, r, d, &arr);
    // without an error: one receive per datagram, per retransmission and for the final wait
    let would = if on_send { pos < sends.len() } else { pos < got + sends.len() };
    ensure!(hit == would, "the operation made another number of socket calls than it should ({})", if hit { "more" } else { "fewer" });
    if hit {
        cx.cover("error hit");
        ensure_eq!(err.and_then(|e| e.1), Some(code), "error of the operation after the socket failed");
        ensure!(w.sends().len() <= sends.len(), "kept sending after an error");
    } else if kind == 2 {
        ensure_eq!(err.map(|e| e.0), Some(std::io::ErrorKind::TimedOut), "error when no SRV record came");
    } else {
        ensure_eq!(err, None, "error of the operation");
    }
    ensure!(end <= d, "took too long");
    cx.state(&(kind, on_send, pos, code, with_data));
    cx.outcome(&hit);
    Ok(())
}
/// Settings from a millisecond to a lifetime, in silence or with datagrams now and then or all the time.
fn c14_spans(cx: &mut Cx) -> R {
    const S: u64 = 1000 * MS;
    let r = *cx.pick(&[MS, 2 * MS, 3 * MS, 10 * MS, 33 * MS, 100 * MS, 250 * MS, 300 * MS, 999 * MS, S, 1001 * MS, 2 * S, 5 * S, 10 * S, 30 * S, 60 * S, 61 * S, 3600 * S, 86_400 * S, 4_320_000 * S, 2_240_000_000 * S]);
    let d = *cx.pick(&[0, 1, 2, 5, 10, 50, 99, 100, 101, 299, 300, 301, 500, 999, 1000, 1001, 1999, 2000, 2500, 4999, 5000, 5001, 9999, 10_000, 10_500, 29_999, 30_000, 31_000, 59_999, 60_000, 61_000, 66_000, 120_000, 300_000, 600_000, 3_600_000, 7_200_000, 86_400_000, 604_800_000, 2_592_000_000, 4_320_000_000, 34_560_000_000, 2_240_000_000_000, 4_418_000_000_000u64]) * MS + 500 * US;
    let kind = cx.choose(3);
    let traffic = cx.choose(5);
    if d / r > 70_000 || d / r > 3000 && (r > MS || traffic > 1) {
        return Ok(());
    }
    let every = [u64::MAX, r / 2 + US, r - MS / 2, r + MS / 2, d / 7 / US * US + 7 * US][traffic];
    let owner = [rd::n("_svc._tcp.local"), rd::n("_services._dns-sd._udp.local"), rd::n("inst._svc._tcp.local")][kind].clone();
    let m = [vec![0xff; 5], Build::new(12345, 0x8400).ans(&owner, &rd::Data::A([1, 1, 1, 1])).done()];
    let mut w = World::new();
    let mut arr = vec![];
    let mut t = 0;
    w.horizon = 100_000 + 150 * (d / r) as usize;
    while every < u64::MAX && t + every < d + 2 * r && (arr.len() < 3000 || d / r > 3000) {
        t += every;
        let at = t + (arr.len() as u64 % 100 + 1) * US;
        if at == d {
            continue; // not at the instant the limit passes
        }
        w.arrive(at, pool::peers()[0], m[arr.len() % 2].clone());
        arr.push(at);
    }
    cx.note(|| format!("operation {kind}, retransmit {} ms, limit {} us, {} datagrams, one every {} us", r / MS, d / US, arr.len(), every / US));
    let (err, end) = w.run(|| -> Result<_, String> {
        let mut x = setup("local", r, d)?;
        let s = svc(b"_svc", true);
        let e = match kind {
            0 => err_of(&catch(|| x.discover_instances(&s, |_| ControlFlow::Continue(())))?),
            1 => err_of(&catch(|| x.discover_service_types(|_| ControlFlow::Continue(())))?),
            _ => err_of(&catch(|| x.load_instance_details(&ServiceInstance::from_service(Label::new("inst"), s)))?),
        };
        Ok((e, now()))
    })?;
    cx.steps(w.calls as u64);
    let (sends, want_end, _) = sends_until(0, r, d, &arr);
    ensure_eq!(err.map(|e| e.0), (kind == 2).then_some(std::io::ErrorKind::TimedOut), "error of the operation");
    ensure!(end == want_end, "the operation ended after {} us, its limit is {} us", end / US, d / US);
    let times: Vec<u64> = w.sends().iter().map(|s| s.0).collect();
    let at = (0..).find(|&i| times.get(i) != sends.get(i) || i == times.len()).unwrap();
    ensure!(times == sends, "{} queries were sent, expected are {}; query {at} comes at {:?} instead of {:?} us", times.len(), sends.len(), times.get(at).map(|t| t / US), sends.get(at).map(|t| t / US));
    check_queries(&w, 0, server(), &sends, &owner, if kind == 2 { &[rd::TXT, rd::SRV] } else { &[rd::PTR] })?;
    cx.state(&(kind, r, d, traffic));
    cx.outcome(&sends.len());
    Ok(())
}
/// Several operations on one discoverer with settings changed in between, server families, names
/// and domains; a service or instance name that makes the query's name too long.
fn c14_settings(cx: &mut Cx) -> R {
    let servers: [SocketAddr; 5] = ["224.0.0.251:5353".parse().unwrap(), "[ff02::fb]:5353".parse().unwrap(), "192.0.2.53:53".parse().unwrap(), "[2001:db8::1]:1053".parse().unwrap(), "[fe80::9%2]:5353".parse().unwrap()];
    let srv = *cx.pick(&servers);
    let domains = ["local", "example.org", "", "a.b.c.d.e"];
    let dom = rd::n(cx.pick(&domains));
    let log = cx.flag();
    let mut w = World::new();
    logcap::enable(log);
    let mut x = w.run(|| SyncDiscoverer::new(srv, conv::dn(&dom)).map_err(|e| format!("creating a discoverer failed: {e}")))?;
    let (mut r, mut d) = (300 * MS, 1000 * MS);
    for _ in 0..2 {
        match cx.choose(4) {
            0 => {}
            1 => {
                r = *cx.pick(&[50 * MS, 700 * MS]);
                w.run(|| x.set_retransmit_timeout(ms(r))).map_err(|e| format!("set_retransmit_timeout: {e}"))?;
            }
            2 => {
                d = *cx.pick(&[120 * MS, 1730 * MS]);
                w.run(|| x.set_discovery_timeout(ms(d))).map_err(|e| format!("set_discovery_timeout: {e}"))?;
            }
            _ => {
                r = 90 * MS;
                d = 400 * MS;
                w.run(|| x.set_discovery_timeout(ms(d))).map_err(|e| format!("set_discovery_timeout: {e}"))?;
                w.run(|| x.set_retransmit_timeout(ms(r))).map_err(|e| format!("set_retransmit_timeout: {e}"))?;
            }
        }
        let kind = cx.choose(3);
        let tcp = cx.flag();
        let tl: &[u8] = if tcp { b"_tcp" } else { b"_udp" };
        let (sl, il): (Vec<u8>, Vec<u8>) = match cx.choose(2) {
            0 => (b"_s".to_vec(), b"My.Inst".to_vec()),
            _ => ([b"_".to_vec(), vec![b'S'; 62]].concat(), vec![0xff; 63]),
        };
        let s = svc(&sl, tcp);
        let mut name: Name = match kind {
            0 => vec![sl.clone(), tl.to_vec()],
            1 => rd::n("_services._dns-sd._udp"),
            _ => vec![il.clone(), sl.clone(), tl.to_vec()],
        };
        name.extend(dom.clone());
        let t0 = w.now();
        let sb = w.sends().len();
        let err = w.run(|| -> Result<_, String> {
            Ok(match kind {
                0 => err_of(&catch(|| x.discover_instances(&s, |_| ControlFlow::Continue(())))?),
                1 => err_of(&catch(|| x.discover_service_types(|_| ControlFlow::Continue(())))?),
                _ => err_of(&catch(|| x.load_instance_details(&ServiceInstance::from_service(Label::new(&il), s.clone())))?),
            })
        })?;
        cx.step();
        let (sends, end, _) = sends_until(t0, r, d, &[]);
        ensure_eq!(err.map(|e| e.0), (kind == 2).then_some(std::io::ErrorKind::TimedOut), "error of the operation");
        ensure!(w.now() == end, "the operation took {} us with retransmit timeout {} us and limit {} us", (w.now() - t0) / US, r / US, d / US);
        check_queries(&w, sb, srv, &sends, &name, if kind == 2 { &[rd::TXT, rd::SRV] } else { &[rd::PTR] })?;
        cx.state(&(kind, r, d, tcp, sl.len(), &name));
    }
    w.run(|| drop(x));
    // the multicast constructor: .local through 224.0.0.251:5353
    let mut w = World::new();
    w.run(|| -> R {
        let mut x = SyncDiscoverer::new_multicast_v4().map_err(|e| format!("new_multicast_v4: {e}"))?;
        x.discover_service_types(|_| ControlFlow::Continue(())).map_err(|e| format!("discovery: {e}"))
    })?;
    check_queries(&w, 0, server(), &[0, 300 * MS, 600 * MS, 900 * MS], &rd::n("_services._dns-sd._udp.local"), &[rd::PTR])
}
/// Query names of every length around the limit of 255 bytes, and far beyond it.
fn c14_long(cx: &mut Cx) -> R {
    let kind = cx.choose(3);
    let total = *cx.pick(&(200..=2100).chain([4096 + 90, 5000, 70000]).chain(65_530..65_800).collect::<Vec<usize>>());
    let lab = *cx.pick(&[63usize, 1, 20]);
    let head = [rd::n("_svc._tcp"), rd::n("_services._dns-sd._udp"), rd::n("inst._svc._tcp")][kind].clone();
    let mut left = total - rd::name_len(&head);
    let mut dom: Name = vec![];
    while left > 0 {
        let mut k = lab.min(left - 1);
        if left - (k + 1) == 1 {
            k = if k > 1 { k - 1 } else { k + 1 };
        }
        dom.push(vec![b'd'; k]);
        left -= k + 1;
    }
    let name: Name = head.iter().chain(&dom).cloned().collect();
    ensure_eq!(rd::name_len(&name), total, "harness: length of the test name");
    cx.note(|| format!("operation {kind}, name of {total} bytes"));
    let log = cx.flag();
    let mut w = World::new();
    logcap::enable(log);
    let mut x = w.run(|| SyncDiscoverer::new(server(), conv::dn(&dom)).map_err(|e| format!("creating a discoverer failed: {e}")))?;
    let s = svc(b"_svc", true);
    let err = w.run(|| -> Result<_, String> {
        Ok(match kind {
            0 => err_of(&catch(|| x.discover_instances(&s, |_| ControlFlow::Continue(())))?),
            1 => err_of(&catch(|| x.discover_service_types(|_| ControlFlow::Continue(())))?),
            _ => err_of(&catch(|| x.load_instance_details(&ServiceInstance::from_service(Label::new("inst"), s.clone())))?),
        })
    })?;
    cx.step();
    if total <= 255 {
        let (sends, end, _) = sends_until(0, 300 * MS, 1000 * MS, &[]);
        ensure_eq!(err.map(|e| e.0), (kind == 2).then_some(std::io::ErrorKind::TimedOut), "error of the operation");
        ensure_eq!(w.now(), end, "end of the operation");
        check_queries(&w, 0, server(), &sends, &name, if kind == 2 { &[rd::TXT, rd::SRV] } else { &[rd::PTR] })?;
    } else {
        ensure!(err.is_some_and(|e| e.0 != std::io::ErrorKind::TimedOut), "an operation with a query name of {total} bytes gives {err:?} instead of an error about it");
        ensure!(w.sends().is_empty(), "a query was sent with a name of {total} bytes");
    }
    cx.state(&(kind, total, lab));
    w.run(|| drop(x));
    Ok(())
}

/// Damaged and odd datagrams neither end an operation nor make it send.
fn c14_broken(cx: &mut Cx) -> R {
    let kind = cx.choose(3);
    let c = match kind {
        0 => pool::ptr_broken(cx, true),
        1 => pool::ptr_broken(cx, false),
        _ => pool::det_broken(cx),
    };
    let at = [20 * MS, 190 * MS][cx.choose(2)];
    let (r, d) = (100 * MS, 450 * MS);
    cx.note(|| format!("operation {kind}, at {} ms: {}", at / MS, c.what));
    let mut w = World::new();
    w.arrive(at, pool::peers()[0], c.dgs[0].clone());
    if kind == 2 && !pool::details_of(&c.dgs[0], &c.owner).is_empty() {
        cx.cover("useful before the damage");
    }
    let (err, end) = w.run(|| -> Result<_, String> {
        let mut x = setup("local", r, d)?;
        let s = svc(b"_svc", true);
        let e = match kind {
            0 => err_of(&catch(|| x.discover_instances(&s, |_| ControlFlow::Continue(())))?),
            1 => err_of(&catch(|| x.discover_service_types(|_| ControlFlow::Continue(())))?),
            _ => err_of(&catch(|| x.load_instance_details(&ServiceInstance::from_service(Label::new("inst"), s)))?),
        };
        Ok((e, now()))
    })?;
    cx.steps(w.calls as u64);
    cx.state(&(&c.dgs[0], kind, at));
    let (sends, want_end, _) = sends_until(0, r, d, &[at]);
    let srv = kind == 2 && pool::details_of(&c.dgs[0], &c.owner).iter().any(|x| matches!(x, Det::Srv(..)));
    if srv {
        // may end at any time once it has the SRV record
        ensure_eq!(err, None, "error of the operation");
        ensure!(end <= d, "took too long");
        let times: Vec<u64> = w.sends().iter().map(|s| s.0).collect();
        ensure!(sends.starts_with(&times), "queries sent at {times:?}");
        return Ok(());
    }
    ensure_eq!(err.map(|e| e.0), (kind == 2).then_some(std::io::ErrorKind::TimedOut), "error of the operation after {}", c.what);
    ensure!(end == want_end, "the operation ended after {} us, its limit is {} us, after {}", end / US, d / US, c.what);
    check_queries(&w, 0, server(), &sends, &c.owner, if kind == 2 { &[rd::TXT, rd::SRV] } else { &[rd::PTR] })
}

// ---------------------------------------------------------------- C15

fn show_txt(t: &TxtRecords) -> Vec<(String, String, Option<Vec<u8>>)> {
    let mut v: Vec<_> = t
        .iter()
        .map(|(k, v)| {
            (
                k.to_ascii_lowercase(),
                k.to_string(),
                match v {
                    TxtRecordValue::NoValue => None,
                    TxtRecordValue::Value(v) => Some(v.to_vec()),
                },
            )
        })
        .collect();
    v.sort();
    v
}
type Got = Result<(Name, u16, Vec<(String, String, Option<Vec<u8>>)>), std::io::ErrorKind>;
fn got(r: std::io::Result<InstanceDetails>) -> Got {
    match r {
        Ok(d) => Ok((conv::name(d.host()), d.port(), show_txt(d.txt_records()))),
        Err(e) => Err(e.kind()),
    }
}
/// Judges one details operation from t0 to `end`, given the datagrams in order of arrival.
fn judge_details(t0: u64, d: u64, end: u64, arr: &[(u64, &[u8])], owner: &Name, g: &Got) -> R {
    let limit = t0 + d;
    ensure!(end <= limit, "loading details took {} us, the limit is {} us", (end - t0) / US, d / US);
    let mut srv: Option<(u64, Name, u16)> = None;
    let mut txts: Vec<(u64, Vec<Vec<u8>>)> = vec![];
    for (t, dg) in arr {
        let t = (*t).max(t0);
        if t > limit {
            break;
        }
        for x in pool::details_of(dg, owner) {
            match x {
                Det::Srv(h, p) => {
                    srv.get_or_insert((t, h, p));
                }
                Det::Txt(e) => txts.push((t, e)),
            }
        }
    }
    match (&srv, g) {
        (None, Err(k)) => {
            ensure!(*k == std::io::ErrorKind::TimedOut, "error {k:?} instead of a timeout");
            ensure!(end == limit, "gave up after {} us, the limit is {} us", (end - t0) / US, d / US);
            Ok(())
        }
        (None, Ok(x)) => Err(format!("returned {x:?} although no SRV record for the instance arrived")),
        (Some((_, h, p)), Err(k)) => Err(format!("error {k:?} although an SRV record ({}:{p}) arrived in time", rd::show_name(h))),
        (Some((ts, h, p)), Ok((gh, gp, gt))) => {
            ensure!(end >= *ts, "finished before the SRV record arrived");
            ensure!(gh == h && gp == p, "returned {}:{gp}, the instance's first SRV record says {}:{p}", rd::show_name(gh), rd::show_name(h));
            if txts.is_empty() {
                ensure!(gt.is_empty(), "returned metadata {gt:?} although none arrived");
            } else {
                ensure!(
                    txts.iter().any(|(t, e)| *t <= end && pool::txt_model(e) == *gt),
                    "returned metadata {gt:?}, but the instance's TXT record(s) that arrived say {:?}",
                    txts.iter().map(|t| pool::txt_model(&t.1)).collect::<Vec<_>>()
                );
            }
            Ok(())
        }
    }
}
fn c15_orders(cx: &mut Cx) -> R {
    let (r, d) = (100 * MS, 450 * MS);
    let owner = rd::n("inst._svc._tcp.local");
    let p = pool::details_pool(&owner);
    let n = cx.by_tier(3, 4);
    let mut w = World::new();
    let mut t = 0;
    let mut arr = vec![];
    for i in 0..n {
        let k = cx.choose(p.len());
        t += [10 * MS, 0, 95 * MS, 120 * MS, 250 * MS][cx.dev(5)];
        let at = t + (i as u64 + 1) * US;
        cx.note(|| format!("{}us: {}", at / US, p[k].0));
        arr.push((at, k));
        w.arrive(at, pool::peers()[(i + k) % 3], p[k].1.clone());
    }
    let (g, end) = w.run(|| -> Result<_, String> {
        let mut x = setup("local", r, d)?;
        let i = ServiceInstance::from_service(Label::new("inst"), svc(b"_svc", true));
        Ok((got(catch(|| x.load_instance_details(&i))?), now()))
    })?;
    cx.steps(w.recv_taken as u64);
    let a: Vec<(u64, &[u8])> = arr.iter().map(|&(t, k)| (t, &p[k].1[..])).collect();
    judge_details(0, d, end, &a, &owner, &g)?;
    cx.state(&(&g, end));
    cx.outcome(&g);
    Ok(())
}
/// Details of several instances through one discoverer; replies come late, early or twice.
fn c15_stale(cx: &mut Cx) -> R {
    let (r, d) = (100 * MS, 250 * MS);
    let insts: [(&[u8], &str); 3] = [(b"one", "one._svc._tcp.local"), (b"two", "two._svc._tcp.local"), (b"One ", "One ._svc._tcp.local")];
    let reply = |i: usize, part: usize| -> Vec<u8> {
        let o = rd::n(insts[i].1);
        let b = Build::new(12345, 0x8400);
        let s = rd::Data::Srv(0, 0, 100 + i as u16, rd::n(["h1.local", "h2.local", "h3.local"][i]));
        let t = pool::txt(&[[&b"k="[..], b"i=", b"\xff"][i], [&b"a"[..], b"b", b"c"][i]]);
        match part {
            0 => b.ans(&o, &s).ans(&o, &t).done(),
            1 => b.ans(&o, &s).done(),
            _ => b.ans(&o, &t).done(),
        }
    };
    let ops = cx.by_tier(2, 3);
    let n = cx.by_tier(3, 4);
    let mut w = World::new();
    let mut arr: Vec<(u64, Vec<u8>)> = vec![];
    let slots = 2 * ops;
    let mut slot = 0;
    for k in 0..n {
        slot += cx.choose(slots - slot);
        let i = cx.choose(2 + (ops > 2) as usize);
        let part = cx.choose(3);
        let at = (slot as u64 / 2) * 250 * MS + [2, 130][slot % 2] * MS + k as u64 * US;
        cx.note(|| format!("{}us: instance {i} part {part}", at / US));
        let m = reply(i, part);
        arr.push((at, m.clone()));
        w.arrive(at, pool::peers()[k % 3], m);
    }
    let mut x = w.run(|| setup("local", r, d))?;
    let mut todo = &arr[..];
    for o in 0..ops {
        let i = cx.choose(2 + (ops > 2) as usize);
        cx.note(|| format!("load instance {i}"));
        let t0 = w.now();
        let taken = w.recv_taken;
        let inst = ServiceInstance::from_service(Label::new(insts[i].0), svc(b"_svc", true));
        let g = got(w.run(|| catch(|| x.load_instance_details(&inst)))?);
        cx.step();
        let a: Vec<(u64, &[u8])> = todo.iter().map(|(t, m)| (*t, &m[..])).collect();
        judge_details(t0, d, w.now(), &a, &rd::n(insts[i].1), &g).map_err(|e| format!("operation {o}: {e}"))?;
        cx.state(&(o, &g));
        cx.outcome(&g);
        todo = &todo[w.recv_taken - taken..];
    }
    w.run(|| drop(x));
    Ok(())
}

/// One instance, another one that could be taken for it, and the first again; every reply holds both.
fn c15_kin(cx: &mut Cx) -> R {
    let (r, d) = (100 * MS, 150 * MS);
    let (a, b) = pool::pick_kin(cx, true);
    let swap = cx.flag();
    let names = [pool::who_name(&a), pool::who_name(&b)];
    let mut m = Build::new(12345, 0x8400);
    for k in if swap { [1, 0] } else { [0, 1] } {
        m = m.ans(&names[k], &rd::Data::Srv(0, 0, 100 + k as u16, rd::n(["h1.local", "h2.local"][k]))).ans(&names[k], &pool::txt(&[[&b"k=v"[..], b"i="][k]]));
    }
    let m = m.done();
    cx.note(|| format!("{} and {}", rd::show_name(&names[0]), rd::show_name(&names[1])));
    cx.state(&names);
    let mut w = World::new();
    let mut x = w.run(|| setup("local", r, d))?;
    for (o, k) in [0, 1, 0, 1].into_iter().enumerate() {
        let who = [&a, &b][k];
        let t0 = w.now();
        let sb = w.sends().len();
        // the last one gets no answer
        let arr: Vec<(u64, &[u8])> = if o < 3 { vec![(t0 + MS, &m)] } else { vec![] };
        for (t, m) in &arr {
            w.arrive(*t, pool::peers()[o % 3], m.to_vec());
        }
        let i = ServiceInstance::from_service(Label::new(&who.0), svc(&who.1, who.2));
        let g = got(w.run(|| catch(|| x.load_instance_details(&i)))?);
        cx.step();
        let at: Vec<u64> = w.sends()[sb..].iter().map(|s| s.0).collect();
        ensure!(at.first() == Some(&t0), "operation {o}: the first query was not sent at once");
        check_queries(&w, sb, server(), &at, &names[k], &[rd::TXT, rd::SRV])?;
        judge_details(t0, d, w.now(), &arr, &names[k], &g).map_err(|e| format!("operation {o}, about {}: {e}", rd::show_name(&names[k])))?;
        cx.outcome(&g);
    }
    w.run(|| drop(x));
    Ok(())
}

fn c15_case(cx: &mut Cx, c: &pool::Case) -> R {
    let (r, d) = (100 * MS, 450 * MS);
    cx.note(|| c.what.clone());
    let mut w = World::new();
    let mut arr: Vec<(u64, &[u8])> = vec![];
    for (i, g) in c.dgs.iter().enumerate() {
        let at = (i as u64 + 1) * MS;
        arr.push((at, g));
        w.arrive(at, pool::peers()[i % 3], g.clone());
    }
    let (g, end) = w.run(|| -> Result<_, String> {
        let mut x = setup_in(&c.domain, r, d)?;
        let i = ServiceInstance::from_service(Label::new(&c.inst), svc(&c.svc, c.tcp));
        Ok((got(catch(|| x.load_instance_details(&i))?), now()))
    })?;
    cx.steps(w.recv_taken as u64);
    check_queries(&w, 0, server(), &w.sends().iter().map(|s| s.0).collect::<Vec<_>>(), &c.owner, &[rd::TXT, rd::SRV])?;
    judge_details(0, d, end, &arr, &c.owner, &g).map_err(|e| format!("{}: {e}", c.what))?;
    cx.state(&(&c.owner, &c.dgs));
    cx.outcome(&g);
    Ok(())
}
/// Any number of datagrams in front of the one that completes the details.
fn c15_stream(cx: &mut Cx) -> R {
    let (r, d) = (100 * MS, 450 * MS);
    let n: usize = *cx.pick(&[10usize, 33, 100, 257, 1025, 4100, 66_000]);
    let gap = *cx.pick(&[0u64, 5 * US]);
    let owner = rd::n("inst._svc._tcp.local");
    let p = pool::details_pool(&owner);
    let idle: Vec<usize> = (0..p.len()).filter(|&i| !pool::details_of(&p[i].1, &owner).iter().any(|x| matches!(x, Det::Srv(..)))).collect();
    let which = cx.choose(p.len() + 1);
    if n > 60_000 && which < p.len() {
        return Ok(());
    }
    cx.note(|| format!("{n} datagrams every {} us, kind {which}", gap / US));
    cx.state(&(n, gap, which));
    let mut arr: Vec<(u64, &[u8])> = (0..n).map(|i| (i as u64 * gap + MS, &p[if which == p.len() { idle[i % idle.len()] } else { which }].1[..])).collect();
    arr.push((n as u64 * gap + 2 * MS, &p[5].1));
    let mut w = World::new();
    w.horizon = 20_000 + 40 * n;
    for (i, (t, g)) in arr.iter().enumerate() {
        w.arrive(*t, pool::peers()[i % 3], g.to_vec());
    }
    let (g, end) = w.run(|| -> Result<_, String> {
        let mut x = setup("local", r, d)?;
        let i = ServiceInstance::from_service(Label::new("inst"), svc(b"_svc", true));
        Ok((got(catch(|| x.load_instance_details(&i))?), now()))
    })?;
    cx.steps(w.recv_taken as u64);
    judge_details(0, d, end, &arr, &owner, &g)?;
    cx.outcome(&g);
    Ok(())
}
fn c15_values(cx: &mut Cx) -> R {
    let c = pool::det_values(cx);
    c15_case(cx, &c)
}
fn c15_broken(cx: &mut Cx) -> R {
    let c = pool::det_broken(cx);
    c15_case(cx, &c)
}
/// Every byte of a good answer changed to every value, then a good answer.
fn c15_mutated(cx: &mut Cx) -> R {
    let owner = rd::n("inst._svc._tcp.local");
    let p = pool::details_pool(&owner);
    let base = [&p[4].1, &p[5].1][cx.choose(2)].clone();
    let mut m = base.clone();
    let at = cx.choose(base.len());
    m[at] = cx.choose(256) as u8;
    let c = pool::Case { inst: b"inst".to_vec(), svc: b"_svc".to_vec(), tcp: true, domain: rd::n("local"), owner, dgs: vec![m, p[4].1.clone()], what: format!("byte {at} changed") };
    c15_case(cx, &c)
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C13",
            rule: "The real discoverer runs on a virtual network and clock over all datagram sequences of the bounded length; callbacks (value, order, time), queries and the end are compared with a reference model that reads the datagrams with an independent parser.",
            assumptions: &["a datagram never arrives at the very instant a timeout fires"],
            scenarios: vec![
                Scenario { name: "instances", f: c13_instances, dev: (1, 2), bounds: "3 (4) datagrams from a pool of 16, callback stopping never or at call 1-3, up to 1 (2) unusual gaps" },
                Scenario { name: "types", f: c13_types, dev: (1, 2), bounds: "as for instances, for service types" },
                Scenario { name: "values", f: c13_values, dev: (0, 0), bounds: "instances and types: 1254 labels as target or queried service, 4000 transport labels, 4341 domains (asked in and answered from) and whole targets, 1-257 targets in datagrams of 1-24, 37 TTLs, all IDs and response flags, 1254 labels put anywhere into the owner" },
                Scenario { name: "crowd", f: c13_crowd, dev: (0, 0), bounds: "9 numbers of distinct targets from 300 to 4100 (20000), each announced twice: all again in the same or the opposite order, at once, or each after the next 1 to 1025" },
                Scenario { name: "stream", f: c13_stream, dev: (0, 0), bounds: "10 to 4100 datagrams (each of 16 kinds, or all in turn) and 66000 of all kinds, at 2 rates, in front of a new target" },
                Scenario { name: "kin", f: c13_kin, dev: (0, 0), bounds: "32 service labels, each with every label one change away or the other transport: both asked for in turn on one discoverer (and service types), every reply naming both in either order" },
                Scenario { name: "broken", f: c13_broken, dev: (0, 0), bounds: "about 4000 damaged datagrams (each kind of damage in each section at 12 sizes, after nothing, an answer, or a question and an answer) before an intact one, 3 callback stops" },
                Scenario { name: "mutated", f: c13_mutated, dev: (0, 0), bounds: "every byte of 2 good datagrams set to every value, then an intact one" },
                Scenario { name: "stale", f: c13_stale, dev: (1, 2), bounds: "2 (3) operations of 3 kinds on one discoverer, 3 replies to any of them at any of 3 moments of each operation or afterwards" },
            ],
        },
        Property {
            id: "C14",
            rule: "Virtual time: the times of all queries and of the return are compared with a timing model for all timeout settings and arrival patterns from the grid; a socket error is injected at every send and receive.",
            assumptions: &["computation takes no time (except in the scenario rough)", "a datagram never arrives at the very instant a timeout fires, and the limit is no multiple of the retransmit timeout (except 0)"],
            scenarios: vec![
                Scenario { name: "timing", f: c14_timing, dev: (0, 0), bounds: "6 retransmit x 6 total timeouts x 3 operations x all sequences of up to 4 (5) datagrams over 8 gaps placed around both timeouts" },
                Scenario { name: "rough", f: c14_rough, dev: (0, 0), bounds: "3 operations x 3 retransmit x 5 total timeouts x 9 ways in which timers fire late and computing takes time x 4 durations of a callback x up to 2 (3) datagrams at 7 gaps" },
                Scenario { name: "broken", f: c14_broken, dev: (0, 0), bounds: "3 operations x about 4000 damaged datagrams at 2 moments" },
                Scenario { name: "errors", f: c14_errors, dev: (0, 0), bounds: "130 error codes at every send or receive of 3 operations with 0-2 datagrams" },
                Scenario { name: "spans", f: c14_spans, dev: (0, 0), bounds: "retransmit timeouts 1 ms to 71 years x limits 0 to 140 years (up to 3000 queries each, 66000 with the shortest) x 3 operations, in silence or with up to 3000 (132000) datagrams at 4 rates" },
                Scenario { name: "settings", f: c14_settings, dev: (0, 0), bounds: "4 servers x 4 domains x 2 operations with settings changed between them, short and longest labels" },
                Scenario { name: "long", f: c14_long, dev: (0, 0), bounds: "3 operations x every query name length from 200 to 2100 and from 65530 to 65800 x 3 label sizes" },
            ],
        },
        Property {
            id: "C15",
            rule: "The real discoverer loads details over all datagram sequences of the bounded length on a virtual network; the result is compared with what an independent parser finds about the instance in the datagrams.",
            assumptions: &["with several TXT records for the instance any of them is accepted"],
            scenarios: vec![
                Scenario { name: "orders", f: c15_orders, dev: (1, 2), bounds: "3 (4) datagrams from a pool of 16, up to 1 (2) unusual gaps" },
                Scenario { name: "values", f: c15_values, dev: (0, 0), bounds: "1254 instance or service labels, 4341 hosts and domains, all ports, all priorities and weights, 1445 sets of metadata, TTLs, all IDs, flags, foreign owners next to the instance's, each in 3 splits and spellings" },
                Scenario { name: "stream", f: c15_stream, dev: (0, 0), bounds: "10 to 4100 datagrams (each of 16 kinds, or all without a location in turn) and 66000 of all these, at 2 rates, in front of the complete details" },
                Scenario { name: "kin", f: c15_kin, dev: (0, 0), bounds: "32 instance or service labels, each with every label one change away, the other transport, or the border between labels moved: both loaded in turn on one discoverer, every reply describing both in either order" },
                Scenario { name: "broken", f: c15_broken, dev: (0, 0), bounds: "about 4000 damaged datagrams (after nothing, a TXT or an SRV answer) before an intact one" },
                Scenario { name: "mutated", f: c15_mutated, dev: (0, 0), bounds: "every byte of 2 good datagrams set to every value, then an intact one" },
                Scenario { name: "stale", f: c15_stale, dev: (0, 0), bounds: "2 (3) operations for 2 (3) instances, 3 (4) replies (SRV, TXT or both) for any instance at 2 moments of each operation" },
            ],
        },
    ]
}
