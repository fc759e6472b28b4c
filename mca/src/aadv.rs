//! C23: the async advertiser next to the blocking one, and several tasks on one executor.
use crate::advmodel::{self as am, inst, nm, Inst, Op};
use crate::conv;
use crate::exec::{self, End, Plan, Tasks};
use crate::pool;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::net::{IpAddr, SocketAddr};
use std::ops::ControlFlow;
use std::sync::Mutex;
use uwuhi::name::Label;
use uwuhi::service::{Service, ServiceInstance, ServiceTransport, TxtRecordValue};
use uwuhi_async::resolver::AsyncResolver;
use uwuhi_async::service::advertising::AsyncAdvertiser;
use uwuhi_async::service::discovery::AsyncDiscoverer;
use vcore::explore::{catch, Property, Scenario};
use vcore::refdns::{self as rd, Build, Name};
use vcore::world::{Arrival, Ev, World, MS};
use vcore::{ensure, ensure_eq, logcap, util, Cx};

type R = Result<(), String>;
const US: u64 = 1000;

fn build_async(ops: &[Op]) -> Result<AsyncAdvertiser, String> {
    let Op::Name(l, ip) = &ops[0] else { unreachable!() };
    let mut a = catch(|| AsyncAdvertiser::new(Label::new(l), *ip))?.map_err(|e| format!("creating an async advertiser failed: {e}"))?;
    for op in &ops[1..] {
        match op {
            Op::Name(l, ip) => a.add_name(Label::new(l), *ip),
            Op::Inst(i) => a.add_instance(i.instance(), i.details()),
        }
    }
    Ok(a)
}
fn config() -> Vec<Op> {
    let big: Vec<Vec<u8>> = (0..7u8).map(|k| [vec![b'k', b'0' + k, b'='], vec![b'A' + k; 250]].concat()).collect();
    let big: Vec<&[u8]> = big.iter().map(|v| &v[..]).collect();
    vec![
        nm(b"host", "192.0.2.1"),
        nm(b"host", "fd00::1"),
        nm(b"other", "192.0.2.9"),
        inst(b"in", b"_svc", true, "host.local", 80, &[b"a=b"]),
        inst(b"big", b"_svc", true, "host.local", 81, &big),
    ]
}
fn peers() -> [SocketAddr; 3] {
    ["192.0.2.77:5353".parse().unwrap(), "10.0.0.1:40001".parse().unwrap(), "192.0.2.77:1".parse().unwrap()]
}
fn packets() -> Vec<(&'static str, Vec<u8>)> {
    let host = rd::n("host.local");
    let big = rd::n("big._svc._tcp.local");
    let mut half = Build::new(5, 0).q(&host, 255, 1);
    half.body.extend_from_slice(b"\xc0");
    half.counts[0] += 1;
    let mut garbage_counts = Build::new(0xffff, 0).q(&host, 1, 1);
    garbage_counts.counts = [0xffff; 4];
    let mut fills = Build::new(0x0a0a, 0).q(&host, 28, 1).done();
    fills.resize(1500, 0xee);
    let mut beyond = fills.clone();
    beyond.resize(9000, 0xee);
    vec![
        ("A query", Build::new(1, 0).q(&host, 1, 1).done()),
        ("ANY query, ID ffff", Build::new(0xffff, rd::RD).q(&host, 255, 255).done()),
        ("truncating TXT query", Build::new(2, 0).q(&big, 16, 1).done()),
        ("PTR and SRV query", Build::new(3, 0).q(&rd::n("_svc._tcp.local"), 12, 1).q(&big, 33, 1).done()),
        ("matching question, then damage", half.done()),
        ("announces 65535 questions", garbage_counts.done()),
        ("no match", Build::new(6, 0).q(&rd::n("nobody.local"), 1, 1).done()),
        ("response", Build::new(7, 0x8400).ans(&host, &rd::Data::A([9, 9, 9, 9])).done()),
        ("short", vec![1, 2, 3]),
        ("empty", vec![]),
        ("garbage", vec![0xc0; 1500]),
        ("query filling the buffer", fills),
        ("query with trailing bytes beyond the buffer", beyond),
    ]
}
type Sends = Vec<(u64, SocketAddr, Vec<u8>)>;
fn show(v: &Sends) -> String {
    v.iter().map(|(t, a, d)| format!("{}us {a} {}", t / US, util::show(d))).collect::<Vec<_>>().join("; ")
}
fn code(r: std::io::Result<()>) -> Result<(), Option<i32>> {
    r.map_err(|e| e.raw_os_error())
}
fn setup_events(w: &World) -> Vec<Ev> {
    w.log.iter().filter(|e| matches!(e, Ev::Socket { .. } | Ev::Bind { .. } | Ev::Opt { .. })).cloned().collect()
}

fn c23_loop(cx: &mut Cx) -> R {
    let ops = config();
    let pool = packets();
    let n = cx.by_tier(3, 4);
    let mut arr = vec![];
    let mut t = 0;
    logcap::enable(cx.dev(2) == 1);
    for i in 0..n {
        let k = cx.choose(pool.len());
        let peer = peers()[(i * 2 + k) % 3];
        t += [0, 700 * MS][cx.dev(2)];
        cx.note(|| format!("{}: {} from {peer}", t / MS, pool[k].0));
        arr.push((t, peer, k));
    }
    let (mut send_err, mut recv_err, mut block) = (None, None, None);
    match cx.dev(1 + (n + 1) + n + 2 * n) {
        0 => {}
        k if k <= n + 1 => recv_err = Some(if k == n + 1 { t + MS } else { arr[k - 1].0 }),
        k if k <= 2 * n + 1 => send_err = Some((k - n - 2, libc::ENOBUFS)),
        k => {
            let k = k - 2 * n - 2;
            block = Some((k / 2, [MS, 900 * MS][k % 2]));
        }
    }
    cx.note(|| format!("receive error at {recv_err:?}, send error {send_err:?}, not writable {block:?}"));
    let (mut wa, mut ws) = (World::new(), World::new());
    for w in [&mut wa, &mut ws] {
        for (i, (t, a, k)) in arr.iter().enumerate() {
            if recv_err == Some(*t) && i == arr.iter().position(|x| x.0 == *t).unwrap() {
                w.net.push(Arrival::error(*t, libc::ENETDOWN));
            }
            w.arrive(*t, *a, pool[*k].1.clone());
        }
        if let Some(t) = recv_err {
            if arr.iter().all(|a| a.0 != t) {
                w.net.push(Arrival::error(t, libc::ENETDOWN));
            }
        }
        w.send_err = send_err;
        w.send_block = block;
    }
    let ra = wa.run(|| -> Result<_, String> {
        let mut a = build_async(&ops)?;
        exec::finish(a.listen()).map_err(|e| format!("async listen: {e}"))
    })?;
    let rs = ws.run(|| -> Result<_, String> {
        let mut s = am::build_sync(&ops);
        catch(|| s.listen_blocking()).map_err(|e| format!("listen: {e}"))
    })?;
    cx.steps((wa.recv_taken + ws.recv_taken) as u64);
    let (a, s) = (wa.sends(), ws.sends());
    ensure!(a == s, "replies of the async advertiser [{}], of the blocking one [{}]", show(&a), show(&s));
    let (ra, rs) = (code(ra), code(rs));
    ensure_eq!(ra, rs, "how listening ended, compared with the blocking advertiser");
    ensure!(ra.is_err(), "listening ended without an error");
    ensure_eq!(setup_events(&wa), setup_events(&ws), "socket setup, compared with the blocking advertiser's");
    cx.state(&a);
    cx.outcome(&(a.len(), ra));
    Ok(())
}
/// The same datagrams to an async and a blocking advertiser of the same configuration.
fn same(cx: &mut Cx, ops: &[Op], dgs: &[Vec<u8>]) -> R {
    let (mut wa, mut ws) = (World::new(), World::new());
    for w in [&mut wa, &mut ws] {
        for (i, d) in dgs.iter().enumerate() {
            w.arrive(i as u64 * MS, peers()[i % 3], d.clone());
        }
    }
    let ra = wa.run(|| -> Result<_, String> {
        let mut a = build_async(ops)?;
        exec::finish(a.listen()).map_err(|e| format!("async listen: {e}"))
    })?;
    let rs = ws.run(|| -> Result<_, String> {
        let mut s = am::build_sync(ops);
        catch(|| s.listen_blocking()).map_err(|e| format!("listen: {e}"))
    })?;
    cx.steps((wa.recv_taken + ws.recv_taken) as u64);
    let (a, s) = (wa.sends(), ws.sends());
    ensure!(a == s, "replies of the async advertiser [{}], of the blocking one [{}]", show(&a), show(&s));
    let (ra, rs) = (code(ra), code(rs));
    ensure_eq!(ra, rs, "how listening ended, compared with the blocking advertiser");
    ensure!(ra.is_err(), "listening ended without an error");
    Ok(())
}
/// Every damaged datagram of the families between two queries.
fn c23_broken(cx: &mut Cx) -> R {
    let b = cx.pick(pool::adv_broken());
    let log = cx.flag();
    logcap::enable(log);
    cx.note(|| b.what.clone());
    cx.state(&b.data);
    let q = |id| Build::new(id, 0).q(&rd::n("host.local"), 1, 1).done();
    let dgs = if log { vec![b.data.clone(), q(1), b.data.clone()] } else { vec![q(1), b.data.clone(), b.data.clone(), q(2)] };
    same(cx, &config(), &dgs).map_err(|e| format!("{}: {e}", b.what))
}
/// Queries of every length, received in full.
fn c23_sizes(cx: &mut Cx) -> R {
    let (what, d) = pool::sized_query(cx);
    cx.note(|| what.clone());
    cx.state(&d);
    let q = |id| Build::new(id, 0).q(&rd::n("host.local"), 1, 1).done();
    same(cx, &config(), &[q(1), d.clone(), d[..12.max(d.len() / 2)].to_vec(), d, q(2)]).map_err(|e| format!("{what}: {e}"))
}
/// Every error code at every send and receive, and in between.
fn c23_errors(cx: &mut Cx) -> R {
    // every error but the ones that ask to try again
    let codes: Vec<i32> = (1..=133).filter(|c| ![libc::EAGAIN, libc::EINTR, libc::ETIMEDOUT].contains(c)).collect();
    let code = *cx.pick(&codes);
    let send = cx.flag();
    let pos = cx.choose(5);
    cx.note(|| format!("{} {pos} fails with {code}", if send { "send" } else { "receive" }));
    cx.state(&(code, send, pos));
    let q = Build::new(1, 0).q(&rd::n("host.local"), 1, 1).done();
    let (mut wa, mut ws) = (World::new(), World::new());
    for w in [&mut wa, &mut ws] {
        for i in 0..4 {
            if !send && pos as u64 == i {
                w.net.push(Arrival::error(i * MS, code));
            }
            w.arrive(i * MS, peers()[i as usize % 3], q.clone());
        }
        if send {
            w.send_err = Some((pos, code));
        } else if pos == 4 {
            w.net.push(Arrival::error(5 * MS, code));
        }
    }
    ended_alike(cx, &config(), wa, ws)
}
/// Thousands of packets in one run of the loop, at once or spread out; any source address.
fn c23_stream(cx: &mut Cx) -> R {
    let pool = packets();
    let n: usize = *cx.pick(&[33usize, 257, 1025, 4000, 66_000]);
    let gap = *cx.pick(&[0u64, US, 10 * MS, 1100 * MS]);
    let what = cx.choose(pool.len() + 2);
    if n > 60_000 && (what < pool.len() || ![0, 10 * MS].contains(&gap)) {
        return Ok(());
    }
    let from = |i: usize| match i % 4 {
        0 => peers()[0],
        1 => SocketAddr::from(([10, 1, (i % 7) as u8, 9], 1 + (i * 13 % 65535) as u16)),
        2 => SocketAddr::from(([127, 0, 0, 1], 1 + (i % 1024) as u16)),
        _ => SocketAddr::from(([(1 + i % 223) as u8, 1, 2, 3], 53)),
    };
    cx.note(|| format!("{n} packets every {} us, packets {what}", gap / US));
    cx.state(&(n, gap, what));
    let (mut wa, mut ws) = (World::new(), World::new());
    for w in [&mut wa, &mut ws] {
        w.horizon = 20_000 + 40 * n;
        for i in 0..n {
            let k = match what {
                k if k < pool.len() => k,
                k if k == pool.len() => (i * 7 + i / 5) % pool.len(),
                _ => if i % 11 == 10 { 0 } else { 5 + i % 6 },
            };
            w.arrive(i as u64 * gap, from(i), pool[k].1.clone());
        }
    }
    ended_alike(cx, &config(), wa, ws)
}
/// Serves what is in the two worlds and compares.
fn ended_alike(cx: &mut Cx, ops: &[Op], mut wa: World, mut ws: World) -> R {
    let ra = wa.run(|| -> Result<_, String> {
        let mut a = build_async(ops)?;
        exec::finish(a.listen()).map_err(|e| format!("async listen: {e}"))
    })?;
    let rs = ws.run(|| -> Result<_, String> {
        let mut s = am::build_sync(ops);
        catch(|| s.listen_blocking()).map_err(|e| format!("listen: {e}"))
    })?;
    cx.steps((wa.recv_taken + ws.recv_taken) as u64);
    let (a, s) = (wa.sends(), ws.sends());
    let at = (0..).find(|&i| a.get(i) != s.get(i) || i >= a.len()).unwrap();
    ensure!(a == s, "reply {at} of the async advertiser is [{}], of the blocking one [{}]", show(&a[at.min(a.len())..a.len().min(at + 1)].to_vec()), show(&s[at.min(s.len())..s.len().min(at + 1)].to_vec()));
    let (ra, rs) = (code(ra), code(rs));
    ensure_eq!(ra, rs, "how listening ended, compared with the blocking advertiser");
    ensure!(ra.is_err(), "listening ended without an error");
    Ok(())
}
/// One thing in the configuration takes every value of its family; everything is asked for.
fn c23_values(cx: &mut Cx) -> R {
    let ops = am::varied(cx, false);
    cx.note(|| am::show_ops(&ops));
    cx.state(&ops);
    let mut dgs = vec![];
    let mut names: Vec<Name> = vec![];
    for (n, _) in am::db(&ops) {
        if names.len() < 6 && !names.contains(&n) {
            dgs.push(Build::new(names.len() as u16, 0).q(&n, 255, 1).done());
            names.push(n);
        }
    }
    same(cx, &ops, &dgs).map_err(|e| format!("[{}]: {e}", am::show_ops(&ops)))
}
/// Listening dropped at every suspension (twice), started again; late polls in between.
fn c23_dropped(cx: &mut Cx) -> R {
    let ops = config();
    let pool = packets();
    let kinds = [0usize, 2, 3, 4, 6, 10, 12];
    let n = cx.by_tier(3, 4);
    let mut w = World::new();
    let mut arr = vec![];
    let mut t = 0;
    for i in 0..n {
        let k = kinds[cx.choose(kinds.len())];
        t += [0, 700 * MS][cx.choose(2)];
        cx.note(|| format!("{}: {}", t / MS, pool[k].0));
        arr.push((t, peers()[i % 3], k));
        w.arrive(t, peers()[i % 3], pool[k].1.clone());
    }
    let block = cx.choose(n + 1);
    if block > 0 {
        w.send_block = Some((block - 1, 100 * MS));
    }
    let mut a = w.run(|| build_async(&ops))?;
    let mut lost: Vec<usize> = vec![];
    for round in 0..cx.by_tier(1, 2) {
        let at = cx.choose(4);
        let after = cx.flag();
        let late = cx.flag();
        let mut plan = Plan { drop_at: Some((at, after)), late: late.then_some((at / 2, 300 * MS)), ..Plan::default() };
        cx.note(|| format!("listen, {plan:?}, not writable {:?}", w.send_block));
        let r = w.run(|| exec::drive(a.listen(), &mut plan)).map_err(|e| format!("round {round}: {e}"))?;
        if let End::Done(r) = r {
            ensure!(r.is_err(), "listening ended without an error");
            cx.cover("not dropped");
            break;
        }
        cx.cover("dropped");
        // only the reply to a datagram it had taken and was still at work on may be lost
        if w.recv_taken > 0 && !plan.reading {
            lost.push(w.recv_taken - 1);
        }
    }
    if !w.ended {
        let r = w.run(|| exec::finish(a.listen()))?;
        ensure_eq!(code(r), Err(Some(libc::EIO)), "how listening ended");
    }
    w.run(|| drop(a));
    cx.steps(w.recv_taken as u64);
    ensure!(w.recv_taken == n, "{} of {n} datagrams were taken from the socket", w.recv_taken);
    // expectation
    let mut fresh = am::build(&ops);
    let mut want: Vec<(usize, (SocketAddr, Vec<u8>))> = vec![];
    for (i, (_, a, k)) in arr.iter().enumerate() {
        let p = &pool[*k].1;
        if let Ok(Some(r)) = fresh.handle_packet(&p[..p.len().min(1500)]) {
            want.push((i, (*a, r.to_vec())));
        }
    }
    let got: Vec<(SocketAddr, Vec<u8>)> = w.sends().into_iter().map(|s| (s.1, s.2)).collect();
    let without = |out: &[usize]| want.iter().filter(|x| !out.contains(&x.0)).map(|x| x.1.clone()).collect::<Vec<_>>();
    let allowed: Vec<Vec<(SocketAddr, Vec<u8>)>> = (0..1 << lost.len()).map(|m: usize| without(&(0..lost.len()).filter(|k| m >> k & 1 == 1).map(|k| lost[k]).collect::<Vec<_>>())).collect();
    let want = without(&[]);
    ensure!(allowed.contains(&got), "replies sent: {}, expected: {}", got.iter().map(|x| util::show(&x.1)).collect::<Vec<_>>().join("; "), want.iter().map(|x| util::show(&x.1)).collect::<Vec<_>>().join("; "));
    cx.state(&(&got, w.now()));
    cx.outcome(&got.len());
    Ok(())
}
fn c23_setup(cx: &mut Cx) -> R {
    let ops = config();
    let bind_err = cx.flag();
    let mut w = World::new();
    if bind_err {
        w.bind_err = Some(libc::EADDRINUSE);
    }
    let v6 = cx.flag();
    let ip: IpAddr = if v6 { "fd00::9".parse().unwrap() } else { "192.0.2.1".parse().unwrap() };
    cx.step();
    cx.state(&(bind_err, v6));
    let a = w.run(|| catch(|| AsyncAdvertiser::new(Label::new("host"), ip)))?;
    if bind_err {
        let e = match a {
            Err(e) => e,
            Ok(mut a) => match w.run(|| exec::finish(a.listen()))? {
                Err(e) => e,
                Ok(()) => return Err("listening ended without an error".into()),
            },
        };
        ensure_eq!(e.raw_os_error(), Some(libc::EADDRINUSE), "error of an advertiser whose port is taken");
        return Ok(());
    }
    drop(a.map_err(|e| format!("creating an async advertiser failed: {e}"))?);
    // names and instances added between listening
    let mut w = World::new();
    let mut a = w.run(|| build_async(&ops[..1]))?;
    for k in 1..=ops.len() {
        let t = w.now();
        let q = Build::new(k as u16, 0).q(&rd::n("host.local"), 255, 1).q(&rd::n("in._svc._tcp.local"), 255, 1).q(&rd::n("big._svc._tcp.local"), 33, 1).done();
        w.arrive(t + MS, peers()[0], q.clone());
        let before = w.sends().len();
        // listen until idle
        let mut plan = Plan { drop_after: Some(t + MS), ..Plan::default() };
        let r = w.run(|| exec::drive(a.listen(), &mut plan))?;
        ensure!(matches!(r, End::Dropped), "listening ended by itself");
        let s = w.sends();
        ensure!(s.len() == before + 1, "{} replies to one query", s.len() - before);
        am::judge(&am::db(&ops[..k]), &q, Some(&s[before].2)).map_err(|e| format!("after adding {k}: {e}"))?;
        if let Some(op) = ops.get(k) {
            match op {
                Op::Name(l, ip) => a.add_name(Label::new(l), *ip),
                Op::Inst(i) => a.add_instance(i.instance(), i.details()),
            }
        }
    }
    w.run(|| drop(a));
    Ok(())
}

/// Network address of the socket with this index.
fn addr_of(sock: usize, port: u16) -> SocketAddr {
    SocketAddr::from(([10, 0, 0, 10 + sock as u8], port))
}
struct Netw<'c> {
    cx: &'c mut Cx,
    /// Sockets in the multicast group.
    members: usize,
    faults: usize,
}
/// Advertisers, a discoverer and a resolver as tasks of one executor; any order of polling.
fn c23_together(cx: &mut Cx) -> R {
    let cats: [Vec<Op>; 3] = [
        vec![nm(b"h1", "192.0.2.1"), nm(b"h1", "fd00::1"), inst(b"a", b"_svc", true, "h1.local", 80, &[b"k=v=w", b"flag"])],
        vec![nm(b"h2", "192.0.2.2"), inst(b"b", b"_svc", true, "h2.local", 81, &[]), inst(b"a", b"_other", false, "H2.local", 65535, &[b"x=\xff\x00"])],
        vec![nm(b"h3", "fd00::3"), inst(b"Some. thing", b"_svc", true, "h3.local", 0, &[b"z"])],
    ];
    let picks: [&[usize]; 4] = [&[0], &[0, 1], &[1, 2], &[0, 1, 2]];
    let pick = picks[cx.choose(cx.by_tier(3, 4))];
    let insts: Vec<Inst> = pick.iter().flat_map(|&i| cats[i].iter().filter_map(|o| if let Op::Inst(x) = o { Some(x.clone()) } else { None })).collect();
    let hosts: Vec<(Name, BTreeSet<IpAddr>)> = {
        let mut v: Vec<(Name, BTreeSet<IpAddr>)> = vec![];
        for &i in pick {
            for o in &cats[i] {
                if let Op::Name(l, ip) = o {
                    let n = vec![l.clone(), b"local".to_vec()];
                    match v.iter_mut().find(|h| h.0 == n) {
                        Some(h) => {
                            h.1.insert(*ip);
                        }
                        None => v.push((n, [*ip].into())),
                    }
                }
            }
        }
        v
    };
    cx.note(|| format!("advertisers {pick:?}"));
    let n = pick.len();
    let net = RefCell::new(Netw { cx, members: n, faults: 0 });
    let mut w = World::new();
    w.responder = Some(Box::new(|net_w, sock, local, to, data| {
        let mut g = net.borrow_mut();
        let from = addr_of(sock, local.port());
        let targets: Vec<usize> = if to.ip().is_multicast() {
            if to.to_string() == "224.0.0.251:5353" {
                (0..g.members).collect()
            } else {
                vec![]
            }
        } else {
            match to {
                SocketAddr::V4(a) if a.ip().octets()[..3] == [10, 0, 0] => vec![a.ip().octets()[3] as usize - 10],
                _ => vec![],
            }
        };
        for k in targets {
            // usual: after one millisecond; deviations: lost, twice, slow
            let f = g.cx.dev(4);
            if f != 0 {
                g.faults += 1;
            }
            g.cx.note(|| format!("{}us {from} -> {k}: {}", net_w.now / US, ["ok", "lost", "twice", "slow"][f]));
            let at = net_w.now + MS + if f == 3 { 120 * MS } else { 0 };
            let copies = [1, 0, 2, 1][f];
            for _ in 0..copies {
                net_w.push(Arrival { sock: Some(k), ..Arrival::new(at, from, data.to_vec()) });
            }
        }
    }));
    let found: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);
    let details: RefCell<Vec<(usize, Result<(Name, u16, Vec<(String, String, Option<Vec<u8>>)>), String>)>> = RefCell::new(vec![]);
    let addrs: RefCell<Vec<Result<Vec<IpAddr>, String>>> = RefCell::new(vec![]);
    let problem: RefCell<Option<String>> = RefCell::new(None);
    let advs: Vec<RefCell<AsyncAdvertiser>> = w.run(|| pick.iter().map(|&i| build_async(&cats[i]).map(RefCell::new)).collect::<Result<_, String>>())?;
    let r = w.run(|| -> Result<u64, String> {
        let mut t = Tasks::new();
        for a in &advs {
            let problem = &problem;
            t.spawn(async move {
                let r = a.borrow_mut().listen().await;
                *problem.borrow_mut() = Some(format!("an advertiser stopped listening: {r:?}"));
            });
        }
        t.spawn(async {
            let mut d = match AsyncDiscoverer::new_multicast_v4().await {
                Ok(d) => d,
                Err(e) => {
                    *problem.borrow_mut() = Some(format!("creating a discoverer failed: {e}"));
                    return;
                }
            };
            let s = Service::new(Label::new("_svc"), ServiceTransport::TCP);
            if let Err(e) = d
                .discover_instances(&s, |i: &ServiceInstance| {
                    found.lock().unwrap().push(i.instance_name().as_bytes().to_vec());
                    ControlFlow::Continue(())
                })
                .await
            {
                *problem.borrow_mut() = Some(format!("discovery failed: {e}"));
            }
            for (k, i) in insts.iter().enumerate() {
                let r = d.load_instance_details(&i.instance()).await;
                details.borrow_mut().push((
                    k,
                    r.map(|x| {
                        let mut t: Vec<_> = x
                            .txt_records()
                            .iter()
                            .map(|(k, v)| {
                                (
                                    k.to_ascii_lowercase(),
                                    k.to_string(),
                                    match v {
                                        TxtRecordValue::NoValue => None,
                                        TxtRecordValue::Value(v) => Some(v.to_vec()),
                                    },
                                )
                            })
                            .collect();
                        t.sort();
                        (conv::name(x.host()), x.port(), t)
                    })
                    .map_err(|e| e.to_string()),
                ));
            }
        });
        t.spawn(async {
            let mut r = match AsyncResolver::new_multicast_v4().await {
                Ok(r) => r,
                Err(e) => {
                    *problem.borrow_mut() = Some(format!("creating a resolver failed: {e}"));
                    return;
                }
            };
            for (h, _) in &hosts {
                let g = r.resolve_domain(&conv::dn(h)).await.map(|i| i.collect::<Vec<_>>()).map_err(|e| e.to_string());
                addrs.borrow_mut().push(g);
            }
        });
        t.run(n, &mut |k| {
            let mut g = net.borrow_mut();
            g.cx.dev(k)
        })
    });
    w.run(|| drop(advs));
    drop(w);
    let g = net.into_inner();
    g.cx.steps(r?);
    if let Some(p) = problem.into_inner() {
        return Err(p);
    }
    let found = found.into_inner().unwrap();
    let set: BTreeSet<Vec<u8>> = found.iter().cloned().collect();
    ensure!(set.len() == found.len(), "an instance was reported twice");
    let want: BTreeSet<Vec<u8>> = insts.iter().filter(|i| i.svc == b"_svc").map(|i| i.inst.clone()).collect();
    ensure_eq!(set, want, "instances found");
    for (k, r) in details.into_inner() {
        let i = &insts[k];
        match r {
            Ok(x) => ensure_eq!(x, (i.host.clone(), i.port, pool::txt_model(&i.txt)), "details of an instance"),
            Err(e) => return Err(format!("loading details failed: {e}")),
        }
    }
    let lossy = g.faults;
    for ((h, ips), r) in hosts.iter().zip(addrs.into_inner()) {
        match r {
            Ok(v) => ensure!(v.iter().copied().collect::<BTreeSet<_>>() == *ips && v.len() == ips.len(), "resolving {} gives {v:?}, advertised are {ips:?}", rd::show_name(h)),
            Err(e) => ensure!(lossy > 0, "resolving {} failed: {e}", rd::show_name(h)),
        }
    }
    g.cx.state(&(pick, &found, lossy));
    g.cx.outcome(&(pick, &found));
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C23",
        rule: "The real async advertiser (on a stand-in async-io whose readiness follows a virtual clock) and the real blocking one serve the same datagrams and socket errors; replies, destinations, order, times, socket setup and the final error must be equal. Listening is dropped at every suspension and restarted; several advertisers and clients run as tasks under every order of polling within a deviation bound.",
        assumptions: &["async-io is replaced by a stand-in with its interface; its reactor thread is not part of the check", "a reply that could not be sent yet when listening is dropped may be lost"],
        scenarios: vec![
            Scenario { name: "loop", f: c23_loop, dev: (2, 3), bounds: "3 (4) datagrams from a pool of 13 from 3 peers, up to 2 (3) of: gap, logging, receive error, send error or unwritable socket at any position" },
            Scenario { name: "broken", f: c23_broken, dev: (0, 0), bounds: "about 10000 damaged datagrams around queries" },
            Scenario { name: "sizes", f: c23_sizes, dev: (0, 0), bounds: "queries of every length from 41 to 1500 bytes in 3 styles (question first, or last behind long or short ones), cut and intact, between two queries" },
            Scenario { name: "errors", f: c23_errors, dev: (0, 0), bounds: "130 error codes at every send or receive of 4" },
            Scenario { name: "stream", f: c23_stream, dev: (0, 0), bounds: "33 to 4000 packets (each of 13 kinds, all mixed, or few with an answer) at 4 rates, and 66000 mixed ones at 2 rates, from thousands of addresses" },
            Scenario { name: "values", f: c23_values, dev: (0, 0), bounds: "configurations in which one thing ranges over its family (addresses, labels, SRV targets, ports, metadata, numbers of entries); up to 6 names asked for" },
            Scenario { name: "dropped", f: c23_dropped, dev: (0, 0), bounds: "3 (4) datagrams of 7 kinds in every burst pattern, dropped at each of 4 suspensions before or after its event, once (twice), late poll, unwritable socket at each send" },
            Scenario { name: "setup", f: c23_setup, dev: (0, 0), bounds: "bind error, both address families, configuration growing between listening" },
            Scenario { name: "together", f: c23_together, dev: (2, 3), bounds: "3 (4) sets of 1-3 advertisers with a discoverer and a resolver; up to 2 (3) deviations from round-robin polling or datagrams lost, duplicated or slow" },
        ],
    }]
}
