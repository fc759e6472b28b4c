//! C22: the async discoverer next to the blocking one.
use crate::conv;
use crate::exec::{self, End, Plan};
use crate::pool::{self, Det, Dg};
use std::cell::RefCell;
use std::io::ErrorKind;
use std::net::SocketAddr;
use std::ops::ControlFlow;
use std::sync::Mutex;
use uwuhi::name::Label;
use uwuhi::service::discovery::SyncDiscoverer;
use uwuhi::service::{InstanceDetails, Service, ServiceInstance, ServiceTransport, TxtRecordValue};
use uwuhi_async::service::discovery::AsyncDiscoverer;
use vcore::explore::{catch, Property, Scenario};
use vcore::refdns::{self as rd, Build, Name};
use vcore::world::{self, Arrival, Ev, World, MS};
use vcore::{ensure, ensure_eq, logcap, util, Cx};

type R = Result<(), String>;
const US: u64 = 1000;
type Entry = (String, String, Option<Vec<u8>>);
type Err = (ErrorKind, Option<i32>);

#[derive(Clone, Debug)]
pub enum Op {
    /// Service label, transport, callback that stops.
    Inst(Vec<u8>, bool, usize),
    Types(usize),
    Details(Vec<u8>, Vec<u8>, bool),
}
/// What an operation did.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Did {
    calls: Vec<(u64, Vec<Vec<u8>>)>,
    details: Option<(Name, u16, Vec<Entry>)>,
    err: Option<Err>,
    end: u64,
}
fn svc(name: &[u8], tcp: bool) -> Service {
    Service::new(Label::new(name), if tcp { ServiceTransport::TCP } else { ServiceTransport::Other })
}
fn tr(t: ServiceTransport) -> Vec<u8> {
    if t == ServiceTransport::TCP {
        b"_tcp".to_vec()
    } else {
        b"_udp".to_vec()
    }
}
fn parts_i(i: &ServiceInstance) -> Vec<Vec<u8>> {
    vec![i.instance_name().as_bytes().to_vec(), i.service_name().as_bytes().to_vec(), tr(i.service_transport())]
}
fn parts_s(s: &Service) -> Vec<Vec<u8>> {
    vec![s.name().as_bytes().to_vec(), tr(s.transport())]
}
fn show_det(d: &InstanceDetails) -> (Name, u16, Vec<Entry>) {
    let mut v: Vec<Entry> = d
        .txt_records()
        .iter()
        .map(|(k, v)| {
            (
                k.to_ascii_lowercase(),
                k.to_string(),
                match v {
                    TxtRecordValue::NoValue => None,
                    TxtRecordValue::Value(v) => Some(v.to_vec()),
                },
            )
        })
        .collect();
    v.sort();
    (conv::name(d.host()), d.port(), v)
}
fn err(e: std::io::Error) -> Err {
    (e.kind(), e.raw_os_error())
}
struct Calls {
    v: Vec<(u64, Vec<Vec<u8>>)>,
    stop: usize,
    stopped: bool,
    late: bool,
}
impl Calls {
    fn new(stop: usize) -> Self {
        Calls { v: vec![], stop, stopped: false, late: false }
    }
    fn on(&mut self, l: Vec<Vec<u8>>) -> ControlFlow<()> {
        self.late |= self.stopped;
        self.v.push((exec::now(), l));
        if self.v.len() == self.stop {
            self.stopped = true;
            return ControlFlow::Break(());
        }
        ControlFlow::Continue(())
    }
}
fn sync_op(d: &mut SyncDiscoverer, op: &Op) -> Result<Did, String> {
    let mut c = Calls::new(match op {
        Op::Inst(_, _, s) | Op::Types(s) => *s,
        _ => 0,
    });
    let mut details = None;
    let e = catch(|| match op {
        Op::Inst(s, t, _) => d.discover_instances(&svc(s, *t), |i: &ServiceInstance| c.on(parts_i(i))),
        Op::Types(_) => d.discover_service_types(|s: &Service| c.on(parts_s(s))),
        Op::Details(i, s, t) => d.load_instance_details(&ServiceInstance::from_service(Label::new(i), svc(s, *t))).map(|x| details = Some(show_det(&x))),
    })?;
    ensure!(!c.late, "callback invoked again after it said stop");
    Ok(Did { calls: c.v, details, err: e.err().map(err), end: exec::now() })
}
fn async_op(d: &mut AsyncDiscoverer, op: &Op, plan: &mut Plan) -> Result<(End<()>, Did), String> {
    let c = Mutex::new(Calls::new(match op {
        Op::Inst(_, _, s) | Op::Types(s) => *s,
        _ => 0,
    }));
    let details = RefCell::new(None);
    let e = exec::drive(
        async {
            match op {
                Op::Inst(s, t, _) => d.discover_instances(&svc(s, *t), |i: &ServiceInstance| c.lock().unwrap().on(parts_i(i))).await,
                Op::Types(_) => d.discover_service_types(|s: &Service| c.lock().unwrap().on(parts_s(s))).await,
                Op::Details(i, s, t) => {
                    let r = d.load_instance_details(&ServiceInstance::from_service(Label::new(i), svc(s, *t))).await;
                    r.map(|x| *details.borrow_mut() = Some(show_det(&x)))
                }
            }
        },
        plan,
    )?;
    let c = c.into_inner().unwrap();
    ensure!(!c.late, "callback invoked again after it said stop");
    let (end, e) = match e {
        End::Done(r) => (End::Done(()), r.err().map(err)),
        End::Dropped => (End::Dropped, None),
    };
    Ok((end, Did { calls: c.v, details: details.into_inner(), err: e, end: exec::now() }))
}
type Sends = Vec<(u64, SocketAddr, Vec<u8>)>;
fn show(s: &Sends) -> String {
    s.iter().map(|(t, a, d)| format!("{}us to {a} {}", t / US, util::show(d))).collect::<Vec<_>>().join("; ")
}
fn show_calls(v: &[(u64, Vec<Vec<u8>>)]) -> String {
    v.iter().map(|(t, l)| format!("{}us {}", t / US, l.iter().map(|x| x.escape_ascii().to_string()).collect::<Vec<_>>().join("."))).collect::<Vec<_>>().join(", ")
}
fn compare(i: usize, a: &Did, s: &Did) -> R {
    ensure!(a.calls == s.calls, "operation {i}: callbacks of the async discoverer [{}], of the blocking one [{}]", show_calls(&a.calls), show_calls(&s.calls));
    ensure!(a.err == s.err, "operation {i}: the async discoverer returns error {:?}, the blocking one {:?}", a.err, s.err);
    ensure!(a.details == s.details, "operation {i}: the async discoverer returns {:?}, the blocking one {:?}", a.details, s.details);
    ensure!(a.end == s.end, "operation {i}: the async discoverer ends at {} us, the blocking one at {} us", a.end / US, s.end / US);
    Ok(())
}
fn compare_sends(a: &World, s: &World, from: usize) -> R {
    let (a, s) = (a.sends()[from..].to_vec(), s.sends());
    ensure!(a == s, "the async discoverer sends [{}], the blocking one [{}]", show(&a), show(&s));
    Ok(())
}
#[derive(Clone)]
struct Conf {
    server: SocketAddr,
    domain: Name,
    r: Option<u64>,
    d: Option<u64>,
}
fn conf(r: u64, d: u64) -> Conf {
    Conf { server: server(), domain: rd::n("local"), r: Some(r), d: Some(d) }
}
fn server() -> SocketAddr {
    "224.0.0.251:5353".parse().unwrap()
}
fn mk_async(c: &Conf) -> Result<AsyncDiscoverer, String> {
    let mut x = exec::finish(AsyncDiscoverer::new(c.server, conv::dn(&c.domain)))?.map_err(|e| format!("creating an async discoverer failed: {e}"))?;
    set_async(&mut x, c)?;
    Ok(x)
}
fn set_async(x: &mut AsyncDiscoverer, c: &Conf) -> R {
    if let Some(r) = c.r {
        x.set_retransmit_timeout(world::duration(r)).map_err(|e| format!("set_retransmit_timeout: {e}"))?;
    }
    if let Some(d) = c.d {
        x.set_discovery_timeout(world::duration(d)).map_err(|e| format!("set_discovery_timeout: {e}"))?;
    }
    Ok(())
}
fn mk_sync(c: &Conf) -> Result<SyncDiscoverer, String> {
    let mut x = SyncDiscoverer::new(c.server, conv::dn(&c.domain)).map_err(|e| format!("creating a discoverer failed: {e}"))?;
    set_sync(&mut x, c)?;
    Ok(x)
}
fn set_sync(x: &mut SyncDiscoverer, c: &Conf) -> R {
    if let Some(r) = c.r {
        x.set_retransmit_timeout(world::duration(r)).map_err(|e| format!("set_retransmit_timeout: {e}"))?;
    }
    if let Some(d) = c.d {
        x.set_discovery_timeout(world::duration(d)).map_err(|e| format!("set_discovery_timeout: {e}"))?;
    }
    Ok(())
}
/// Runs the operations on both in identical surroundings; `plan` applies to the async side's first.
fn both(cx: &mut Cx, c: &Conf, prep: impl Fn(&mut World), ops: &[Op], plan: &mut Plan) -> R {
    let mut wa = World::new();
    let mut ws = World::new();
    prep(&mut wa);
    prep(&mut ws);
    let mut a = vec![];
    wa.run(|| -> R {
        let mut x = mk_async(c)?;
        for (i, op) in ops.iter().enumerate() {
            let mut none = Plan::default();
            a.push(async_op(&mut x, op, if i == 0 { &mut *plan } else { &mut none })?.1);
        }
        Ok(())
    })?;
    let mut s = vec![];
    ws.run(|| -> R {
        let mut x = mk_sync(c)?;
        for op in ops {
            s.push(sync_op(&mut x, op)?);
        }
        Ok(())
    })?;
    cx.steps((wa.recv_taken + ws.recv_taken) as u64 + 2 * ops.len() as u64);
    cx.state(&(&a, wa.sends().len()));
    cx.outcome(&a);
    for i in 0..ops.len() {
        compare(i, &a[i], &s[i])?;
    }
    compare_sends(&wa, &ws, 0)
}
fn gap(cx: &mut Cx) -> u64 {
    [10 * MS, 0, 95 * MS, 120 * MS][cx.dev(4)]
}
fn diff(cx: &mut Cx, op: impl Fn(usize) -> Op, p: &[Dg], stops: usize) -> R {
    let n = cx.by_tier(3, 4);
    let stop = cx.choose(stops);
    let mut t = 0;
    let mut arr = vec![];
    logcap::enable(cx.dev(2) == 1);
    for i in 0..n {
        let k = cx.choose(p.len());
        t += gap(cx);
        let at = t + (i as u64 + 1) * US;
        cx.note(|| format!("{}us: {}", at / US, p[k].0));
        arr.push((at, pool::peers()[(i + k) % 3], k));
    }
    cx.note(|| format!("stop at callback {stop}"));
    both(cx, &conf(100 * MS, 450 * MS), |w| arr.iter().for_each(|(t, a, k)| w.arrive(*t, *a, p[*k].1.clone())), &[op(stop)], &mut Plan::default())
}
fn c22_instances(cx: &mut Cx) -> R {
    let p = pool::ptr_pool(&rd::n("_svc._tcp.local"), &pool::instance_targets("_svc._tcp.local"));
    diff(cx, |s| Op::Inst(b"_svc".to_vec(), true, s), &p, 4)
}
fn c22_types(cx: &mut Cx) -> R {
    let p = pool::ptr_pool(&rd::n("_services._dns-sd._udp.local"), &pool::service_targets());
    diff(cx, Op::Types, &p, 4)
}
fn c22_details(cx: &mut Cx) -> R {
    let p = pool::details_pool(&rd::n("inst._svc._tcp.local"));
    diff(cx, |_| Op::Details(b"inst".to_vec(), b"_svc".to_vec(), true), &p, 1)
}
fn case(cx: &mut Cx, c: &pool::Case, op: Op) -> R {
    cx.note(|| format!("{op:?}: {}", c.what));
    cx.state(&(&c.owner, &c.dgs));
    both(cx, &Conf { domain: c.domain.clone(), ..conf(100 * MS, 250 * MS) }, |w| c.dgs.iter().enumerate().for_each(|(i, d)| w.arrive((i as u64 + 1) * MS, pool::peers()[i % 3], d.clone())), &[op], &mut Plan::default()).map_err(|e| format!("{}: {e}", c.what))
}
fn one(cx: &mut Cx, broken: bool) -> R {
    let (c, op) = match cx.choose(3) {
        0 => {
            let c = if broken { pool::ptr_broken(cx, true) } else { pool::ptr_values(cx, true) };
            let op = Op::Inst(c.svc.clone(), c.tcp, 0);
            (c, op)
        }
        1 => (if broken { pool::ptr_broken(cx, false) } else { pool::ptr_values(cx, false) }, Op::Types(0)),
        _ => {
            let c = if broken { pool::det_broken(cx) } else { pool::det_values(cx) };
            let op = Op::Details(c.inst.clone(), c.svc.clone(), c.tcp);
            (c, op)
        }
    };
    case(cx, &c, op)
}
fn c22_values(cx: &mut Cx) -> R {
    one(cx, false)
}
fn c22_crowd(cx: &mut Cx) -> R {
    let inst = cx.flag();
    let c = pool::crowd(cx, inst);
    let op = if inst { Op::Inst(c.svc.clone(), c.tcp, 0) } else { Op::Types(0) };
    cx.note(|| format!("{op:?}: {}", c.what));
    cx.state(&(&c.owner, &c.dgs));
    both(cx, &conf(100 * MS, 450 * MS), |w| c.dgs.iter().enumerate().for_each(|(i, d)| w.arrive((i as u64 + 1) * MS / 4, pool::peers()[i % 3], d.clone())), &[op], &mut Plan::default())
}
fn c22_broken(cx: &mut Cx) -> R {
    one(cx, true)
}
/// One instance or service, another one that could be taken for it, and the first again; every reply
/// holds both.
fn c22_kin(cx: &mut Cx) -> R {
    let inst = cx.flag();
    let (a, b) = pool::pick_kin(cx, inst);
    let swap = cx.flag();
    let names = [pool::who_name(&a), pool::who_name(&b)];
    let mut m = Build::new(12345, 0x8400);
    for k in if swap { [1, 0] } else { [0, 1] } {
        let n = &names[k];
        m = if inst {
            m.ans(n, &rd::Data::Srv(0, 0, 100 + k as u16, rd::n(["h1.local", "h2.local"][k]))).ans(n, &pool::txt(&[[&b"k=v"[..], b"i="][k]]))
        } else {
            let mut t = vec![vec![b'p' + k as u8]];
            t.extend(n.clone());
            m.ans(n, &rd::Data::Name(rd::PTR, t)).ans(&rd::n("_services._dns-sd._udp.local"), &rd::Data::Name(rd::PTR, n.clone()))
        };
    }
    let m = m.done();
    let op = |w: &pool::Who| if inst { Op::Details(w.0.clone(), w.1.clone(), w.2) } else { Op::Inst(w.1.clone(), w.2, 0) };
    cx.note(|| format!("{} and {}", rd::show_name(&names[0]), rd::show_name(&names[1])));
    let mut ops = vec![op(&a), op(&b), op(&a)];
    if !inst {
        ops.push(Op::Types(0));
    }
    ops.push(op(&b));
    both(cx, &conf(100 * MS, 150 * MS), |w| (0..ops.len() as u64).for_each(|o| w.arrive(o * if inst { MS } else { 150 * MS } + MS, pool::peers()[o as usize % 3], m.clone())), &ops, &mut Plan::default())
}
fn kinds() -> [Op; 3] {
    [Op::Inst(b"_svc".to_vec(), true, 0), Op::Types(0), Op::Details(b"inst".to_vec(), b"_svc".to_vec(), true)]
}
/// A small pool of datagrams for operation `k`: complete, other half, foreign, damaged.
fn small_pool(k: usize) -> Vec<Dg> {
    match k {
        0 => {
            let p = pool::ptr_pool(&rd::n("_svc._tcp.local"), &pool::instance_targets("_svc._tcp.local"));
            vec![p[0].clone(), p[1].clone(), p[4].clone(), p[8].clone()]
        }
        1 => {
            let p = pool::ptr_pool(&rd::n("_services._dns-sd._udp.local"), &pool::service_targets());
            vec![p[0].clone(), p[1].clone(), p[4].clone(), p[8].clone()]
        }
        _ => {
            let p = pool::details_pool(&rd::n("inst._svc._tcp.local"));
            vec![p[0].clone(), p[2].clone(), p[6].clone(), p[11].clone()]
        }
    }
}
/// All timeout settings and arrival patterns of the grid.
fn c22_timing(cx: &mut Cx) -> R {
    let r = *cx.pick(&[30 * MS, 100 * MS, 300 * MS, 1000 * MS, 7000 * MS]);
    let d = *cx.pick(&[0, 10 * MS, 250 * MS, 1030 * MS, 2970 * MS]);
    let k = cx.choose(3);
    let n = cx.by_tier(3, 4);
    let gaps = [MS, r / 2, r - MS / 2, r + MS / 2, (d / 2).max(MS), d.saturating_sub(MS), d + MS];
    let p = small_pool(k);
    let mut t = 0;
    let mut arr = vec![];
    for i in 0..n {
        let g = cx.choose(gaps.len() + 1);
        if g == gaps.len() {
            break;
        }
        t += gaps[g] + US;
        // datagrams that do not complete the operation
        arr.push((t, p[if k == 2 { 1 + i % 3 } else { i % 4 }].1.clone()));
    }
    cx.note(|| format!("retransmit {} ms, limit {} ms, operation {k}, datagrams at {:?} us", r / MS, d / MS, arr.iter().map(|a| a.0 / US).collect::<Vec<_>>()));
    both(cx, &conf(r, d), |w| arr.iter().for_each(|(t, m)| w.arrive(*t, pool::peers()[0], m.clone())), &[kinds()[k].clone()], &mut Plan::default())
}
/// Every error code at every send and receive.
fn c22_errors(cx: &mut Cx) -> R {
    // every error but the ones that stand for a timeout or ask to try again
    let codes: Vec<i32> = (1..=133).filter(|c| ![libc::EAGAIN, libc::EINTR, libc::ETIMEDOUT].contains(c)).collect();
    let code = *cx.pick(&codes);
    let k = cx.choose(3);
    let send = cx.flag();
    let pos = cx.choose(5);
    cx.note(|| format!("operation {k}, {} {pos} fails with {code}", if send { "send" } else { "receive" }));
    let p = small_pool(k);
    both(
        cx,
        &conf(100 * MS, 250 * MS),
        |w| {
            if send {
                w.send_err = Some((pos, code));
            } else {
                w.net.push(Arrival::error([0, 10 * MS, 25 * MS, 130 * MS, 255 * MS][pos], code));
            }
            w.arrive(20 * MS, pool::peers()[0], p[2].1.clone());
            w.arrive(30 * MS, pool::peers()[1], p[1].1.clone());
            w.arrive(255 * MS + US, pool::peers()[1], p[0].1.clone());
        },
        &[kinds()[k].clone(), kinds()[k].clone()],
        &mut Plan::default(),
    )
}
/// Settings from a millisecond to a lifetime, in silence or with datagrams now and then or all the time.
fn c22_spans(cx: &mut Cx) -> R {
    const S: u64 = 1000 * MS;
    let r = *cx.pick(&[MS, 3 * MS, 33 * MS, 100 * MS, 300 * MS, 999 * MS, S, 2 * S, 5 * S, 10 * S, 30 * S, 60 * S, 61 * S, 3600 * S, 86_400 * S, 4_320_000 * S, 2_240_000_000 * S]);
    let d = *cx.pick(&[0, 1, 2, 5, 10, 50, 99, 100, 101, 299, 300, 301, 500, 999, 1000, 1001, 1999, 2000, 2500, 4999, 5000, 5001, 9999, 10_000, 10_500, 29_999, 30_000, 31_000, 59_999, 60_000, 61_000, 66_000, 120_000, 300_000, 600_000, 3_600_000, 7_200_000, 86_400_000, 604_800_000, 2_592_000_000, 4_320_000_000, 34_560_000_000, 2_240_000_000_000, 4_418_000_000_000u64]) * MS + 500 * US;
    let k = cx.choose(3);
    let traffic = cx.choose(4);
    if d / r > 70_000 || d / r > 1000 && (r > MS || traffic > 1 || ![5_000, 10_000, 66_000].contains(&(d / MS))) {
        return Ok(());
    }
    let every = [u64::MAX, r / 2 + US, r + MS / 2, d / 7 / US * US + 7 * US][traffic];
    let m = [vec![0xff; 5], small_pool(k)[2].1.clone()];
    let mut arr = vec![];
    let mut t = 0;
    while every < u64::MAX && t + every < d + 2 * r && (arr.len() < 1000 || d / r > 1000) {
        t += every;
        let at = t + (arr.len() as u64 % 100 + 1) * US;
        if at == d {
            continue; // not at the instant the limit passes
        }
        arr.push(at);
    }
    cx.note(|| format!("operation {k}, retransmit {} ms, limit {} us, {} datagrams, one every {} us", r / MS, d / US, arr.len(), every / US));
    both(
        cx,
        &conf(r, d),
        |w| {
            w.horizon = 100_000 + 150 * (d / r) as usize;
            arr.iter().enumerate().for_each(|(i, t)| w.arrive(*t, pool::peers()[0], m[i % 2].clone()));
        },
        &[kinds()[k].clone()],
        &mut Plan::default(),
    )
}
/// Two operations on one discoverer with replies to any of them at any time, and one disturbance:
/// socket errors, sockets not writable, spurious wake-ups.
fn c22_history(cx: &mut Cx) -> R {
    let (r, d) = (100 * MS, 250 * MS);
    let n = cx.by_tier(2, 3);
    let mut arr = vec![];
    let mut t = 0;
    for i in 0..n {
        t += [2 * MS, 60 * MS, 130 * MS, 180 * MS][cx.choose(4)];
        let k = cx.choose(3);
        let p = small_pool(k);
        let m = &p[cx.choose(cx.by_tier(2, 4))];
        cx.note(|| format!("{}us: for operation kind {k}: {}", (t + i as u64 * US) / US, m.0));
        arr.push((t + i as u64 * US, m.1.clone()));
    }
    let ops = [kinds()[cx.choose(3)].clone(), kinds()[cx.choose(3)].clone()];
    let mut plan = Plan::default();
    let (mut send_err, mut recv_err, mut block) = (None, None, None);
    match cx.choose(5) {
        0 => {}
        1 => send_err = Some((cx.choose(4), *cx.pick(&[libc::ENETUNREACH, libc::EPERM]))),
        2 => recv_err = Some(([0, US, 2 * MS + US, 61 * MS, 102 * MS, 150 * MS, 249 * MS, 260 * MS][cx.choose(8)], *cx.pick(&[libc::ECONNREFUSED, libc::ENETDOWN]))),
        3 => block = Some((cx.choose(4), *cx.pick(&[MS, 99 * MS, 151 * MS, 251 * MS]))),
        _ => plan.spurious = Some(cx.choose(5)),
    }
    cx.note(|| format!("operations {ops:?}, send error {send_err:?}, receive error {recv_err:?}, not writable {block:?}, {plan:?}"));
    both(
        cx,
        &conf(r, d),
        |w| {
            arr.iter().for_each(|(t, m)| w.arrive(*t, pool::peers()[0], m.clone()));
            w.send_err = send_err;
            w.send_block = block;
            if let Some((t, e)) = recv_err {
                w.net.push(Arrival::error(t, e));
            }
        },
        &ops,
        &mut plan,
    )
}
/// An operation dropped at every suspension; the next one is like a fresh blocking discoverer's.
fn c22_dropped(cx: &mut Cx) -> R {
    let (r, d) = (100 * MS, 250 * MS);
    let c = conf(r, d);
    let mut w = World::new();
    let mut t = 0;
    for i in 0..cx.by_tier(2, 3) {
        t += [2 * MS, 95 * MS, 130 * MS][cx.choose(3)];
        let k = cx.choose(3);
        let m = &small_pool(k)[cx.choose(3)];
        cx.note(|| format!("{}us: for operation kind {k}: {}", (t + i as u64 * US) / US, m.0));
        w.arrive(t + i as u64 * US, pool::peers()[0], m.1.clone());
    }
    if cx.flag() {
        w.send_block = Some((cx.choose(3), 50 * MS));
    }
    let (i, j) = (cx.choose(3), cx.choose(3));
    let mut plan = Plan { drop_at: Some((cx.choose(5), cx.flag())), ..Plan::default() };
    cx.note(|| format!("operation kind {i}, {plan:?}, then kind {j}, not writable {:?}", w.send_block));
    let mut x = w.run(|| mk_async(&c))?;
    let before_t = w.now();
    let queue: Vec<Arrival> = w.net.queue.iter().cloned().collect();
    let (e, did) = w.run(|| async_op(&mut x, &kinds()[i], &mut plan))?;
    if e != End::Dropped {
        cx.cover("not dropped");
        w.run(|| drop(x));
        return Ok(());
    }
    cx.cover("dropped");
    // up to there it did what a blocking one would have done by then, apart from what it was
    // waiting for
    let _ = (before_t, queue);
    ensure!(did.err.is_none() && did.details.is_none(), "harness: a dropped operation has no result");
    let mut s = World::new();
    s.net.now = w.net.now;
    s.net.queue = w.net.queue.clone();
    if let Some(u) = w.send_blocked() {
        s.send_block = Some((0, u));
    } else if let Some((n, d)) = w.send_block {
        s.send_block = n.checked_sub(w.send_calls).map(|n| (n, d));
    }
    let before = w.sends().len();
    let (_, a) = w.run(|| async_op(&mut x, &kinds()[j], &mut Plan::default()))?;
    let b = s.run(|| -> Result<Did, String> { sync_op(&mut mk_sync(&c)?, &kinds()[j]) })?;
    cx.steps(2);
    cx.state(&(&a, w.sends().len()));
    cx.outcome(&a);
    w.run(|| drop(x));
    compare(1, &a, &b).map_err(|e| format!("after a dropped operation: {e}"))?;
    compare_sends(&w, &s, before).map_err(|e| format!("after a dropped operation: {e}"))
}
/// Polled later than its events: datagrams are not lost, the end comes at the first poll after the
/// limit at the latest.
fn c22_late(cx: &mut Cx) -> R {
    let (r, d) = (100 * MS, 250 * MS);
    let k = cx.choose(3);
    let p = small_pool(k);
    let mut w = World::new();
    let mut arr = vec![];
    let mut t = 0;
    for i in 0..cx.by_tier(2, 3) {
        t += [2 * MS, 95 * MS, 130 * MS][cx.choose(3)];
        let m = &p[cx.choose(4)];
        cx.note(|| format!("{}us: {}", (t + i as u64 * US) / US, m.0));
        arr.push((t + i as u64 * US, m.1.clone()));
        w.arrive(t + i as u64 * US, pool::peers()[0], m.1.clone());
    }
    let late = (cx.choose(4), *cx.pick(&[20 * MS, 90 * MS, 130 * MS, 400 * MS]));
    let mut plan = Plan { late: Some(late), ..Plan::default() };
    cx.note(|| format!("operation kind {k}, {plan:?}"));
    let op = &kinds()[k];
    let mut x = w.run(|| mk_async(&conf(r, d)))?;
    let (_, did) = w.run(|| async_op(&mut x, op, &mut plan))?;
    cx.steps(w.recv_taken as u64 + 1);
    w.run(|| drop(x));
    ensure!(did.end <= d + late.1, "the operation ended {} ms after its limit, though no poll came later than {} ms", (did.end - d) / MS, late.1 / MS);
    // every datagram that was taken from the socket counts, in order
    let taken = &arr[..w.recv_taken];
    let owner = [rd::n("_svc._tcp.local"), rd::n("_services._dns-sd._udp.local"), rd::n("inst._svc._tcp.local")][k].clone();
    if k < 2 {
        let mut v: Vec<Vec<Vec<u8>>> = vec![];
        for (_, m) in taken {
            for n in pool::ptr_targets(m, &owner) {
                let l = if k == 0 {
                    pool::instance_of(&n).map(|(i, s, t)| vec![i, s, if t { b"_tcp".to_vec() } else { b"_udp".to_vec() }])
                } else {
                    pool::service_of(&n).map(|(s, t)| vec![s, if t { b"_tcp".to_vec() } else { b"_udp".to_vec() }])
                };
                if let Some(l) = l {
                    if !v.contains(&l) {
                        v.push(l);
                    }
                }
            }
        }
        let got: Vec<_> = did.calls.iter().map(|c| c.1.clone()).collect();
        ensure_eq!(got, v, "callbacks for the datagrams taken from the socket");
        ensure_eq!(did.err, None, "error of the operation");
    } else {
        let srv = taken.iter().flat_map(|a| pool::details_of(&a.1, &owner)).find_map(|x| if let Det::Srv(h, p) = x { Some((h, p)) } else { None });
        match (&srv, &did.details) {
            (Some((h, p)), Some(x)) => ensure!(x.0 == *h && x.1 == *p, "returned {x:?}, the first SRV record says {h:?} {p}"),
            (Some(s), None) => return Err(format!("error {:?} although the SRV record {s:?} was received", did.err)),
            (None, Some(x)) => return Err(format!("returned {x:?} although no SRV record was received")),
            (None, None) => ensure_eq!(did.err.map(|e| e.0), Some(ErrorKind::TimedOut), "error without an SRV record"),
        }
    }
    let s = w.sends();
    ensure!(!s.is_empty() && s[0].0 == 0, "no query at the start");
    for x in s.windows(2) {
        ensure!(x[1].0 - x[0].0 >= r, "a query was repeated {} ms after the one before, the retransmit timeout is {} ms", (x[1].0 - x[0].0) / MS, r / MS);
    }
    cx.state(&(&did, s.len()));
    cx.outcome(&did);
    Ok(())
}
/// Servers, domains, labels, and settings changed between operations.
fn c22_settings(cx: &mut Cx) -> R {
    let servers: [SocketAddr; 5] = [server(), "[ff02::fb]:5353".parse().unwrap(), "192.0.2.53:53".parse().unwrap(), "[2001:db8::1]:1053".parse().unwrap(), "[fe80::9%2]:5353".parse().unwrap()];
    let srv = *cx.pick(&servers);
    let domain = rd::n(*cx.pick(&["local", "example.org", "", "a.b.c.d.e"]));
    logcap::enable(cx.flag());
    let c = Conf { server: srv, domain, r: None, d: None };
    let (mut wa, mut ws) = (World::new(), World::new());
    let mut a = wa.run(|| mk_async(&c))?;
    let mut s = ws.run(|| mk_sync(&c))?;
    let binds = |w: &World| w.log.iter().filter(|e| matches!(e, Ev::Bind { .. })).cloned().collect::<Vec<_>>();
    ensure_eq!(binds(&wa), binds(&ws), "socket of the async discoverer, compared with the blocking one's");
    for i in 0..2 {
        let mut n = c.clone();
        match cx.choose(4) {
            0 => {}
            1 => n.r = Some(*cx.pick(&[50 * MS, 700 * MS])),
            2 => n.d = Some(*cx.pick(&[120 * MS, 1730 * MS])),
            _ => {
                n.r = Some(90 * MS);
                n.d = Some(400 * MS);
            }
        }
        wa.run(|| set_async(&mut a, &n))?;
        ws.run(|| set_sync(&mut s, &n))?;
        let tcp = cx.flag();
        let (sl, il): (Vec<u8>, Vec<u8>) = if cx.flag() { ([b"_".to_vec(), vec![b'S'; 62]].concat(), vec![0xff; 63]) } else { (b"_s".to_vec(), b"My.Inst".to_vec()) };
        let op = match cx.choose(3) {
            0 => Op::Inst(sl, tcp, 0),
            1 => Op::Types(0),
            _ => Op::Details(il, sl, tcp),
        };
        let x = wa.run(|| async_op(&mut a, &op, &mut Plan::default()))?.1;
        let y = ws.run(|| sync_op(&mut s, &op))?;
        cx.step();
        cx.state(&(&x, wa.sends().len()));
        compare(i, &x, &y)?;
        compare_sends(&wa, &ws, 0)?;
    }
    wa.run(|| drop(a));
    ws.run(|| drop(s));
    // the multicast constructors
    let (mut wa, mut ws) = (World::new(), World::new());
    let x = wa.run(|| {
        let mut a = exec::finish(AsyncDiscoverer::new_multicast_v4())?.map_err(|e| format!("new_multicast_v4: {e}"))?;
        async_op(&mut a, &Op::Types(0), &mut Plan::default())
    })?;
    let y = ws.run(|| sync_op(&mut SyncDiscoverer::new_multicast_v4().map_err(|e| format!("new_multicast_v4: {e}"))?, &Op::Types(0)))?;
    compare(0, &x.1, &y)?;
    compare_sends(&wa, &ws, 0)
}
/// Query names around the limit of 255 bytes.
fn c22_long(cx: &mut Cx) -> R {
    let k = cx.choose(3);
    let total = *cx.pick(&(40..=2100).chain([5000, 70000]).chain(65_530..65_800).collect::<Vec<usize>>());
    let head = [rd::n("_svc._tcp"), rd::n("_services._dns-sd._udp"), rd::n("inst._svc._tcp")][k].clone();
    let mut left = total - rd::name_len(&head);
    let mut dom: Name = vec![];
    while left > 0 {
        let mut n = 63.min(left - 1);
        if left - (n + 1) == 1 {
            n -= 1;
        }
        dom.push(vec![b'd'; n]);
        left -= n + 1;
    }
    cx.note(|| format!("operation kind {k}, query name of {total} bytes"));
    let c = Conf { domain: dom, ..conf(100 * MS, 250 * MS) };
    let b = Build::new(0, 0x8400).done();
    both(cx, &c, |w| w.arrive(MS, pool::peers()[0], b.clone()), &[kinds()[k].clone()], &mut Plan::default())
}

/// Timers that fire late, computing and callbacks that take time.
fn c22_rough(cx: &mut Cx) -> R {
    let n = cx.by_tier(2, 3);
    let c = pool::Rough::pick(cx, n);
    cx.note(|| format!("{c:?}"));
    let mut w = c.world();
    let calls = Mutex::new(vec![]);
    let (t0, e, end) = w.run(|| -> Result<_, String> {
        let mut x = exec::finish(AsyncDiscoverer::new("224.0.0.251:5353".parse().unwrap(), conv::dn(&rd::n("local"))))?.map_err(|e| format!("creating a discoverer failed: {e}"))?;
        x.set_retransmit_timeout(world::duration(c.r)).map_err(|e| format!("setting the retransmit timeout failed: {e}"))?;
        x.set_discovery_timeout(world::duration(c.d)).map_err(|e| format!("setting the discovery timeout failed: {e}"))?;
        let s = svc(b"_svc", true);
        let t0 = exec::now();
        let on = || {
            let t = exec::now();
            world::with(|w| w.net.now += c.cost);
            calls.lock().unwrap().push((t, exec::now()));
            ControlFlow::Continue(())
        };
        let e = exec::finish(async {
            match c.kind {
                0 => x.discover_instances(&s, |_| on()).await,
                1 => x.discover_service_types(|_| on()).await,
                _ => x.load_instance_details(&ServiceInstance::from_service(Label::new("inst"), s)).await.map(|_| ()),
            }
        })?;
        let end = exec::now();
        drop(x);
        Ok((t0, e.err().map(err).filter(|e| c.kind != 2 || e.0 != ErrorKind::TimedOut), end))
    })?;
    let calls = calls.into_inner().unwrap();
    cx.steps(w.calls as u64);
    ensure_eq!(e, None, "error of the operation");
    cx.state(&(w.sends().len(), end, &calls));
    cx.outcome(&w.sends().len());
    c.judge(&w, t0, end, &calls)
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C22",
        rule: "The real async discoverer (on a stand-in async-io whose readiness and timers follow a virtual clock) and the real blocking discoverer run over the same datagrams, errors and settings; queries, callbacks, results and times must be equal. Dropped operations are followed by one that must equal a fresh blocking discoverer's in the same surroundings.",
        assumptions: &["async-io is replaced by a stand-in with its interface; its reactor thread is not part of the check", "a datagram never arrives at the very instant a timeout fires"],
        scenarios: vec![
            Scenario { name: "instances", f: c22_instances, dev: (1, 2), bounds: "3 (4) datagrams from a pool of 16, callback stopping never or at call 1-3, up to 1 (2) unusual gaps or logging" },
            Scenario { name: "types", f: c22_types, dev: (1, 2), bounds: "as for instances" },
            Scenario { name: "details", f: c22_details, dev: (1, 2), bounds: "3 (4) datagrams from a pool of 16, up to 1 (2) unusual gaps or logging" },
            Scenario { name: "values", f: c22_values, dev: (0, 0), bounds: "the value families of C13, C14 and C15 (labels, domains, transports, numbers of answers, TTLs, IDs, flags, ports, hosts, metadata, foreign owners)" },
            Scenario { name: "crowd", f: c22_crowd, dev: (0, 0), bounds: "9 numbers of distinct targets from 300 to 4100 (20000), each announced twice: all again in the same or the opposite order, at once, or each after the next 1 to 1025" },
            Scenario { name: "kin", f: c22_kin, dev: (0, 0), bounds: "32 labels, each with every label one change away, the other transport, or the border between labels moved: both instances or services in turn on one discoverer, every reply naming both in either order" },
            Scenario { name: "broken", f: c22_broken, dev: (0, 0), bounds: "about 14000 damaged datagrams before an intact one, for all three operations" },
            Scenario { name: "timing", f: c22_timing, dev: (0, 0), bounds: "5 retransmit x 5 total timeouts x 3 operations x all sequences of up to 3 (4) datagrams over 7 gaps" },
            Scenario { name: "rough", f: c22_rough, dev: (0, 0), bounds: "3 operations x 3 retransmit x 5 total timeouts x 9 ways in which timers fire late and computing takes time x 4 durations of a callback x up to 2 (3) datagrams at 7 gaps" },
            Scenario { name: "errors", f: c22_errors, dev: (0, 0), bounds: "130 error codes at 5 sends or 5 moments of receiving, 3 operations run twice" },
            Scenario { name: "spans", f: c22_spans, dev: (0, 0), bounds: "retransmit timeouts 1 ms to 71 years x limits 0 to 140 years (up to 1000 queries each, 66000 with the shortest) x 3 operations, in silence or with up to 1000 (132000) datagrams at 3 rates" },
            Scenario { name: "history", f: c22_history, dev: (0, 0), bounds: "2 operations of 3 kinds, 2 (3) replies to any of them at 4 gaps, one of: send error, receive error, socket not writable, spurious wake-up, at every position" },
            Scenario { name: "dropped", f: c22_dropped, dev: (0, 0), bounds: "dropped at each of 5 suspensions before or after its event, 2 (3) datagrams (3 kinds x 3 operations x 3 gaps), unwritable socket at 3 sends, 3 x 3 operations" },
            Scenario { name: "late", f: c22_late, dev: (0, 0), bounds: "3 operations, 2 (3) datagrams of 4 kinds at 3 gaps, polled late after each of 4 suspensions by 4 delays" },
            Scenario { name: "settings", f: c22_settings, dev: (0, 0), bounds: "4 servers x 4 domains x 2 operations with settings changed between them" },
            Scenario { name: "long", f: c22_long, dev: (0, 0), bounds: "3 operations x every query name length from 40 to 2100 and from 65530 to 65800" },
        ],
    }]
}
