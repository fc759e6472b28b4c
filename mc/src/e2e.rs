//! C20: blocking clients and real advertisers joined by a virtual, faulty network.
use crate::advmodel::{self as am, inst, nm, Inst, Op};
use crate::conv;
use crate::pool;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::net::{IpAddr, SocketAddr};
use std::ops::ControlFlow;
use uwuhi::name::Label;
use uwuhi::resolver::SyncResolver;
use uwuhi::service::discovery::SyncDiscoverer;
use uwuhi::service::{Service, ServiceInstance, ServiceTransport, TxtRecordValue};
use vcore::explore::{catch, Property, Scenario};
use vcore::refdns::Name;
use vcore::world::{Arrival, World, MS};
use vcore::{ensure, ensure_eq, util, Cx};

type R = Result<(), String>;
const US: u64 = 1000;

/// Advertisers that may be on the network.
fn catalogue() -> Vec<Vec<Op>> {
    let long = [b"_".to_vec(), vec![b'L'; 62]].concat();
    let big: Vec<Vec<u8>> = (0..4u8).map(|k| [vec![b'k', b'0' + k, b'='], vec![0xf0 + k; 250]].concat()).collect();
    let big: Vec<&[u8]> = big.iter().map(|v| &v[..]).collect();
    vec![
        vec![nm(b"h1", "192.0.2.1"), nm(b"h1", "fd00::1"), inst(b"a", b"_svc", true, "h1.local", 80, &[b"k=v=w", b"flag", b"K2="])],
        vec![nm(b"h2", "192.0.2.2"), inst(b"b", b"_svc", true, "h2.local", 81, &[]), inst(b"a", b"_svc", false, "H2.local", 65535, &[b"x=\xff\x00"])],
        vec![nm(b"H3-x", "fd00::3"), inst(b"Some. thing \xe2\x98\x83", &long, true, "h3-x.local", 0, &big), inst(b"a", b"_other", true, "h3-X.local", 1, &[b"k=2"])],
        vec![nm(b"h4", "192.0.2.4"), nm(b"h5", "192.0.2.5")],
        vec![nm(b"h6", "192.0.2.6"), inst(b"_svc", b"_svc", true, "h2.local", 82, &[b"=no key", b"q"]), inst(b"c", b"_svc", true, "printer.example.org", 83, &[b"q=1"])],
    ]
}
fn peer(i: usize) -> SocketAddr {
    SocketAddr::from(([192, 0, 2, 100 + i as u8], 5353))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fault {
    None,
    Lost,
    Twice,
    Late(u64),
    Cut(usize),
    Garbage,
}
const QUERY_FAULTS: [Fault; 5] = [Fault::None, Fault::Lost, Fault::Twice, Fault::Cut(3), Fault::Garbage];
const REPLY_FAULTS: [Fault; 8] = [Fault::None, Fault::Lost, Fault::Twice, Fault::Late(295), Fault::Late(1003), Fault::Cut(1), Fault::Cut(0), Fault::Garbage];

struct Netw<'c> {
    cx: &'c mut Cx,
    advs: Vec<(usize, uwuhi::service::advertising::Advertiser)>,
    /// Network delay of each advertiser.
    delay: Vec<u64>,
    faults: usize,
    stage: &'static str,
}
/// A damaged datagram: cut (0: to half its length, else by n bytes), or overwritten.
fn damage(f: Fault, d: &[u8]) -> Vec<u8> {
    match f {
        Fault::Cut(0) => d[..d.len() / 2].to_vec(),
        Fault::Cut(n) => d[..d.len() - n].to_vec(),
        Fault::Garbage => vec![0xc1; d.len()],
        _ => d.to_vec(),
    }
}
impl Netw<'_> {
    fn fault(&mut self, list: &[Fault], what: &'static str, i: usize) -> Fault {
        let f = list[self.cx.dev(list.len())];
        if f != Fault::None {
            self.faults += 1;
            let stage = self.stage;
            self.cx.note(|| format!("{stage}: {what} of advertiser {i}: {f:?}"));
        }
        f
    }
    fn deliver(&mut self, net: &mut vcore::world::Net, sock: usize, query: &[u8]) {
        for k in 0..self.advs.len() {
            let id = self.advs[k].0;
            let f = self.fault(&QUERY_FAULTS, "query", id);
            if f == Fault::Lost {
                continue;
            }
            let q = damage(f, query);
            for _ in 0..1 + (f == Fault::Twice) as usize {
                let Ok(Some(r)) = self.advs[k].1.handle_packet(&q).map(|r| r.map(|r| r.to_vec())) else { continue };
                self.cx.step();
                let f = self.fault(&REPLY_FAULTS, "reply", id);
                if f == Fault::Lost {
                    continue;
                }
                let late = if let Fault::Late(d) = f { d * MS } else { 0 };
                let at = net.now + (self.delay[k] * 7 + 1) * MS + k as u64 * US + late;
                for j in 0..1 + (f == Fault::Twice) as u64 {
                    net.push(Arrival { sock: Some(sock), ..Arrival::new(at + j * 20 * MS, peer(id), damage(f, &r)) });
                }
            }
        }
    }
}
type Details = (Name, u16, Vec<(String, String, Option<Vec<u8>>)>);
fn offered(i: &Inst) -> Details {
    (i.host.clone(), i.port, pool::txt_model(&i.txt))
}
/// Browses everything with the given clients' operations and compares with what is offered.
fn browse(cx: &mut Cx, pick: &[usize], delay: Vec<u64>) -> R {
    let cat = catalogue();
    browse_all(cx, &pick.iter().map(|&i| (i, cat[i].clone())).collect::<Vec<_>>(), delay)
}
fn browse_all(cx: &mut Cx, cat: &[(usize, Vec<Op>)], delay: Vec<u64>) -> R {
    let insts: Vec<Inst> = cat.iter().flat_map(|(_, ops)| ops.iter().filter_map(|o| if let Op::Inst(x) = o { Some(x.clone()) } else { None })).collect();
    let mut hosts: Vec<(Name, BTreeSet<IpAddr>)> = vec![];
    for (_, ops) in cat {
        for o in ops {
            if let Op::Name(l, ip) = o {
                let n = vec![l.clone(), b"local".to_vec()];
                match hosts.iter_mut().find(|h| h.0 == n) {
                    Some(h) => {
                        h.1.insert(*ip);
                    }
                    None => hosts.push((n, [*ip].into())),
                }
            }
        }
    }
    let advs = cat.iter().map(|(i, ops)| (*i, am::build(ops))).collect();
    let net = RefCell::new(Netw { cx, advs, delay, faults: 0, stage: "" });
    let mut w = World::new();
    w.responder = Some(Box::new(|n, sock, _, to, data| {
        if to == "224.0.0.251:5353".parse().unwrap() {
            net.borrow_mut().deliver(n, sock, data);
        }
    }));
    let stage = |s: &'static str| {
        let mut n = net.borrow_mut();
        n.stage = s;
        n.faults
    };
    // Late replies reach later operations: those faults still count there.
    let mut lates = 0usize;
    let mut d = w.run(|| SyncDiscoverer::new_multicast_v4().map_err(|e| format!("creating a discoverer failed: {e}")))?;
    let key = |s: &[u8], tcp: bool| (s.to_vec(), tcp);
    // service types
    let f0 = stage("service types");
    let mut types: Vec<(Vec<u8>, bool)> = vec![];
    w.run(|| catch(|| d.discover_service_types(|s: &Service| {
        types.push(key(s.name().as_bytes(), s.transport() == ServiceTransport::TCP));
        ControlFlow::Continue(())
    })))?
    .map_err(|e| format!("discovering service types failed: {e}"))?;
    let want: BTreeSet<(Vec<u8>, bool)> = insts.iter().map(|i| key(&i.svc, i.tcp)).collect();
    compare("service types", &types, &want, net.borrow().faults - f0 + lates)?;
    lates += net.borrow().faults - f0;
    // instances of every type offered
    for (s, tcp) in &want {
        let f0 = stage("instances");
        let service = Service::new(Label::new(s), if *tcp { ServiceTransport::TCP } else { ServiceTransport::Other });
        let mut found = vec![];
        w.run(|| catch(|| d.discover_instances(&service, |i: &ServiceInstance| {
            found.push((i.instance_name().as_bytes().to_vec(), i.service_name().as_bytes().to_vec(), i.service_transport() == ServiceTransport::TCP));
            ControlFlow::Continue(())
        })))?
        .map_err(|e| format!("discovering instances failed: {e}"))?;
        let want: BTreeSet<_> = insts.iter().filter(|i| i.svc == *s && i.tcp == *tcp).map(|i| (i.inst.clone(), i.svc.clone(), i.tcp)).collect();
        compare("instances", &found, &want, net.borrow().faults - f0 + lates)?;
        lates += net.borrow().faults - f0;
    }
    // details of every instance
    for i in &insts {
        let f0 = stage("details");
        let r = w.run(|| catch(|| d.load_instance_details(&i.instance())))?;
        let f = net.borrow().faults - f0 + lates;
        lates = f;
        match r {
            Ok(x) => {
                let mut t: Vec<_> = x
                    .txt_records()
                    .iter()
                    .map(|(k, v)| {
                        (
                            k.to_ascii_lowercase(),
                            k.to_string(),
                            match v {
                                TxtRecordValue::NoValue => None,
                                TxtRecordValue::Value(v) => Some(v.to_vec()),
                            },
                        )
                    })
                    .collect();
                t.sort();
                ensure_eq!((conv::name(x.host()), x.port(), t), offered(i), "details of an instance");
            }
            Err(e) => ensure!(f > 2, "loading the details of an offered instance failed: {e}"),
        }
    }
    w.run(|| drop(d));
    // addresses of every host
    {
        let mut r = w.run(|| SyncResolver::new_multicast_v4().map_err(|e| format!("creating a resolver failed: {e}")))?;
        for (n, ips) in &hosts {
            let f0 = stage("addresses");
            let plain = n.iter().all(|l| std::str::from_utf8(l).is_ok() && !l.contains(&b'.'));
            let text = n.iter().map(|l| String::from_utf8_lossy(l).into_owned() + ".").collect::<String>();
            let g = w.run(|| catch(|| if plain { r.resolve(&text).map(|i| i.collect::<Vec<_>>()) } else { r.resolve_domain(&conv::dn(n)).map(|i| i.collect::<Vec<_>>()) }))?;
            match g {
                Ok(v) => {
                    let s: BTreeSet<IpAddr> = v.iter().copied().collect();
                    ensure!(s == *ips && v.len() == ips.len(), "resolving {text} gives {v:?}, advertised are {ips:?}");
                }
                // the resolver asks only once
                Err(e) => ensure!(net.borrow().faults > f0, "resolving the advertised {text} failed: {e}"),
            }
        }
        // and something nobody has
        if net.borrow().faults == 0 {
            let g = w.run(|| catch(|| r.resolve("nobody.local").map(|i| i.collect::<Vec<_>>())))?;
            ensure!(g.is_err(), "resolving a name nobody advertises gives {g:?}");
        }
        w.run(|| drop(r));
    }
    drop(w);
    let n = net.into_inner();
    let f = n.faults;
    n.cx.state(&(cat, f, types.len(), insts.len()));
    n.cx.outcome(&(cat.len(), f));
    Ok(())
}
/// The network repeats queries at least three times within an operation, so what is offered must be
/// found unless more than two datagrams were tampered with.
fn compare<T: Ord + Clone + std::fmt::Debug>(what: &str, found: &[T], want: &BTreeSet<T>, faults: usize) -> R {
    let set: BTreeSet<T> = found.iter().cloned().collect();
    ensure!(set.len() == found.len(), "{what} reported twice: {found:?}");
    ensure!(set.is_subset(want), "{what} nobody offers were reported: {:?}, offered are {want:?}", set.difference(want).collect::<Vec<_>>());
    ensure!(faults > 2 || set == *want, "{what} not found: {:?}", want.difference(&set).collect::<Vec<_>>());
    Ok(())
}
fn subsets(max: usize) -> Vec<Vec<usize>> {
    (1u32..32).filter(|m| m.count_ones() as usize <= max).map(|m| (0..5).filter(|i| m >> i & 1 == 1).collect()).collect()
}
/// Every set of advertisers, every order of their replies, no faults.
fn c20_mixes(cx: &mut Cx) -> R {
    let s = subsets(5);
    let pick = cx.pick(&s).clone();
    let mut delay = vec![];
    for _ in &pick {
        delay.push(cx.choose(cx.by_tier(2, 3)) as u64);
    }
    if cx.flag() {
        vcore::logcap::enable(true);
    }
    cx.note(|| format!("advertisers {pick:?}, delays {delay:?}"));
    browse(cx, &pick, delay)
}
/// One thing offered takes every value of its family.
fn c20_values(cx: &mut Cx) -> R {
    let ops = am::varied(cx, true);
    cx.note(|| am::show_ops(&ops));
    // names of different advertisers that differ only in case are one name: the other one differs
    let other = vec![nm(b"neighbour", "192.0.2.250"), inst(b"nb", b"_nb", true, "neighbour.local", 7, &[b"n=1"])];
    if cx.flag() {
        browse_all(cx, &[(0, ops), (1, other)], vec![1, 0])
    } else {
        browse_all(cx, &[(0, ops)], vec![0])
    }
}
/// Faulty network.
fn c20_faults(cx: &mut Cx) -> R {
    let s = subsets(3);
    let pick = cx.pick(&s).clone();
    cx.note(|| format!("advertisers {pick:?}"));
    let delay = vec![0; pick.len()];
    browse(cx, &pick, delay)
}
/// Two faults anywhere.
fn c20_faults2(cx: &mut Cx) -> R {
    let s: [&[usize]; 4] = [&[0], &[0, 1], &[2], &[1, 4]];
    let pick = cx.pick(&s).to_vec();
    cx.note(|| format!("advertisers {pick:?}"));
    let delay = vec![1; pick.len()];
    browse(cx, &pick, delay)
}

pub fn props() -> Vec<Property> {
    let _ = util::hash::<u8>;
    vec![Property {
        id: "C20",
        rule: "A real blocking client browses real advertisers through a virtual network that loses, duplicates, delays, cuts or garbles any datagram in either direction, with a bounded number of faults; everything offered must be found exactly, and nothing else.",
        assumptions: &["damaged datagrams are cut short or overwritten completely", "with more than two faults the network may hide an offer"],
        scenarios: vec![
            Scenario { name: "mixes", f: c20_mixes, dev: (0, 0), bounds: "all 31 sets of up to 5 advertisers x all 2^n (3^n) orders of their replies" },
            Scenario { name: "values", f: c20_values, dev: (0, 0), bounds: "an advertiser in which one thing ranges over its family (1955 addresses, 1254 host, instance or service labels, 4341 SRV targets, all 65536 ports, 1445 sets of metadata, 1-28 instances, 1-22 services, 1-40 addresses), alone and next to another" },
            Scenario { name: "faults", f: c20_faults, dev: (1, 2), bounds: "all 25 sets of up to 3 advertisers x one (two) faults (4 kinds per query, 7 per reply) at any datagram" },
            Scenario { name: "faults2", f: c20_faults2, dev: (2, 3), bounds: "4 sets of advertisers x two (three) faults at any datagrams" },
        ],
    }]
}
