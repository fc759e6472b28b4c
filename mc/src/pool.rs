//! Datagrams a client may receive, and what they mean (shared with the async checks).
use std::net::SocketAddr;
use vcore::refdns::{self as rd, Build, Data, Name};
use vcore::world::{Ev, World, MS};
use vcore::{corpus, ensure, Cx};

pub type Dg = (&'static str, Vec<u8>);

pub fn peers() -> [SocketAddr; 3] {
    ["192.0.2.77:5353".parse().unwrap(), "10.0.0.1:40001".parse().unwrap(), "224.0.0.251:5353".parse().unwrap()]
}
fn swapcase(n: &Name) -> Name {
    n.iter().map(|l| l.iter().map(|b| if b.is_ascii_alphabetic() { b ^ 0x20 } else { *b }).collect()).collect()
}
pub fn ptr(n: &str) -> Data {
    Data::Name(rd::PTR, rd::n(n))
}
pub fn txt(e: &[&[u8]]) -> Data {
    Data::Txt(e.iter().map(|e| e.to_vec()).collect())
}
/// Overwrites the last `k` bytes of a message's body.
fn tail(mut b: Vec<u8>, with: &[u8]) -> Vec<u8> {
    let n = b.len();
    b[n - with.len()..].copy_from_slice(with);
    b
}

/// Names under which PTR targets for discovery tests are built.
pub struct Targets {
    pub good: [Name; 3],
    pub bad: Vec<Name>,
}
/// Datagrams for a PTR query about `o`; `t.good` are targets to report, `t.bad` are not reportable.
pub fn ptr_pool(o: &Name, t: &Targets) -> Vec<Dg> {
    let p = |n: &Name| Data::Name(rd::PTR, n.clone());
    let [a, b, c] = &t.good;
    let r = || Build::new(12345, 0x8400);
    let foreign: Vec<Name> = {
        let mut v = vec![rd::n("other.local"), o[1..].to_vec(), o[..o.len() - 1].to_vec()];
        let mut w = o.clone();
        w.insert(0, b"x".to_vec());
        v.push(w);
        let mut w = o.clone();
        w[0].push(b'x');
        v.push(w);
        let mut w = o.clone();
        w[0].pop();
        v.push(w);
        v.retain(|n| n.iter().all(|l| !l.is_empty()));
        v
    };
    let cut = {
        let m = r().ans(o, &p(a)).ans(o, &p(b)).done();
        m[..m.len() - 3].to_vec()
    };
    let undecodable = {
        // the first answer's target points forward; the second is fine
        let m = r().ans(o, &Data::Raw(rd::PTR, vec![0xc0, 0xff])).ans(o, &p(c)).done();
        m
    };
    let mut claims_more = r().ans(o, &p(b)).done();
    claims_more[7] = 9;
    let mut bads = r();
    for n in &t.bad {
        bads = bads.ans(o, &p(n));
    }
    bads = bads.ans(o, &p(a));
    let mut compressed = r().q(o, rd::PTR, 1);
    for x in [a, b] {
        // owner: pointer to the question; target: first label, then the question's name
        compressed.body.extend_from_slice(b"\xc0\x0c\x00\x0c\x80\x01\x00\x00\x11\x94");
        let mut d = vec![];
        if x.len() > o.len() && x[x.len() - o.len()..] == o[..] {
            for l in &x[..x.len() - o.len()] {
                d.push(l.len() as u8);
                d.extend_from_slice(l);
            }
            d.extend_from_slice(b"\xc0\x0c");
        } else {
            rd::put_name(&mut d, x);
        }
        rd::put16(&mut compressed.body, d.len() as u16);
        compressed.body.extend_from_slice(&d);
        compressed.counts[1] += 1;
    }
    let mut fx = r();
    for f in &foreign {
        fx = fx.ans(f, &p(c));
    }
    let mixed = r().ans(&rd::n("x.local"), &p(c)).ans(o, &p(b)).ans(&rd::n("y.local"), &p(a)).ans(o, &p(b));
    let other_types = r()
        .ans(o, &Data::Name(rd::CNAME, a.clone()))
        .ans(o, &Data::Name(rd::NS, a.clone()))
        .ans(o, &Data::Srv(0, 0, 80, a.clone()))
        .ans(o, &txt(&[b"a=b"]))
        .ans(o, &Data::A([1, 2, 3, 4]))
        .ans(o, &Data::Raw(47, vec![0xff, 0xff, 0xff]))
        .ans(o, &p(b));
    vec![
        ("a", r().ans(o, &p(a)).done()),
        ("b, a, b", r().ans(o, &p(b)).ans(o, &p(a)).ans(o, &p(b)).done()),
        ("c, other-case owner, ID 0", { let mut m = r().ans(&swapcase(o), &p(c)).done(); m[0] = 0; m[1] = 0; m }),
        ("targets that are no services, then a", bads.done()),
        ("answers for other names", fx.done()),
        ("b between foreign answers", mixed.done()),
        ("query with answers", { let mut m = r().ans(o, &p(a)).done(); m[2] = 0; m }),
        ("only authority and additional", r().rr(2, o, 1, 120, &p(a)).rr(3, o, 1, 120, &p(b)).done()),
        ("a, then b cut off", cut),
        ("undecodable, then c", undecodable),
        ("b, announces more", claims_more),
        ("records of other types, then b", other_types.done()),
        ("compressed a, b", compressed.done()),
        ("bad question, then a", {
            let mut q = r();
            q.body.extend_from_slice(b"\xc0\xff\x00\x0c\x00\x01");
            q.counts[0] = 1;
            q.ans(o, &p(a)).done()
        }),
        ("garbage", tail(vec![0; 40], &[0xc0, 0xff])),
        ("short", vec![0x30, 0x39, 0x84]),
    ]
}
/// PTR targets in answers of `d` that are about `o`, in order, up to the first damage.
pub fn ptr_targets(d: &[u8], o: &Name) -> Vec<Name> {
    let Some(m) = rd::parse(d) else { return vec![] };
    if !m.response() || matches!(m.err, Some((0, _))) {
        return vec![];
    }
    let mut v = vec![];
    for r in &m.rr[0] {
        if r.ty == rd::PTR && rd::eq_ci(&r.name, o) {
            if let Some(Ok(Data::Name(_, n))) = rd::data(d, r.start, r.end, r.ty) {
                v.push(n);
            }
        }
    }
    v
}
/// The service a PTR target names: (service label, tcp).
pub fn service_of(n: &[Vec<u8>]) -> Option<(Vec<u8>, bool)> {
    if n.len() < 3 || n[0].first() != Some(&b'_') {
        return None;
    }
    match &n[1][..] {
        b"_tcp" => Some((n[0].clone(), true)),
        b"_udp" => Some((n[0].clone(), false)),
        _ => None,
    }
}
pub fn instance_of(n: &Name) -> Option<(Vec<u8>, Vec<u8>, bool)> {
    if n.is_empty() {
        return None;
    }
    let (s, t) = service_of(&n[1..])?;
    Some((n[0].clone(), s, t))
}
pub fn instance_targets(svc: &str) -> Targets {
    let g = |i: &[u8]| {
        let mut n = vec![i.to_vec()];
        n.extend(rd::n(svc));
        n
    };
    Targets {
        good: [g(b"inst"), g(b"Two. words\xc3\xa9"), g(b"_three")],
        bad: vec![
            vec![],
            rd::n("_svc"),
            rd::n("inst._svc"),
            rd::n("inst._svc._tcp"),
            rd::n("inst.svc._tcp.local"),
            rd::n("inst._svc._sctp.local"),
            rd::n("_svc._tcp.local"),
            rd::n("inst._svc.tcp.local"),
            rd::n("host.local"),
        ],
    }
}
pub fn service_targets() -> Targets {
    Targets {
        good: [rd::n("_http._tcp.local"), rd::n("_http._udp.local"), rd::n("_x-Y9._tcp.local")],
        bad: vec![vec![], rd::n("_http"), rd::n("_http._tcp"), rd::n("http._tcp.local"), rd::n("_http._sctp.local"), rd::n("inst._http._tcp.local"), rd::n("host.local"), rd::n("_http.tcp.local")],
    }
}

/// Datagrams for a details query about instance name `o`.
pub fn details_pool(o: &Name) -> Vec<Dg> {
    let r = || Build::new(12345, 0x8400);
    let s1 = Data::Srv(0, 0, 80, rd::n("h1.local"));
    let s2 = Data::Srv(0, 0, 0xff02, rd::n("h2.example.org"));
    let t1 = txt(&[b"k=1", b"only1"]);
    let t2 = txt(&[b"k=2"]);
    let sf = Data::Srv(0, 0, 6666, rd::n("evil.local"));
    let tf = txt(&[b"evil=1", b"k=9"]);
    let f1 = {
        let mut n = o.clone();
        n[0].push(b'2');
        n
    };
    let f2 = o[1..].to_vec();
    let f3 = {
        let mut n = o.clone();
        n.last_mut().unwrap().pop();
        n
    };
    vec![
        ("SRV 1", r().ans(o, &s1).done()),
        ("SRV 2", r().ans(o, &s2).done()),
        ("TXT 1", r().ans(o, &t1).done()),
        ("TXT 2", r().ans(o, &t2).done()),
        ("SRV 1, TXT 1", r().q(o, rd::SRV, 1).q(o, rd::TXT, 1).ans(o, &s1).ans(o, &t1).done()),
        ("TXT 2, SRV 2", r().ans(o, &t2).ans(o, &s2).done()),
        ("foreign SRV and TXT", r().ans(&f1, &sf).ans(&f1, &tf).ans(&f2, &sf).ans(&f3, &sf).ans(&f2, &tf).ans(&f3, &tf).done()),
        ("foreign SRV and TXT around own SRV 2", r().ans(&f1, &sf).ans(o, &s2).ans(&f1, &tf).done()),
        ("other-case TXT 1, SRV 1, ID 0", { let mut m = r().ans(&swapcase(o), &t1).ans(&swapcase(o), &s1).done(); m[0] = 0; m[1] = 0; m }),
        ("query with SRV, TXT", { let mut m = r().ans(o, &sf).ans(o, &tf).done(); m[2] = 0; m }),
        ("undecodable SRV and TXT, then SRV 2", r().ans(o, &Data::Raw(rd::SRV, vec![0, 0, 0, 0, 1])).ans(o, &Data::Raw(rd::TXT, vec![5, b'a'])).ans(o, &s2).done()),
        ("TXT 1, then SRV cut off", { let m = r().ans(o, &t1).ans(o, &sf).done(); m[..m.len() - 2].to_vec() }),
        ("SRV and TXT only outside the answers", r().rr(2, o, 1, 120, &sf).rr(3, o, 1, 120, &tf).done()),
        ("records of other types", r().ans(o, &Data::Name(rd::CNAME, rd::n("evil.local"))).ans(o, &Data::A([6, 6, 6, 6])).ans(o, &Data::Raw(99, vec![1, b'x'])).ans(o, &ptr("evil.local")).done()),
        ("empty TXT", r().ans(o, &txt(&[b""])).done()),
        ("garbage", vec![0x81; 30]),
    ]
}
/// SRV (host, port) and TXT entries of `d` that are about `o`, in order.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Det {
    Srv(Name, u16),
    Txt(Vec<Vec<u8>>),
}
pub fn details_of(d: &[u8], o: &Name) -> Vec<Det> {
    let Some(m) = rd::parse(d) else { return vec![] };
    if !m.response() || matches!(m.err, Some((0, _))) {
        return vec![];
    }
    let mut v = vec![];
    for r in &m.rr[0] {
        if !rd::eq_ci(&r.name, o) || (r.ty != rd::SRV && r.ty != rd::TXT) {
            continue;
        }
        match rd::data(d, r.start, r.end, r.ty) {
            Some(Ok(Data::Srv(_, _, p, h))) => v.push(Det::Srv(h, p)),
            Some(Ok(Data::Txt(e))) => v.push(Det::Txt(e)),
            _ => {}
        }
    }
    v
}
/// Metadata a list of TXT entries stands for: lower-cased key, key, value.
pub fn txt_model(e: &[Vec<u8>]) -> Vec<(String, String, Option<Vec<u8>>)> {
    let mut v: Vec<(String, String, Option<Vec<u8>>)> = vec![];
    for e in e {
        let p = e.iter().position(|&b| b == b'=');
        let k = &e[..p.unwrap_or(e.len())];
        let Ok(k) = std::str::from_utf8(k) else { continue };
        if k.is_empty() {
            continue;
        }
        let l = k.to_ascii_lowercase();
        if v.iter().any(|x| x.0 == l) {
            continue;
        }
        v.push((l, k.to_string(), p.map(|p| e[p + 1..].to_vec())));
    }
    v.sort();
    v
}

/// Datagrams for a resolution of `o`. ID 0x3039 stands for the query's ID (see `patch_ids`).
pub fn addr_pool(o: &Name) -> Vec<Dg> {
    let r = || Build::new(0x3039, 0x8180);
    let a = |k: u8| Data::A([192, 0, 2, k]);
    let aaaa = |k: u8| Data::Aaaa([0xfd, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, k]);
    let cn = |s: &str| Data::Name(rd::CNAME, rd::n(s));
    let bad = |k: u8| a(200 + k);
    let n = rd::n;
    let mut near = vec![o[1..].to_vec(), o[..o.len() - 1].to_vec(), n("other.example")];
    let mut w = o.clone();
    w[0].push(b'x');
    near.push(w);
    let mut w = o.clone();
    w.insert(0, b"www".to_vec());
    near.push(w);
    let mut foreign = r();
    for (i, f) in near.iter().enumerate() {
        foreign = foreign.ans(f, &bad(i as u8)).ans(f, &aaaa(99));
    }
    let mut big = r().q(o, rd::A, 1);
    for i in 0..5u8 {
        big = big.ans(&n("pad.example"), &txt(&[&[b'p'; 200], &[i; 40]]));
    }
    let big = big.ans(o, &a(15)).ans(o, &aaaa(15));
    let cut = {
        let m = r().ans(o, &bad(1)).ans(o, &bad(2)).done();
        m[..m.len() - 1].to_vec()
    };
    let mut more = r().ans(o, &bad(3)).done();
    more[7] = 2;
    let mut compressed = r().q(o, rd::A, 1).q(o, rd::AAAA, 1);
    compressed.body.extend_from_slice(b"\xc0\x0c\x00\x05\x00\x01\x00\x00\x00\x3c\x00\x08\x05alias\xc0\x0c");
    compressed.counts[1] += 1;
    let p = compressed.pos() - 8;
    rd::put16(&mut compressed.body, 0xc000 | p as u16);
    compressed.body.extend_from_slice(b"\x00\x01\x00\x01\x00\x00\x00\x3c\x00\x04\xc0\x00\x02\x0c");
    compressed.counts[1] += 1;
    vec![
        ("A 1", r().ans(o, &a(1)).done()),
        ("AAAA 2, A 3, AAAA 4", r().q(o, rd::A, 1).ans(o, &aaaa(2)).ans(o, &a(3)).ans(o, &aaaa(4)).done()),
        ("alias, its A 5", r().ans(o, &cn("Alias.example")).ans(&n("alias.EXAMPLE"), &a(5)).done()),
        ("A of the alias' alias, then the chain", r().ans(&n("b.example"), &a(6)).ans(&n("a.example"), &cn("b.example")).ans(o, &cn("a.example")).done()),
        ("other names only", foreign.done()),
        ("own A 7 between others", r().ans(&near[0], &bad(7)).ans(o, &a(7)).ans(&near[3], &bad(8)).done()),
        ("other case A 8", r().ans(&swapcase(o), &a(8)).done()),
        ("other ID", Build::new(0x3930, 0x8180).ans(o, &bad(9)).done()),
        ("ID off by one", Build::new(0x3038, 0x8180).ans(o, &bad(10)).done()),
        ("query", Build::new(0x3039, 0x0100).ans(o, &bad(11)).done()),
        ("A, then A of 3 bytes", r().ans(o, &bad(12)).ans(o, &Data::Raw(rd::A, vec![1, 2, 3])).done()),
        ("A, then cut", cut),
        ("A, then a name that loops", r().ans(o, &bad(13)).ans(o, &Data::Raw(rd::CNAME, vec![0xc0, 0xff])).done()),
        ("announces more", more),
        ("no such name", Build::new(0x3039, 0x8183).q(o, rd::A, 1).done()),
        ("addresses outside the answers", r().rr(2, o, 1, 60, &bad(14)).rr(3, o, 1, 60, &bad(15)).done()),
        ("alias loop and a stranger's address", r().ans(o, &cn("l1.example")).ans(&n("l1.example"), &cn("l2.example")).ans(&n("l2.example"), &cn("l1.example")).ans(&n("l3.example"), &bad(16)).done()),
        ("alias to the name, not from it", r().ans(&n("z.example"), &Data::Name(rd::CNAME, o.clone())).ans(&n("z.example"), &bad(17)).done()),
        ("unknown types around A 9", r().ans(o, &Data::Raw(46, vec![0xc0])).ans(o, &a(9)).ans(o, &Data::Raw(65, vec![])).ans(o, &txt(&[b"x"])).done()),
        ("large, A 15 at the end", big.done()),
        ("compressed alias, A 12", compressed.done()),
        ("bad question, then A", {
            let mut q = r();
            q.body.extend_from_slice(b"\xc0\xff\x00\x01\x00\x01");
            q.counts[0] = 1;
            q.ans(o, &bad(18)).done()
        }),
        ("garbage", vec![0xc0; 33]),
        ("short", vec![0x30, 0x39, 0x80, 0]),
    ]
}
/// Gives the placeholder ID in queued datagrams the value the client chose.
pub fn patch_ids(net: &mut vcore::world::Net, query: &[u8]) {
    if query.len() >= 2 {
        for a in net.queue.iter_mut() {
            if a.data.starts_with(&[0x30, 0x39]) {
                a.data[0] = query[0];
                a.data[1] = query[1];
            }
        }
    }
}
/// Addresses a (patched) datagram gives for `o`; empty if it does not matter.
pub fn addrs_of(d: &[u8], o: &Name) -> Vec<std::net::IpAddr> {
    let Some(m) = rd::parse(d) else { return vec![] };
    if !m.response() || m.id != 0x3039 || matches!(m.err, Some((0 | 1, _))) {
        return vec![];
    }
    let mut names = vec![o.clone()];
    let mut data = vec![];
    for r in &m.rr[0] {
        match rd::data(d, r.start, r.end, r.ty) {
            Some(Ok(x)) => data.push((&r.name, x)),
            Some(Err(_)) => return vec![],
            None => {}
        }
    }
    loop {
        let mut grown = false;
        for (n, x) in &data {
            if let Data::Name(rd::CNAME, t) = x {
                if names.iter().any(|k| rd::eq_ci(k, n)) && !names.iter().any(|k| rd::eq_ci(k, t)) {
                    names.push(t.clone());
                    grown = true;
                }
            }
        }
        if !grown {
            break;
        }
    }
    data.iter()
        .filter(|(n, _)| names.iter().any(|k| rd::eq_ci(k, n)))
        .filter_map(|(_, x)| match x {
            Data::A(a) => Some((*a).into()),
            Data::Aaaa(a) => Some((*a).into()),
            _ => None,
        })
        .collect()
}

// ---- families of values and damage, one datagram (or a few) per case ----

/// What to ask for, and what arrives.
pub struct Case {
    pub inst: Vec<u8>,
    pub svc: Vec<u8>,
    pub tcp: bool,
    /// The discoverer's domain.
    pub domain: Name,
    /// The name asked for.
    pub owner: Name,
    pub dgs: Vec<Vec<u8>>,
    pub what: String,
}
fn as_service(l: &[u8]) -> Vec<u8> {
    let mut l = l.to_vec();
    if l.first() != Some(&b'_') {
        l.insert(0, b'_');
        l.truncate(63);
    }
    l
}
fn with_local(head: &[&[u8]]) -> Name {
    head.iter().map(|l| l.to_vec()).chain([b"local".to_vec()]).collect()
}
fn tl(tcp: bool) -> &'static [u8] {
    if tcp {
        b"_tcp"
    } else {
        b"_udp"
    }
}
fn resp() -> Build {
    Build::new(0x3039, 0x8400)
}
/// Transport labels: every single-byte change, insertion, deletion and spelling of the two.
pub fn transports() -> &'static [Vec<u8>] {
    static V: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<Vec<u8>> = vec![];
        for base in [b"_tcp", b"_udp"] {
            for i in 0..4 {
                for b in 0..=255u8 {
                    let mut l = base.to_vec();
                    l[i] = b;
                    v.push(l);
                    let mut l = base.to_vec();
                    l.insert(i, b);
                    v.push(l);
                }
                let mut l = base.to_vec();
                l.remove(i);
                v.push(l);
                let mut l = base.to_vec();
                l.truncate(i + 1);
                v.push(l);
            }
            for b in 0..=255u8 {
                v.push([&base[..], &[b]].concat());
            }
            for m in 0..8 {
                v.push(base.iter().enumerate().map(|(i, b)| if i > 0 && m >> (i - 1) & 1 == 1 { b.to_ascii_uppercase() } else { *b }).collect());
            }
            v.push([&base[..], &base[..]].concat());
            v.push([&base[..], &[b'x'; 59]].concat());
        }
        for s in ["_sctp", "_dccp", "_quic", "_tls", "_sub", "_local", "local", "tcp", "udp", "_tpc", "_ucp", "_tdp", "_", "__tcp", "\u{ff3f}tcp", "_\u{442}cp"] {
            v.push(s.as_bytes().to_vec());
        }
        v.sort();
        v.dedup();
        v
    })
}
/// Domains to discover in: none, one to many labels, short and long, bytes.
pub fn domains() -> &'static [Name] {
    static V: std::sync::OnceLock<Vec<Name>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<Name> = vec![vec![]];
        v.extend(corpus::bases().iter().filter(|b| rd::name_len(b) <= 200).cloned());
        v.push(corpus::sized(190, 63));
        v
    })
}
fn put_raw(b: &mut Build, sec: usize, ty: u16, n: usize) {
    b.body.push(0);
    rd::put16(&mut b.body, ty);
    b.body.extend_from_slice(&[0, 1, 0, 0, 0, 9]);
    rd::put16(&mut b.body, n as u16);
    b.body.resize(b.body.len() + n, 0xc5);
    b.counts[sec] += 1;
}
/// Adds one record of no use that ends at `end` (nothing if there is too little space).
fn filled(mut b: Build, end: usize) -> Build {
    if b.pos() + 11 <= end {
        let n = end - b.pos() - 11;
        put_raw(&mut b, 1, 0xff00, n);
    }
    b
}
/// `b`, then `last`, with records of no use in front (or behind), so that the whole has a length of
/// any value up to the 1500 bytes that must be received.
fn around(cx: &mut Cx, b: Build, last: impl Fn(Build) -> Build, what: &mut String) -> Vec<u8> {
    let total = 1500 - cx.choose(1440);
    let behind = cx.flag();
    let many = cx.flag();
    *what = format!("datagram of {total} bytes, {} useless record{} {} the answer", if many { "many" } else { "one" }, if many { "s" } else { "" }, if behind { "behind" } else { "before" });
    let tail = last(b.clone()).pos() - b.pos();
    let mut b = if behind { last(b) } else { b };
    let end = if behind { total } else { total - tail.min(total) };
    while many && b.pos() + 30 <= end {
        put_raw(&mut b, 1, 1, 4);
    }
    let mut b = filled(b, end);
    if !behind {
        b = last(b);
    }
    b.done()
}
/// PTR answers: labels, domains, transports, numbers, orders, TTLs and flags; `inst`: instances of a
/// service, else service types.
/// Ways of using an iterator over addresses.
pub const USES: usize = 10;
/// Uses the iterator in one of the ways; what it gives that way, and whether its size hint was right.
pub fn use_up(mut i: impl Iterator<Item = std::net::IpAddr>, how: usize) -> Vec<std::net::IpAddr> {
    match how {
        0 => i.collect(),
        1 => vec![],
        2 => i.next().into_iter().collect(),
        3 => i.by_ref().take(2).collect(),
        4 => i.last().into_iter().collect(),
        5 => i.nth(1).into_iter().collect(),
        6 => {
            let mut v = vec![];
            i.for_each(|a| v.push(a));
            v
        }
        7 => vec![std::net::IpAddr::from([0, 0, 0, i.count() as u8])],
        8 => {
            let mut v: Vec<_> = i.next().into_iter().collect();
            v.extend(i);
            v
        }
        _ => {
            let (lo, hi) = i.size_hint();
            let v: Vec<_> = i.collect();
            if lo > v.len() || hi.is_some_and(|h| h < v.len()) {
                return vec![std::net::IpAddr::from([255, 255, lo as u8, hi.unwrap_or(0) as u8])];
            }
            v
        }
    }
}
/// A response with so many addresses for the name, different ones for every `seed`.
pub fn addrs(name: &Name, n: usize, seed: u8) -> Vec<u8> {
    let mut b = Build::new(0x3039, 0x8180);
    for k in 0..n {
        b = b.ans(name, &if k % 3 == 1 { Data::Aaaa([seed; 16]) } else { Data::A([10, seed, 0, k as u8]) });
    }
    b.done()
}
/// Many distinct targets, each announced a second time.
pub fn crowd(cx: &mut Cx, inst: bool) -> Case {
    let owner = rd::n(if inst { "_svc._tcp.local" } else { "_services._dns-sd._udp.local" });
    let n = *cx.pick(cx.by_tier(&[300usize, 500, 513, 700, 1000, 1025, 2000, 2049, 4100], &[300usize, 513, 700, 1025, 2000, 4100, 8200, 10_000, 20_000]));
    let again = cx.choose(7);
    let order: Vec<usize> = match again {
        0 => (0..n).chain(0..n).collect(),
        1 => (0..n).chain((0..n).rev()).collect(),
        2 => (0..n).flat_map(|i| [i, i]).collect(),
        k => {
            let back = [1, 33, 255, 1025][k - 3];
            (0..n + back).flat_map(|i| (i < n).then_some(i).into_iter().chain(i.checked_sub(back))).collect()
        }
    };
    let mut c = Case { inst: vec![], svc: b"_svc".to_vec(), tcp: true, domain: rd::n("local"), owner, dgs: vec![], what: format!("{n} targets, each again (order {again})") };
    for part in order.chunks(24) {
        let mut b = resp();
        for i in part {
            let mut t = vec![format!("{}{i}", if inst { "t" } else { "_t" }).into_bytes(), b"_tcp".to_vec()];
            if inst {
                t.insert(1, c.svc.clone());
            }
            t.extend(rd::n("local"));
            b = b.ans(&c.owner, &Data::Name(rd::PTR, t));
        }
        c.dgs.push(b.done());
    }
    c
}
pub fn ptr_values(cx: &mut Cx, inst: bool) -> Case {
    let p = |n: &Name| Data::Name(rd::PTR, n.clone());
    let mut c = Case { inst: vec![], svc: b"_svc".to_vec(), tcp: true, domain: rd::n("local"), owner: vec![], dgs: vec![], what: String::new() };
    let target = |a: &[u8], svc: &[u8], tcp: &[u8]| -> Name {
        if inst {
            with_local(&[a, svc, tcp])
        } else {
            with_local(&[&as_service(a), tcp])
        }
    };
    let kind = cx.choose(12);
    if kind == 10 {
        c.domain = cx.pick(domains()).clone();
        c.tcp = cx.flag();
        c.svc = cx.pick(&[&b"_svc"[..], b"_S\xc3\x89 x.y"]).to_vec();
    }
    if kind == 1 {
        // the service asked for
        c.svc = as_service(cx.pick(corpus::labels()));
        c.tcp = cx.flag();
    }
    c.owner = if inst { vec![c.svc.clone(), tl(c.tcp).to_vec()] } else { rd::n("_services._dns-sd._udp") };
    c.owner.extend(c.domain.clone());
    let o = c.owner.clone();
    let first = target(b"first", &c.svc, tl(c.tcp));
    match kind {
        0 | 1 => {
            // a label, its other spelling, and both again
            let l: &[u8] = if kind == 0 { cx.pick(corpus::labels()) } else { b"Some" };
            let tcp = kind == 1 || cx.flag();
            let t = target(l, &c.svc, tl(if kind == 1 { c.tcp } else { tcp }));
            c.what = rd::show_name(&t);
            c.dgs.push(resp().ans(&o, &p(&first)).ans(&o, &p(&t)).done());
            c.dgs.push(resp().ans(&swapcase(&o), &p(&swapcase(&t))).ans(&o, &p(&t)).done());
        }
        2 => {
            // anything as the transport
            let t = target(b"x", &c.svc, cx.pick(transports()));
            c.what = rd::show_name(&t);
            c.dgs.push(resp().ans(&o, &p(&t)).ans(&o, &p(&first)).done());
        }
        3 => {
            // anything as domain, and anything as the whole target
            let h = cx.pick(corpus::hosts()).clone();
            let mut t: Name = if inst { vec![b"x".to_vec(), c.svc.clone(), tl(c.tcp).to_vec()] } else { vec![b"_x".to_vec(), b"_udp".to_vec()] };
            t.extend(h.iter().cloned());
            let mut b = resp();
            if rd::name_len(&t) <= 255 {
                b = b.ans(&o, &p(&t));
            }
            c.what = format!("domain {}", rd::show_name(&h));
            c.dgs.push(b.ans(&o, &p(&h)).ans(&o, &p(&first)).done());
        }
        4 => {
            // many in one datagram and over several, repeated
            let per = 1 + cx.choose(24);
            let n = *cx.pick(&[1usize, 2, 3, 7, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257]);
            let again = cx.flag();
            c.what = format!("{n} targets, {per} per datagram");
            let mut k = 0;
            while k < n * (1 + again as usize) {
                let mut b = resp();
                for _ in 0..per.min(n * (1 + again as usize) - k) {
                    let t = target(format!("t{}", k % n).as_bytes(), &c.svc, tl(inst || k % n % 3 > 0));
                    b = b.ans(&o, &p(&t));
                    k += 1;
                }
                c.dgs.push(b.done());
            }
        }
        5 => {
            // TTLs and the cache-flush bit
            let ttl = *cx.pick(&(0..32).map(|b| 1u32 << b).chain([0, 4500, 75 * 60, 0xffff_ffff, 0x7fff_ffff]).collect::<Vec<_>>());
            let class = *cx.pick(&[1u16, 0x8001]);
            c.what = format!("TTL {ttl} class {class:#x}");
            let t = target(b"x", &c.svc, b"_tcp");
            c.dgs.push(resp().rr(1, &o, class, ttl, &p(&t)).ans(&o, &p(&first)).done());
        }
        6 => {
            // header flags and IDs of a response
            let (id, flags) = if cx.flag() { (cx.choose(65536) as u16, 0x8400) } else { (0x3039, 0x8000 | cx.choose(2048) as u16) };
            c.what = format!("ID {id} flags {flags:#x}");
            let t = target(b"x", &c.svc, b"_tcp");
            c.dgs.push(Build::new(id, flags).ans(&o, &p(&t)).done());
        }
        7 => {
            // as many compressed answers as fit into one datagram, after which more may follow
            let n = cx.choose(93);
            let twice = cx.flag();
            let tail: Vec<u8> = if inst { vec![0xc0, 12] } else { vec![4, b'_', b't', b'c', b'p', 5, b'l', b'o', b'c', b'a', b'l', 0] };
            let n = if inst { n } else { n.min(55) };
            c.what = format!("{n} compressed answers in one datagram");
            let mut b = resp().q(&o, rd::PTR, 1);
            for k in 0..n {
                // single-byte instance names that need care: every byte from 0x40 on
                let l: Vec<u8> = if inst { vec![0x40 + k as u8] } else { vec![b'_', 0x40 + k as u8] };
                b.body.extend_from_slice(&[0xc0, 12, 0, 12, 0x80, 1, 0, 0, 0, 120]);
                rd::put16(&mut b.body, (1 + l.len() + tail.len()) as u16);
                b.body.push(l.len() as u8);
                b.body.extend_from_slice(&l);
                b.body.extend_from_slice(&tail);
                b.counts[1] += 1;
            }
            let d = b.done();
            if d.len() <= 1500 {
                if twice {
                    c.dgs.push(d.clone());
                }
                c.dgs.push(d);
            }
            c.dgs.push(resp().ans(&o, &p(&first)).done());
        }
        8 => {
            // different targets that print the same
            let u = if inst { vec![c.svc.clone(), tl(c.tcp).to_vec()] } else { vec![] };
            let pairs: [(&[&[u8]], &[&[u8]]); 5] = [
                (&[b"a._b", b"_c", b"_tcp"], &[b"a", b"_b._c", b"_tcp"]),
                (&[b"_b", b"_tcp"], &[b"_b\\", b"_tcp"]),
                (&[b"_a b", b"_tcp"], &[b"_a\\032b", b"_tcp"]),
                (&[b"_a.b", b"_udp"], &[b"_a\\.b", b"_udp"]),
                (&[b"_a._udp", b"_tcp"], &[b"_a", b"_udp"]),
            ];
            let (x, y) = *cx.pick(&pairs);
            let mk = |l: &[&[u8]]| -> Name {
                let mut v: Name = l.iter().map(|l| l.to_vec()).collect();
                if inst && v.len() < 3 {
                    v = [vec![v[0].clone()], u.clone()].concat();
                } else if !inst && v.len() > 2 {
                    v.remove(0);
                }
                v.push(b"local".to_vec());
                v
            };
            let (x, y) = (mk(x), mk(y));
            let (x, y) = if cx.flag() { (x, y) } else { (y, x) };
            c.what = format!("{} and {}", rd::show_name(&x), rd::show_name(&y));
            if cx.flag() {
                c.dgs.push(resp().ans(&o, &p(&x)).ans(&o, &p(&y)).ans(&o, &p(&x)).done());
            } else {
                c.dgs.push(resp().ans(&o, &p(&x)).done());
                c.dgs.push(resp().ans(&o, &p(&y)).ans(&o, &p(&first)).done());
            }
        }
        11 => {
            let t = target(b"x", &c.svc, b"_tcp");
            let head = if cx.flag() { resp().q(&o, rd::PTR, 1) } else { resp() };
            let d = around(cx, head, |b| b.ans(&o, &p(&t)), &mut c.what);
            c.dgs.push(d);
        }
        10 => {
            // answers for all names next to the one asked for, then its own
            let kin = corpus::kin(&o);
            let at = cx.choose(kin.len() / 6 + 1);
            let t = target(b"x", &c.svc, b"_tcp");
            for f in kin.iter().skip(at * 6).take(6) {
                c.dgs.push(resp().ans(f, &p(&t)).done());
            }
            c.what = format!("domain {}, foreign answers {}..", rd::show_name(&c.domain), at * 6);
            let t = target(b"y", &c.svc, b"_tcp");
            c.dgs.push(resp().ans(&swapcase(&o), &p(&t)).ans(&o, &p(&first)).done());
        }
        _ => {
            // the owner: any name next to the one asked for
            let l = cx.pick(corpus::labels()).clone();
            let at = cx.choose(o.len() + 1);
            let replace = cx.flag();
            let mut f = o.clone();
            if at < o.len() && replace {
                f[at] = l;
            } else {
                f.insert(at, l);
            }
            c.what = format!("owner {}", rd::show_name(&f));
            let t = target(b"x", &c.svc, b"_tcp");
            c.dgs.push(resp().ans(&f, &p(&t)).ans(&o, &p(&first)).done());
        }
    }
    c
}
fn family<T>(cell: &'static std::sync::OnceLock<Vec<T>>, f: impl FnOnce() -> Vec<T>) -> &'static [T] {
    cell.get_or_init(f)
}
/// Every damaged datagram (possibly with something of use before the damage), then an intact one.
pub fn ptr_broken(cx: &mut Cx, inst: bool) -> Case {
    static V: [std::sync::OnceLock<Vec<corpus::Broken>>; 2] = [const { std::sync::OnceLock::new() }; 2];
    let (svc, owner) = if inst { (&b"_svc"[..], rd::n("_svc._tcp.local")) } else { (&b""[..], rd::n("_services._dns-sd._udp.local")) };
    let t = |l: &str| if inst { ptr(&format!("{l}._svc._tcp.local")) } else { ptr(&format!("_{l}._tcp.local")) };
    let v = family(&V[inst as usize], || {
        let mut v = vec![];
        for head in [resp(), resp().ans(&owner, &t("early")), resp().q(&owner, rd::PTR, 1).ans(&owner, &t("early")), Build::new(0x3039, 0).q(&owner, rd::PTR, 1)] {
            v.extend(corpus::broken(&head));
        }
        v.extend(corpus::bad_data(&resp(), &owner));
        v.extend(corpus::bad_data(&resp().ans(&owner, &t("early")), &owner));
        v.extend(corpus::shorts().iter().cloned());
        v
    });
    let b = cx.pick(v);
    let good = resp().ans(&owner, &t("late")).done();
    Case { inst: vec![], svc: svc.to_vec(), tcp: true, domain: rd::n("local"), owner, dgs: vec![b.data.clone(), good], what: b.what.clone() }
}
/// SRV and TXT answers with every value of each part.
pub fn det_values(cx: &mut Cx) -> Case {
    let mut c = Case { inst: b"inst".to_vec(), svc: b"_svc".to_vec(), tcp: true, domain: rd::n("local"), owner: vec![], dgs: vec![], what: String::new() };
    let mut srv = (0, 0, 80, rd::n("h.local"));
    let mut t: Vec<Vec<u8>> = vec![b"k=v".to_vec()];
    let mut ttl = 120;
    let mut class = 0x8001;
    let (mut id, mut flags) = (0x3039, 0x8400);
    let mut near: Vec<Name> = vec![];
    let mut fill = false;
    match cx.choose(11) {
        10 => fill = true,
        0 => c.inst = cx.pick(corpus::labels()).clone(),
        1 => {
            c.svc = as_service(cx.pick(corpus::labels()));
            c.tcp = cx.flag();
        }
        2 => srv.3 = cx.pick(corpus::hosts()).clone(),
        3 => srv.2 = cx.choose(65536) as u16,
        4 => {
            let v = cx.choose(65536) as u16;
            match cx.choose(3) {
                0 => srv.0 = v,
                1 => srv.1 = v,
                _ => (srv.0, srv.1, srv.2) = (!v, v, v ^ 0x00ff),
            }
        }
        5 => t = cx.pick(corpus::metadata()).clone(),
        6 => {
            ttl = *cx.pick(&(0..32).map(|b| 1u32 << b).chain([0, 4500, 0xffff_ffff]).collect::<Vec<_>>());
            class = *cx.pick(&[1u16, 0x8001]);
        }
        7 => {
            if cx.flag() {
                id = cx.choose(65536) as u16;
            } else {
                flags = 0x8000 | cx.choose(2048) as u16;
            }
        }
        8 => {
            // any domain; foreign answers under all names next to the instance's
            c.domain = cx.pick(domains()).clone();
            c.inst = cx.pick(&[&b"inst"[..], b"My \xc3\x89. x"]).to_vec();
            c.tcp = cx.flag();
            let o: Name = [&[c.inst.clone(), c.svc.clone(), tl(c.tcp).to_vec()], &c.domain[..]].concat();
            let kin = corpus::kin(&o);
            let at = cx.choose(kin.len() / 6 + 1);
            near = kin.iter().cloned().skip(at * 6).take(6).collect();
        }
        _ => {
            // foreign answers under any name next to the instance's
            let o = with_local(&[&c.inst, &c.svc, b"_tcp"]);
            let l = cx.pick(corpus::labels()).clone();
            let at = cx.choose(o.len() + 1);
            let mut f = o.clone();
            if at < o.len() && cx.flag() {
                f[at] = l;
            } else {
                f.insert(at, l);
            }
            near = vec![f];
        }
    }
    c.owner = [&[c.inst.clone(), c.svc.clone(), tl(c.tcp).to_vec()], &c.domain[..]].concat();
    let s = Data::Srv(srv.0, srv.1, srv.2, srv.3.clone());
    let x = Data::Txt(t.clone());
    let b = || Build::new(id, flags);
    c.what = format!("{} SRV {} {} {} {}, {} entries, TTL {ttl}, ID {id:#x}, flags {flags:#x}", rd::show_name(&c.owner), srv.0, srv.1, srv.2, rd::show_name(&srv.3), t.len());
    for f in near {
        c.what = format!("answers for {}", rd::show_name(&f));
        c.dgs.push(b().rr(1, &f, class, ttl, &Data::Srv(0, 0, 66, rd::n("evil.local"))).rr(1, &f, class, ttl, &txt(&[b"evil"])).done());
    }
    // in one datagram, in two either way round, with other-case owners
    match cx.choose(3) {
        k if fill => {
            let mut w = String::new();
            let d = match k {
                0 => around(cx, b(), |b| b.ans(&c.owner, &s).ans(&c.owner, &x), &mut w),
                1 => around(cx, b(), |b| b.ans(&c.owner, &x).ans(&c.owner, &s), &mut w),
                _ => around(cx, b().ans(&c.owner, &s), |b| b.ans(&c.owner, &x), &mut w),
            };
            c.what = w;
            c.dgs.push(d);
        }
        0 => c.dgs.push(b().rr(1, &c.owner, class, ttl, &s).rr(1, &c.owner, class, ttl, &x).done()),
        1 => {
            c.dgs.push(b().rr(1, &c.owner, class, ttl, &x).done());
            c.dgs.push(b().rr(1, &swapcase(&c.owner), class, ttl, &s).done());
        }
        _ => {
            c.dgs.push(b().rr(1, &swapcase(&c.owner), class, ttl, &s).done());
            c.dgs.push(b().rr(1, &c.owner, class, ttl, &x).done());
        }
    }
    c
}
pub fn det_broken(cx: &mut Cx) -> Case {
    static V: std::sync::OnceLock<Vec<corpus::Broken>> = std::sync::OnceLock::new();
    let owner = rd::n("inst._svc._tcp.local");
    let s = Data::Srv(0, 0, 80, rd::n("early.local"));
    let v = family(&V, || {
        let mut v = vec![];
        for head in [resp(), resp().ans(&owner, &txt(&[b"early"])), resp().q(&owner, rd::SRV, 1).ans(&owner, &s), Build::new(0x3039, 0).q(&owner, rd::SRV, 1)] {
            v.extend(corpus::broken(&head));
        }
        v.extend(corpus::bad_data(&resp(), &owner));
        v.extend(corpus::bad_data(&resp().ans(&owner, &s), &owner));
        v.extend(corpus::shorts().iter().cloned());
        v
    });
    let b = cx.pick(v);
    let good = resp().ans(&owner, &Data::Srv(0, 0, 443, rd::n("late.local"))).ans(&owner, &txt(&[b"late"])).done();
    Case { inst: b"inst".to_vec(), svc: b"_svc".to_vec(), tcp: true, domain: rd::n("local"), owner, dgs: vec![b.data.clone(), good], what: b.what.clone() }
}
/// Responses to an address query with every value of each part. ID 0x3039 stands for the query's.
pub fn addr_values(cx: &mut Cx) -> Case {
    let mut owner = rd::n("Host.example.org");
    let r = || Build::new(0x3039, 0x8180);
    let a = |k: u8| Data::A([192, 0, 2, k]);
    let ad = |i: &std::net::IpAddr| match i {
        std::net::IpAddr::V4(a) => Data::A(a.octets()),
        std::net::IpAddr::V6(a) => Data::Aaaa(a.octets()),
    };
    let mut dgs = vec![];
    let what;
    match cx.choose(10) {
        9 => {
            let mut w = String::new();
            let al = rd::n("al.example");
            let alias = cx.flag();
            let head = if alias { r().ans(&owner, &Data::Name(rd::CNAME, al.clone())) } else { r().q(&owner, rd::A, 1) };
            let o = if alias { al } else { owner.clone() };
            dgs.push(around(cx, head, |b| b.ans(&o, &a(5)), &mut w));
            what = w;
        }
        0 => {
            let i = cx.pick(corpus::addrs());
            what = format!("address {i}");
            dgs.push(r().ans(&owner, &ad(i)).ans(&owner, &a(9)).done());
        }
        1 => {
            // any name
            owner = cx.pick(corpus::hosts()).clone();
            what = format!("name {}", rd::show_name(&owner));
            dgs.push(r().q(&owner, rd::A, 1).ans(&swapcase(&owner), &a(1)).ans(&owner, &a(2)).done());
        }
        2 => {
            // any alias
            let h = cx.pick(corpus::hosts()).clone();
            what = format!("alias {}", rd::show_name(&h));
            let o = if cx.flag() { swapcase(&owner) } else { owner.clone() };
            dgs.push(r().ans(&o, &Data::Name(rd::CNAME, h.clone())).ans(&h, &a(1)).ans(&swapcase(&h), &a(2)).done());
        }
        3 => {
            // numbers of addresses, up to what fits into a datagram
            let n = cx.choose(100);
            let style = cx.choose(4);
            what = format!("{n} addresses, style {style}");
            let mut b = r();
            if style == 1 {
                owner = vec![];
            }
            if style > 1 {
                b = b.q(&owner, rd::A, 1);
            }
            for k in 0..n {
                let d = if style % 2 == 0 && k % 3 == 1 { Data::Aaaa([k as u8; 16]) } else { a(k as u8) };
                let c = b.clone();
                if style > 1 {
                    // compressed
                    let raw = match &d {
                        Data::A(a) => a.to_vec(),
                        Data::Aaaa(a) => a.to_vec(),
                        _ => unreachable!(),
                    };
                    b.body.extend_from_slice(&[0xc0, 12]);
                    rd::put16(&mut b.body, d.ty());
                    b.body.extend_from_slice(&[0, 1, 0, 0, 0, 60]);
                    rd::put16(&mut b.body, raw.len() as u16);
                    b.body.extend_from_slice(&raw);
                    b.counts[1] += 1;
                } else {
                    b = b.ans(&owner, &d);
                }
                if b.pos() > 1500 {
                    b = c;
                }
            }
            dgs.push(b.done());
        }
        4 => {
            // alias chains of any length, in order, backwards, interleaved
            let n = cx.choose(31);
            let order = cx.choose(3);
            let case = cx.flag();
            let name = |k: usize| if k == 0 { owner.clone() } else { rd::n(&format!("c{k}.x")) };
            let mut rr: Vec<(Name, Data)> = (0..n).map(|k| (name(k), Data::Name(rd::CNAME, name(k + 1)))).collect();
            rr.push((name(n), a(7)));
            rr.push((name(n + 1), a(66)));
            if order == 1 {
                rr.reverse();
            }
            if order == 2 {
                let (x, y): (Vec<_>, Vec<_>) = rr.into_iter().enumerate().partition(|(i, _)| i % 2 == 1);
                rr = x.into_iter().chain(y).map(|x| x.1).collect();
            }
            what = format!("chain of {n} aliases, order {order}, case {case}");
            for (n, _) in rr.iter_mut().filter(|_| case) {
                *n = swapcase(n);
            }
            dgs.push(rr.iter().fold(r(), |b, (n, d)| b.ans(n, d)).done());
        }
        5 => {
            // other IDs are not the answer
            let x = cx.choose(65536) as u16;
            what = format!("ID off by {x:#x}");
            dgs.push(Build::new(0x3039 ^ x, 0x8180).ans(&owner, &a(if x == 0 { 1 } else { 66 })).done());
            // (a datagram that happens to carry the placeholder ID is patched to the query's)
        }
        6 => {
            // whatever else the header says, with any TTL and the cache-flush bit of mDNS
            let f = 0x8000 | cx.choose(2048) as u16;
            let ttl = *cx.pick(&[60u32, 0, 1, 0xffff_ffff]);
            let class = *cx.pick(&[1u16, 0x8001]);
            what = format!("flags {f:#x}, TTL {ttl}, class {class:#x}");
            dgs.push(Build::new(0x3039, f).rr(1, &owner, class, ttl, &Data::Name(rd::CNAME, rd::n("c.x"))).rr(1, &owner, class, ttl, &a(1)).rr(1, &rd::n("c.x"), class, ttl, &Data::Aaaa([7; 16])).done());
        }
        7 => {
            // addresses of, and aliases from, names next to the one asked for
            owner = cx.pick(corpus::bases()).clone();
            let kin = corpus::kin(&owner);
            let at = cx.choose(kin.len() / 6 + 1);
            let alias = cx.flag();
            what = format!("name {}, foreign answers {}..", rd::show_name(&owner), at * 6);
            for f in kin.iter().skip(at * 6).take(6) {
                let x = rd::n("evil.example");
                dgs.push(if alias { r().ans(f, &Data::Name(rd::CNAME, x.clone())).ans(&x, &a(66)).done() } else { r().ans(f, &a(66)).ans(f, &Data::Aaaa([6; 16])).done() });
            }
            let al = rd::n("al.example");
            if alias {
                dgs.push(r().ans(&swapcase(&owner), &Data::Name(rd::CNAME, al.clone())).ans(&swapcase(&al), &a(3)).done());
            } else {
                dgs.push(r().ans(&swapcase(&owner), &a(3)).done());
            }
        }
        _ => {
            let l = cx.pick(corpus::labels()).clone();
            let at = cx.choose(owner.len() + 1);
            let mut f = owner.clone();
            if at < owner.len() && cx.flag() {
                f[at] = l;
            } else {
                f.insert(at, l);
            }
            what = format!("addresses of {}", rd::show_name(&f));
            dgs.push(r().ans(&f, &a(66)).ans(&f, &Data::Aaaa([6; 16])).done());
        }
    }
    dgs.push(r().ans(&owner, &a(200)).ans(&owner, &Data::Aaaa([0xfe; 16])).done());
    Case { inst: vec![], svc: vec![], tcp: true, domain: rd::n("local"), owner, dgs, what }
}
pub fn addr_broken(cx: &mut Cx) -> Case {
    static V: std::sync::OnceLock<Vec<corpus::Broken>> = std::sync::OnceLock::new();
    let owner = rd::n("host.example");
    let r = || Build::new(0x3039, 0x8180);
    let a = Data::A([66, 6, 6, 6]);
    let v = family(&V, || {
        let mut v = vec![];
        v.extend(corpus::broken(&r()));
        v.extend(corpus::broken(&r().q(&owner, rd::A, 1)));
        for head in [r().ans(&owner, &a), r().q(&owner, rd::A, 1).ans(&owner, &Data::Aaaa([6; 16])).ans(&owner, &a)] {
            // what damage behind the answers means is left open
            v.extend(corpus::broken(&head).into_iter().filter(|b| matches!(rd::parse(&b.data).unwrap().err, Some((0 | 1, _)))));
        }
        v.extend(corpus::bad_data(&r(), &owner));
        v.extend(corpus::bad_data(&r().ans(&owner, &a), &owner));
        v.extend(corpus::shorts().iter().cloned());
        v
    });
    let b = cx.pick(v);
    let good = r().ans(&owner, &Data::A([192, 0, 2, 1])).done();
    Case { inst: vec![], svc: vec![], tcp: true, domain: rd::n("local"), owner, dgs: vec![b.data.clone(), good], what: b.what.clone() }
}
/// Damaged or odd datagrams for an advertiser that has host.local.
pub fn adv_broken() -> &'static [corpus::Broken] {
    static V: std::sync::OnceLock<Vec<corpus::Broken>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let host = rd::n("host.local");
        let mut v = vec![];
        for flags in [0u16, 0x8400, 0x0100] {
            v.extend(corpus::broken(&Build::new(7, flags)));
            v.extend(corpus::broken(&Build::new(7, flags).q(&host, 255, 1)));
        }
        v.extend(corpus::bad_data(&Build::new(7, 0x8400), &host));
        v.extend(corpus::bad_data(&Build::new(7, 0).q(&host, 1, 1), &host));
        v.extend(corpus::shorts().iter().cloned());
        // every length, well-formed or not
        for n in (12..=1600).chain([2000, 4096, 9000, 65507]) {
            let mut d = Build::new(9, 0).q(&host, 1, 1).done();
            d.resize(n, 0x3f);
            v.push(corpus::Broken { what: format!("query resized to {n} bytes"), data: d });
            v.push(corpus::Broken { what: format!("{n} bytes of noise"), data: (0..n).map(|i| (i * 37 % 251) as u8).collect() });
        }
        v
    })
}

/// A query for host.local in a datagram of any length up to 1500 bytes, behind other questions or
/// before useless records.
pub fn sized_query(cx: &mut Cx) -> (String, Vec<u8>) {
    let host = rd::n("host.local");
    let total = 1500 - cx.choose(1460);
    let style = cx.choose(3);
    let mut b = Build::new(0x5151, 0);
    let own = rd::name_len(&host) + 4;
    match style {
        0 => b = filled(b.q(&host, 1, 1), total),
        _ => {
            // foreign questions of up to 259 (27) bytes, then the one that matches
            let step = [259, 27][style - 1];
            while b.pos() + own < total {
                let rest = total - own - b.pos();
                let k = if rest <= step { rest } else { step.min(rest - 7) };
                if k < 7 {
                    // no question is that short
                    break;
                }
                b = b.q(&corpus::sized(k - 4, 63), 1, 1);
            }
            b = b.q(&host, 1, 1);
        }
    }
    let d = b.done();
    (format!("query of {} bytes, style {style}", d.len()), d)
}
/// A discovery operation among rough edges: timers that fire late, computing that takes time.
#[derive(Clone, Debug)]
pub struct Rough {
    pub kind: usize,
    pub r: u64,
    pub d: u64,
    pub late: u64,
    pub tick: u64,
    /// Time a callback takes.
    pub cost: u64,
    /// Times of arrival.
    pub arr: Vec<u64>,
}
impl Rough {
    pub fn pick(cx: &mut Cx, n: usize) -> Rough {
        let kind = cx.choose(3);
        let r = *cx.pick(&[100 * MS, 7 * MS, 300 * MS]);
        let d = *cx.pick(&[1000 * MS + 500_000, 0, MS + 500_000, 299 * MS + 500_000, 301 * MS + 500_000]);
        let (late, tick) = *cx.pick(&[(0, 0), (1_000, 0), (60_000, 0), (4 * MS, 0), (2_000 * MS, 0), (1_000, 1), (60_000, 777), (4 * MS, 50_000), (1_000, 20_000)]);
        let cost = if kind == 2 { 0 } else { *cx.pick(&[0, 3 * MS, 250 * MS, 5_000 * MS]) };
        let mut t = 0;
        let mut arr = vec![];
        for _ in 0..n {
            let Some(&g) = [0, MS, r - MS, r + 2 * MS, d / 2, d, 2 * r].get(cx.choose(8)) else { break };
            t += g + 1_000;
            arr.push(t);
        }
        Rough { kind, r, d, late, tick, cost, arr }
    }
    pub fn world(&self) -> World<'static> {
        let mut w = World::new();
        w.late = self.late;
        w.tick = self.tick;
        for (i, &t) in self.arr.iter().enumerate() {
            let b = Build::new(12345, 0x8400);
            let d = match self.kind {
                0 => b.ans(&rd::n("_svc._tcp.local"), &ptr(&format!("i{i}._svc._tcp.local"))),
                1 => b.ans(&rd::n("_services._dns-sd._udp.local"), &ptr(&format!("_s{i}._tcp.local"))),
                _ => b.ans(&rd::n("inst._svc._tcp.local"), &txt(&[b"a=b"])),
            };
            w.arrive(t, peers()[i % 3], d.done());
        }
        w
    }
    /// `calls`: when callbacks began and ended.
    pub fn judge(&self, w: &World, t0: u64, end: u64, calls: &[(u64, u64)]) -> Result<(), String> {
        let ticks = 64 * self.tick;
        let slack = self.late + ticks;
        let limit = t0 + self.d;
        let us = |t: u64| format!("{}.{:03} us", t.saturating_sub(t0) / 1000, t.saturating_sub(t0) % 1000);
        let mut last = None;
        let mut busy = t0;
        let mut recvs = 0;
        for e in &w.log {
            let (t, send) = match e {
                Ev::Send { t, .. } => (*t, true),
                Ev::Recv { t, .. } => (*t, false),
                _ => continue,
            };
            busy = calls.iter().filter(|c| c.0 <= t).map(|c| c.1).max().unwrap_or(0).max(busy);
            match last {
                None => ensure!(send && t <= t0 + ticks, "the first query was not sent at once but after {}", us(t)),
                Some(l) => {
                    ensure!(t <= busy + self.r + slack, "silence from {} to {} without a query", us(busy), us(t));
                    ensure!(!send || t + ticks >= l + self.r, "query sent after {} although something happened at {}", us(t), us(l));
                    ensure!(t <= limit + slack, "still {} after {}, the limit is {}", if send { "sending" } else { "receiving" }, us(t), us(limit));
                }
            }
            recvs += !send as usize;
            last = Some(t);
            busy = busy.max(t);
        }
        busy = calls.iter().map(|c| c.1).max().unwrap_or(0).max(busy);
        ensure!(last.is_some(), "no query was sent");
        ensure!(end <= busy.max(limit) + slack, "the operation ended after {}, the limit is {}, the last callback ended after {}", us(end), us(limit), us(busy));
        ensure!(end <= busy + self.r + slack, "silence from {} to the end after {} without a query", us(busy), us(end));
        ensure!(end + 1_000 >= limit, "the operation ended after {}, before its limit of {}", us(end), us(limit));
        ensure!(self.kind == 2 || calls.len() == recvs, "{} callbacks for {recvs} announcements", calls.len());
        Ok(())
    }
}

/// A service instance, or with an empty first label a service.
pub type Who = (Vec<u8>, Vec<u8>, bool);
pub fn who_name(w: &Who) -> Name {
    let mut n = vec![w.0.clone(), w.1.clone(), if w.2 { b"_tcp".to_vec() } else { b"_udp".to_vec() }, b"local".to_vec()];
    n.retain(|l| !l.is_empty());
    n
}
/// One, and another one easy to take for it.
pub fn pick_kin(cx: &mut Cx, inst: bool) -> (Who, Who) {
    let l = cx.pick(corpus::bases())[0].clone();
    let near: Vec<Vec<u8>> = corpus::kin(&vec![l.clone()]).iter().filter(|n| n.len() == 1).map(|n| n[0].clone()).collect();
    let us = |x: &[u8]| -> Vec<u8> {
        let mut v = [b"_", x].concat();
        v.truncate(63);
        v
    };
    let i: Vec<u8> = if inst { b"inst".to_vec() } else { vec![] };
    match cx.choose(if inst { 6 } else { 3 }) {
        0 => {
            let k = cx.pick(&near);
            let (a, b) = (us(&l), us(k));
            ((i.clone(), a, true), (i, b, true))
        }
        1 => ((i.clone(), us(&l), true), (i, us(&l), false)),
        2 => {
            let k = cx.pick(&near);
            ((i.clone(), us(&l), false), (i, us(k), true))
        }
        3 => {
            let k = cx.pick(&near).clone();
            ((l, b"_svc".to_vec(), true), (k, b"_svc".to_vec(), true))
        }
        4 => {
            // the border between instance and service moved
            let l = us(&l[..l.len().min(56)]);
            ((b"x".to_vec(), [&l[..], b"._svc"].concat(), true), ([&b"x."[..], &l].concat(), b"_svc".to_vec(), true))
        }
        _ => {
            let k = cx.pick(&near).clone();
            ((l.clone(), us(&k), true), (k, us(&l), true))
        }
    }
}
