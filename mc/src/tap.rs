//! C24: the blocking tap on a virtual network, its log output captured.
use crate::adv::check_setup;
use crate::{conv, pool};
use uwuhi::packet::{Opcode, RCode};
use uwuhi::tap::SyncTap;
use vcore::explore::{catch, Property, Scenario};
use vcore::refdns::{self as rd, Build, Data};
use vcore::world::{Ev, World, MS};
use vcore::{corpus, ensure, ensure_eq, logcap, util, Cx};

type R = Result<(), String>;
const MARK: [&str; 4] = ["Q: ", "ANS: ", "AUTH: ", "ADDL: "];

/// One expected line; `exact` false: the line may go on.
struct Line {
    text: String,
    exact: bool,
}
/// What the tap has to log about a received packet (already cut to the receive buffer).
fn lines(p: &[u8]) -> Option<(rd::Msg, Vec<Line>)> {
    let m = rd::parse(p)?;
    let mut v = vec![];
    for q in &m.q {
        v.push(Line { text: format!("{}{}\t{}\t{}", MARK[0], conv::dn(&q.name), conv::qcls(q.qclass), conv::qty(q.qtype)), exact: true });
    }
    for s in 0..3 {
        for r in &m.rr[s] {
            let head = format!("{}{}\t{}\t{}\t{}\t", MARK[s + 1], conv::dn(&r.name), r.ttl, conv::cls(r.class), conv::ty(r.ty));
            match rd::data(p, r.start, r.end, r.ty) {
                // an empty list of TXT entries cannot be built for comparison
                Some(Ok(d)) if d != Data::Txt(vec![]) => v.push(Line { text: format!("{head}{}", conv::rec(&d)), exact: true }),
                _ => v.push(Line { text: head, exact: false }),
            }
        }
    }
    Some((m, v))
}
fn check_header(line: &str, m: &rd::Msg) -> R {
    ensure!(line.starts_with(if m.response() { "response" } else { "query" }), "header line '{line}' has the wrong direction (flags {:#06x})", m.flags);
    let inner = line.split_once('(').and_then(|x| x.1.strip_suffix(')')).unwrap_or("");
    let f: Vec<&str> = inner.split(", ").collect();
    let has = |s: &str| f.contains(&s);
    ensure!(has(&format!("id={}", m.id)), "header line '{line}' lacks the ID {}", m.id);
    let op: Opcode = bytemuck::cast(m.opcode());
    ensure!(has(&format!("op={op}")), "header line '{line}' lacks the opcode {op}");
    let rc: RCode = bytemuck::cast(m.rcode());
    ensure!(has(&format!("rcode={rc}")), "header line '{line}' lacks the response code {rc}");
    for (t, b) in [("trunc", rd::TC), ("RA", rd::RA), ("RD", rd::RD), ("AA", rd::AA)] {
        ensure!(has(t) == (m.flags & b != 0), "header line '{line}' for flags {:#06x}: {t}", m.flags);
    }
    Ok(())
}
fn is_header(l: &str) -> bool {
    l.starts_with("query (") || l.starts_with("response (")
}
/// Compares the captured lines with what the received packets call for.
fn judge(got: &[String], packets: &[&[u8]]) -> R {
    let got: Vec<&String> = got.iter().filter(|l| is_header(l) || MARK.iter().any(|m| l.starts_with(m))).collect();
    let mut i = 0;
    for (k, p) in packets.iter().enumerate() {
        let Some((m, want)) = lines(&p[..p.len().min(1500)]) else { continue };
        let Some(h) = got.get(i) else { return Err(format!("nothing was logged for packet {k} ({})", util::show(p))) };
        ensure!(is_header(h), "packet {k}: expected the header line of {}, logged '{h}'", util::show(p));
        check_header(h, &m).map_err(|e| format!("packet {k}: {e}"))?;
        i += 1;
        for w in want {
            let Some(l) = got.get(i) else { return Err(format!("packet {k}: '{}' was not logged", w.text)) };
            ensure!(if w.exact { **l == w.text } else { l.starts_with(&w.text) }, "packet {k}: logged '{l}', expected '{}'", w.text);
            i += 1;
        }
    }
    ensure!(i == got.len(), "logged '{}', which no packet calls for", got[i]);
    Ok(())
}
/// Runs the tap over the packets; the socket fails at receive `err.0`, or after the last packet.
fn run(packets: &[&[u8]], err: Option<(usize, i32)>, gap: u64) -> Result<(), String> {
    let mut w = World::new();
    w.horizon = 20_000 + 40 * packets.len();
    for (i, p) in packets.iter().enumerate() {
        w.arrive(i as u64 * gap, pool::peers()[i % 3], p.to_vec());
    }
    w.recv_err = err;
    logcap::start_capture();
    let r = w.run(|| catch(|| SyncTap::new().map_err(|e| format!("creating a tap failed: {e}")).map(|t| t.listen())));
    let log: Vec<String> = logcap::take_capture().into_iter().filter(|l| l.0 <= log::Level::Debug).map(|l| l.1).collect();
    let r = r.map_err(|e| format!("the tap panicked: {e}"))??;
    let want = err.filter(|e| e.0 <= packets.len()).map_or(libc::EIO, |e| e.1);
    match r {
        Ok(()) => return Err("the tap returned without an error".into()),
        Err(e) => ensure_eq!(e.raw_os_error(), Some(want), "the tap ended with another error than the socket's"),
    }
    let n = err.map_or(packets.len(), |e| e.0.min(packets.len()));
    ensure!(w.recv_taken == n, "the tap stopped after {} of {n} packets", w.recv_taken);
    ensure!(w.sends().is_empty(), "the tap sent something");
    check_setup(&w.log)?;
    judge(&log, &packets[..n])
}

fn full() -> Vec<u8> {
    let n = rd::n;
    Build::new(0xabcd, 0x8580)
        .q(&n("q1.example"), rd::A, 1)
        .q(&n("q2.example"), 255, 0x80ff)
        .ans(&n("a.example"), &Data::A([1, 2, 3, 4]))
        .rr(1, &n("b.example"), 0x8001, 0xffff_ffff, &Data::Name(rd::CNAME, n("c.example")))
        .rr(2, &n("ns.example"), 3, 0, &Data::Name(rd::NS, n("d.example")))
        .rr(3, &n("x.example"), 1, 7, &Data::Raw(41, vec![0, 3]))
        .rr(3, &vec![], 255, 1, &Data::Txt(vec![b"k=v".to_vec(), vec![]]))
        .done()
}
fn tap_pool() -> Vec<(&'static str, Vec<u8>)> {
    let n = rd::n;
    let f = full();
    let mut count = f.clone();
    count[11] = 3;
    let mut big = Build::new(7, 0x8400);
    for i in 0..9u8 {
        big = big.ans(&n("big.example"), &Data::Txt(vec![vec![b'a' + i; 150]]));
    }
    let big = big.done();
    let mut huge = Build::new(8, 0x8600);
    for i in 0..40u8 {
        huge = huge.ans(&n("huge.example"), &Data::Txt(vec![vec![i; 100]]));
    }
    let soa = Build::new(9, 0)
        .rr(2, &n("z.example"), 1, 5, &Data::Soa(n("m.example"), n("r.example"), [1, 2, 3, 4, 5]))
        .rr(3, &n("z.example"), 4, 5, &Data::Mx(10, n("mx.example")))
        .rr(3, &n("_s._tcp.z"), 1, 5, &Data::Srv(1, 2, 3, n("t.example")))
        .rr(3, &n("z.example"), 1, 5, &Data::Aaaa([7; 16]))
        .done();
    vec![
        ("all sections", f.clone()),
        ("header only", vec![0xff; 4].into_iter().chain([0; 8]).collect()),
        ("announces one more", count),
        ("cut in the authority section", f[..f.len() - 60].to_vec()),
        ("other records", soa),
        ("question that loops", b"\x00\x01\x01\x00\x00\x02\x00\x01\x00\x00\x00\x00\x01a\x00\x00\x01\x00\x01\xc0\x20\x00\x01\x00\x01".to_vec()),
        ("address of 3 bytes", Build::new(3, 0x8000).ans(&n("a"), &Data::Raw(rd::A, vec![1, 2, 3])).rr(3, &n("b"), 1, 1, &Data::A([4, 4, 4, 4])).done()),
        ("odd labels", Build::new(4, 0x7800).q(&vec![vec![0, b'.', b'\n', 0xff], b"\\".to_vec()], 9999, 77).done()),
        ("fits the buffer", big),
        ("larger than the buffer", huge.done()),
        ("eleven bytes", vec![0; 11]),
        ("empty", vec![]),
        ("ones", vec![0xff; 1500]),
        ("reserved label", b"\x00\x01\x80\x00\x00\x00\x00\x01\x00\x01\x00\x00\x40\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00".to_vec()),
    ]
}
fn c24_loop(cx: &mut Cx) -> R {
    let p = tap_pool();
    let n = cx.by_tier(3, 4);
    let ks: Vec<usize> = (0..n).map(|_| cx.choose(p.len())).collect();
    let e = cx.dev(n + 2);
    let err = (e > 0).then(|| (e - 1, libc::ENETDOWN));
    cx.note(|| format!("{:?}, error {err:?}", ks.iter().map(|&k| p[k].0).collect::<Vec<_>>()));
    let v: Vec<&[u8]> = ks.iter().map(|&k| &p[k].1[..]).collect();
    run(&v, err, MS)?;
    cx.steps(n as u64);
    cx.state(&(&ks, e));
    cx.outcome(&e);
    Ok(())
}
/// Every one- or two-place damage of a message, before an intact one.
fn c24_damage(cx: &mut Cx) -> R {
    let p = tap_pool();
    let base = [&p[0].1, &p[4].1][cx.choose(2)].clone();
    let mut m = base.clone();
    match cx.choose(3) {
        0 => {
            let at = cx.choose(base.len());
            m.truncate(at);
            cx.note(|| format!("cut to {at} bytes"));
        }
        1 => {
            let at = cx.choose(base.len());
            let v = cx.choose(256) as u8;
            m[at] = v;
            cx.note(|| format!("byte {at} is {v}"));
        }
        _ => {
            let at = cx.choose(base.len() - 1);
            let b = *cx.pick(&[0xc0u8, 0xff, 0x3f, 0]);
            let c = *cx.pick(&[0x0cu8, 0x00, 0xff, 0x80]);
            m[at] = b;
            m[at + 1] = c;
            cx.note(|| format!("bytes {at}.. are {b:02x}{c:02x}"));
        }
    }
    run(&[&m, &base], None, 0)?;
    cx.steps(2);
    cx.state(&m);
    Ok(())
}
/// Every damaged message of the families between two intact ones.
fn c24_broken(cx: &mut Cx) -> R {
    static V: std::sync::OnceLock<Vec<corpus::Broken>> = std::sync::OnceLock::new();
    let v = V.get_or_init(|| {
        let n = rd::n("host.local");
        let mut v = vec![];
        for flags in [0u16, 0x8400] {
            let q = Build::new(7, flags).q(&n, 255, 1);
            let a = q.clone().ans(&n, &Data::A([192, 0, 2, 1]));
            let full = a.clone().rr(2, &n, 1, 5, &Data::Aaaa([1; 16])).rr(3, &n, 3, 6, &Data::Txt(vec![b"t".to_vec()]));
            for h in [Build::new(7, flags), q, a, full] {
                v.extend(corpus::broken(&h));
            }
        }
        v.extend(corpus::bad_data(&Build::new(7, 0x8400), &n));
        v.extend(corpus::bad_data(&Build::new(7, 0).q(&n, 1, 1), &n));
        v.extend(corpus::shorts().iter().cloned());
        v
    });
    let b = cx.pick(v);
    let twice = cx.flag();
    cx.note(|| b.what.clone());
    cx.state(&b.data);
    let f = full();
    let p: &[&[u8]] = if twice { &[&b.data, &b.data, &f] } else { &[&f, &b.data, &f] };
    cx.steps(3);
    run(p, None, MS).map_err(|e| format!("{}: {e}", b.what))
}
/// Questions and records with every value of each part, in every section.
fn c24_values(cx: &mut Cx) -> R {
    let sec = cx.choose(3);
    let o = rd::n("owner.example");
    let mut b = Build::new(1, 0x8400);
    match cx.choose(9) {
        0 => {
            let h = cx.pick(corpus::hosts());
            b = b.q(h, rd::A, 1).rr(sec + 1, h, 1, 1, &Data::A([1, 2, 3, 4]));
        }
        1 => {
            let h = cx.pick(corpus::hosts()).clone();
            b = b.rr(sec + 1, &o, 1, 1, &Data::Srv(1, 2, 3, h.clone())).rr(3, &o, 1, 1, &Data::Name(rd::PTR, h));
        }
        2 => {
            let h = cx.pick(corpus::hosts()).clone();
            b = b.rr(sec + 1, &o, 1, 1, &Data::Mx(9, h.clone())).rr(3, &o, 1, 1, &Data::Soa(h.clone(), rd::n("r"), [5, 4, 3, 2, 1]));
        }
        3 => {
            let t = cx.pick(corpus::metadata()).clone();
            if !t.is_empty() {
                b = b.rr(sec + 1, &o, 1, 1, &Data::Txt(t));
            }
        }
        4 => {
            let a = match cx.pick(corpus::addrs()) {
                std::net::IpAddr::V4(a) => Data::A(a.octets()),
                std::net::IpAddr::V6(a) => Data::Aaaa(a.octets()),
            };
            b = b.rr(sec + 1, &o, 1, 1, &a);
        }
        5 => {
            // types and classes, without data worth decoding
            let t = (cx.choose(256) as u16) << 8 | cx.choose(256) as u16;
            b = b.q(&o, t, 1).q(&o, 1, t).rr(sec + 1, &o, t, 1, &Data::A([1, 2, 3, 4]));
            if rd::data(&[0; 20], 12, 12, t).is_none() {
                b = b.rr(3, &o, 1, 1, &Data::Raw(t, vec![1, 2]));
            }
        }
        6 => {
            let ttl = *cx.pick(&(0..32).flat_map(|b| [1u32 << b, !(1u32 << b)]).collect::<Vec<_>>());
            b = b.rr(sec + 1, &o, 1, ttl, &Data::A([1, 2, 3, 4]));
        }
        7 => {
            let w = (cx.choose(16) as u16, cx.flag());
            let v = if w.1 { !(1u16 << w.0) } else { 1u16 << w.0 };
            b = b.rr(sec + 1, &o, 1, 1, &Data::Srv(v, !v, v.rotate_left(3), rd::n("t.example")));
        }
        _ => {
            // numbers of entries per section
            let n = cx.choose(60);
            for s in 1..=3 {
                for k in 0..if s == sec + 1 { n } else { 1 } {
                    b = b.rr(s, &vec![vec![b'a' + k as u8 % 26]], 1, k as u32, &Data::A([1, 2, 3, k as u8]));
                }
            }
        }
    }
    let m = b.done();
    cx.state(&m);
    cx.note(|| util::show(&m));
    cx.step();
    run(&[&m, &m], None, MS)
}
/// All header words, one block of 256 per execution.
fn c24_flags(cx: &mut Cx) -> R {
    let hi = cx.choose(256) as u8;
    let id = cx.flag();
    let mut v = vec![];
    for lo in 0..=255u8 {
        let mut m = full();
        let at = if id { 0 } else { 2 };
        m[at] = hi;
        m[at + 1] = lo;
        v.push(m);
    }
    let v: Vec<&[u8]> = v.iter().map(|m| &m[..]).collect();
    run(&v, None, 0)?;
    cx.steps(256);
    for m in v {
        cx.state(m);
    }
    Ok(())
}
/// Thousands of packets in one run.
fn c24_stream(cx: &mut Cx) -> R {
    let p = tap_pool();
    let n: usize = *cx.pick(cx.by_tier(&[100, 257, 1025, 66_000], &[100, 257, 1025, 10_000, 66_000]));
    let gap = *cx.pick(&[0u64, 10 * MS]);
    let what = cx.choose(p.len() + 2);
    // many at once: only such as say little
    if n > 60_000 && what != p.len() + 1 {
        return Ok(());
    }
    let small: Vec<usize> = (0..p.len()).filter(|&i| p[i].1.len() < 60).collect();
    cx.note(|| format!("{n} packets every {} us, kind {what}", gap / 1000));
    cx.state(&(n, gap, what));
    let v: Vec<&[u8]> = (0..n).map(|i| &p[if what < p.len() { what } else if what == p.len() { i % what } else { small[i % small.len()] }].1[..]).collect();
    run(&v, None, gap)?;
    cx.steps(n as u64);
    Ok(())
}
fn c24_setup(cx: &mut Cx) -> R {
    let e = *cx.pick(&[0, libc::EADDRINUSE, libc::EACCES]);
    let mut w = World::new();
    w.bind_err = (e != 0).then_some(e);
    let r = w.run(|| catch(|| SyncTap::new().map(|t| drop(t)))).map_err(|e| format!("creating a tap panicked: {e}"))?;
    cx.step();
    cx.state(&e);
    if e != 0 {
        ensure_eq!(r.err().and_then(|x| x.raw_os_error()), Some(e), "error of creating a tap");
        return Ok(());
    }
    ensure!(r.is_ok(), "creating a tap failed");
    check_setup(&w.log)?;
    ensure!(w.log.iter().any(|e| matches!(e, Ev::Close { .. })), "the socket of a dropped tap stays open");
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C24",
        rule: "The real tap runs on a virtual network; the log lines it writes are compared, in order, with the header facts and entries an independent parser finds in the packets, up to the first damage.",
        assumptions: &["lines are recognised by their section markers; their text is compared with the crate's own formatting of the expected entry", "of packets larger than 1500 bytes the first 1500 bytes count"],
        scenarios: vec![
            Scenario { name: "loop", f: c24_loop, dev: (1, 1), bounds: "3 (4) packets from a pool of 14, a socket error at any position" },
            Scenario { name: "damage", f: c24_damage, dev: (0, 0), bounds: "2 messages: every cut, every byte set to every value, 16 byte pairs at every position" },
            Scenario { name: "broken", f: c24_broken, dev: (0, 0), bounds: "about 7500 damaged messages (each kind of damage in each section behind 0-4 intact entries, at 12 sizes; undecodable data; shorter than a header)" },
            Scenario { name: "values", f: c24_values, dev: (0, 0), bounds: "4341 names as owner or inside SRV, PTR, MX and SOA, 1445 TXT sets, 1955 addresses, all 65536 types and classes, 64 TTLs, 32 SRV values, 0-60 entries, in each record section" },
            Scenario { name: "flags", f: c24_flags, dev: (0, 0), bounds: "65536 IDs and 65536 flag words" },
            Scenario { name: "stream", f: c24_stream, dev: (0, 0), bounds: "100 to 1025 (10000) packets (each of 14 kinds, all in turn), 66000 short ones, at 2 rates, in one run" },
            Scenario { name: "setup", f: c24_setup, dev: (0, 0), bounds: "socket options and bind errors" },
        ],
    }]
}
