//! C27: the functions that write queries and read answers without doing any I/O.
use crate::conv;
use crate::pool;
use std::net::IpAddr;
use std::ops::ControlFlow;
use uwuhi::packet::QType;
use uwuhi::resolver;
use uwuhi::service::discovery;
use vcore::explore::{catch, Property, Scenario};
use vcore::refdns::{self as rd, Build, Data, Name};
use vcore::{corpus, ensure, logcap, util, Cx};

type R = Result<(), String>;

// ---------------------------------------------------------------- queries

fn check_query(b: &[u8], name: &Name, types: &[u16], rd_bit: Option<bool>) -> R {
    let Some(m) = rd::parse(b) else { return Err(format!("the query is too short: {}", util::hex(b))) };
    ensure!(m.err.is_none() && m.end == b.len(), "the query does not decode, or has something behind it: {}", util::hex(b));
    ensure!(m.flags & !rd::RD == 0, "query flags {:#06x}", m.flags);
    ensure!(rd_bit.is_none_or(|r| r == (m.flags & rd::RD != 0)), "query flags {:#06x}", m.flags);
    ensure!(m.rr.iter().all(|r| r.is_empty()), "the query has records");
    let mut got: Vec<u16> = m.q.iter().map(|q| q.qtype).collect();
    let mut want = types.to_vec();
    got.sort();
    want.sort();
    ensure!(got == want, "the query asks for types {got:?}, expected {want:?}");
    for q in &m.q {
        ensure!(q.qclass == 1 && !q.unicast, "query class {}, unicast {}", q.qclass, q.unicast);
        ensure!(q.name == *name, "the query is about {}, expected {}", rd::show_name(&q.name), rd::show_name(name));
    }
    Ok(())
}
const JUNK: [u8; 3] = [0, 0xff, 0xc0];
/// Encodes into a buffer of `n` bytes of junk; None if that panics.
fn encode(name: &Name, types: Option<&[u16]>, n: usize, junk: u8) -> Result<Option<Vec<u8>>, String> {
    let mut buf = vec![junk; n + 16];
    let dn = conv::dn(name);
    let (at, r) = {
        let buf = &mut buf[..n];
        let at = buf.as_ptr() as usize;
        let r = catch(|| {
            let q = match types {
                None => resolver::encode_query(buf, &dn),
                Some(t) => {
                    let t: Vec<QType> = t.iter().map(|&t| conv::qty(t)).collect();
                    discovery::encode_query(buf, &dn, &t)
                }
            };
            (q.as_ptr() as usize, q.len())
        });
        (at, r)
    };
    ensure!(buf[n..].iter().all(|&b| b == junk), "bytes behind the buffer have changed");
    match r {
        Ok((p, l)) => {
            ensure!(p == at && l <= n, "the query is not at the start of the buffer");
            Ok(Some(buf[..l].to_vec()))
        }
        Err(_) => Ok(None),
    }
}
fn one_query(cx: &mut Cx, name: &Name, types: Option<&[u16]>, small: bool) -> R {
    let want = types.unwrap_or(&[rd::A, rd::AAAA]);
    let rd_bit = types.is_none().then_some(true);
    cx.note(|| format!("{} {want:?}", rd::show_name(name)));
    // as written, names are repeated in full; something shorter is as good
    let full = 12 + want.len() * (rd::name_len(name) + 4);
    let first = encode(name, types, full + 500, JUNK[0])?;
    cx.step();
    let Some(first) = first else { return Err(format!("a buffer of {} bytes is not enough", full + 500)) };
    check_query(&first, name, want, rd_bit)?;
    cx.state(&first);
    for n in [first.len(), first.len() + 1, 512.max(full), 1500.max(full), 9000.max(full)] {
        for junk in JUNK {
            cx.step();
            let q = encode(name, types, n, junk)?;
            ensure!(q.as_deref() == Some(&first[..]), "in a buffer of {n} bytes of {junk:#x} the query is {:?}", q.map(|q| util::hex(&q)));
        }
    }
    let short: Vec<usize> = if small { (0..first.len()).collect() } else { vec![first.len() - 1, first.len() / 2, 12, 0] };
    for n in short {
        if n < first.len() {
            cx.step();
            if let Some(q) = encode(name, types, n, 0)? {
                check_query(&q, name, want, rd_bit).map_err(|e| format!("in a buffer of {n} bytes: {e}"))?;
            }
        }
    }
    cx.outcome(&first.len());
    Ok(())
}
fn q_names(cx: &mut Cx) -> R {
    let kind = cx.choose(3);
    let name = match kind {
        0 => cx.pick(corpus::hosts()).clone(),
        1 => {
            let b = cx.pick(corpus::bases()).clone();
            cx.pick(corpus::kin(&b)).clone()
        }
        _ => vec![cx.pick(corpus::labels()).clone(), b"_tcp".to_vec(), b"local".to_vec()],
    };
    let t: [Option<&[u16]>; 4] = [None, Some(&[rd::PTR]), Some(&[rd::SRV, rd::TXT]), Some(&[rd::TXT, rd::ANY, rd::TXT])];
    let t = t[cx.choose(4)];
    one_query(cx, &name, t, false)
}
fn q_types(cx: &mut Cx) -> R {
    let name = rd::n("Inst._svc._udp.local");
    let t: Vec<u16> = match cx.choose(3) {
        0 => vec![cx.choose(65536) as u16],
        1 => {
            let n = cx.choose(cx.by_tier(5, 7));
            (0..n).map(|_| *cx.pick(&[rd::PTR, rd::SRV, rd::TXT, rd::A, 0xfffe])).collect()
        }
        _ => {
            let n = cx.choose(600);
            (0..n as u16).map(|i| i * 7).collect()
        }
    };
    one_query(cx, &name, Some(&t), false)
}
fn q_buffers(cx: &mut Cx) -> R {
    let total = 1 + cx.choose(255);
    if total == 2 {
        return Ok(());
    }
    let lab = *cx.pick(&[1usize, 5, 63]);
    let name = corpus::sized(total, lab);
    let t: [Option<&[u16]>; 4] = [None, Some(&[]), Some(&[rd::PTR]), Some(&[rd::SRV, rd::TXT, rd::A])];
    let t = t[cx.choose(4)];
    one_query(cx, &name, t, true)
}

// ---------------------------------------------------------------- answers

/// What the answers of a datagram hold, for these functions.
struct Sense {
    /// Not even a header, or damaged questions in a response.
    fatal: bool,
    response: bool,
    id: u16,
    /// Answers up to the first damage that have a supported type and decodable data.
    recs: Vec<(Name, Data)>,
    /// Some answer is damaged or has undecodable data.
    bad_answer: bool,
    /// Damage behind the answers.
    bad_rest: bool,
    /// Damaged questions of something that is no response.
    bad_query: bool,
    /// A record of another class than IN, or a header with an operation or error code.
    odd: bool,
}
fn sense(d: &[u8]) -> Sense {
    let mut s = Sense { fatal: true, response: false, id: 0, recs: vec![], bad_answer: false, bad_rest: false, bad_query: false, odd: false };
    let Some(m) = rd::parse(d) else { return s };
    s.response = m.response();
    s.id = m.id;
    s.odd = m.opcode() != 0 || m.rcode() != 0;
    s.fatal = false;
    if !s.response {
        s.bad_query = m.err.is_some();
        return s;
    }
    s.fatal = matches!(m.err, Some((0, _)));
    s.bad_answer = matches!(m.err, Some((1, _)));
    s.bad_rest = matches!(m.err, Some((2 | 3, _)));
    for r in &m.rr[0] {
        s.odd |= r.class != 1;
        match rd::data(d, r.start, r.end, r.ty) {
            Some(Ok(x)) => s.recs.push((r.name.clone(), x)),
            Some(Err(_)) => s.bad_answer = true,
            None => {}
        }
    }
    s
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum End {
    Break,
    Continue,
    Failed,
}
/// Runs a discovery decoder; the callback stops at its `stop`-th call (0: never).
fn run_disc(d: &[u8], o: Option<&Name>, stop: usize) -> Result<(Vec<Data>, End), String> {
    let mut v = vec![];
    let r = catch(|| {
        let cb = &mut |r: uwuhi::packet::records::Record<'_>| {
            v.push(conv::data(&r));
            if v.len() == stop {
                ControlFlow::Break(())
            } else {
                ControlFlow::Continue(())
            }
        };
        match o {
            None => discovery::decode_answer(d, cb),
            Some(o) => discovery::decode_answer_for(d, &conv::dn(o), cb),
        }
    })?;
    let e = match r {
        Ok(ControlFlow::Break(())) => End::Break,
        Ok(ControlFlow::Continue(())) => End::Continue,
        Err(_) => End::Failed,
    };
    Ok((v, e))
}
fn judge_disc(cx: &mut Cx, d: &[u8], s: &Sense, o: Option<&Name>, stop: usize) -> R {
    let (got, end) = run_disc(d, o, stop).map_err(|e| format!("decoding discovery answers: {e}"))?;
    cx.step();
    let mut want: Vec<Data> = vec![];
    if s.response && !s.fatal {
        want.extend(s.recs.iter().filter(|(n, _)| o.is_none_or(|o| rd::eq_ci(n, o))).map(|x| x.1.clone()));
    }
    let ends = stop > 0 && want.len() >= stop;
    if ends {
        want.truncate(stop);
    }
    let what = match o {
        None => "decode_answer".to_string(),
        Some(o) => format!("decode_answer_for {}", rd::show_name(o)),
    };
    ensure!(got == want, "discovery::{what} of {} reports {got:?}, expected {want:?}", util::hex(d));
    if ends {
        ensure!(end == End::Break, "discovery::{what} was told to stop at record {stop}, but gives {end:?}");
    } else if s.fatal {
        ensure!(end == End::Failed, "discovery::{what} of the malformed {} gives {end:?}", util::hex(d));
    } else if !s.bad_answer && !s.bad_rest && !s.bad_query {
        ensure!(end == End::Continue, "discovery::{what} of {} gives {end:?}", util::hex(d));
    } else {
        ensure!(end != End::Break, "discovery::{what} of {} claims to have been stopped", util::hex(d));
    }
    cx.outcome(&(got.len(), end));
    Ok(())
}
fn closure(s: &Sense, o: &Name) -> Vec<IpAddr> {
    let mut names = vec![o];
    let mut i = 0;
    while i < names.len() {
        for (n, x) in &s.recs {
            if let Data::Name(rd::CNAME, t) = x {
                if rd::eq_ci(n, names[i]) && !names.iter().any(|k| rd::eq_ci(k, t)) {
                    names.push(t);
                }
            }
        }
        i += 1;
    }
    s.recs.iter().filter(|(n, _)| names.iter().any(|k| rd::eq_ci(k, n))).filter_map(|(_, x)| ip(x)).collect()
}
fn ip(x: &Data) -> Option<IpAddr> {
    match x {
        Data::A(a) => Some((*a).into()),
        Data::Aaaa(a) => Some((*a).into()),
        _ => None,
    }
}
/// The ID `encode_query` gives to queries.
fn query_id() -> [u8; 2] {
    static ID: std::sync::OnceLock<[u8; 2]> = std::sync::OnceLock::new();
    *ID.get_or_init(|| {
        let q = encode(&rd::n("a.b"), None, 512, 0).ok().flatten().unwrap_or_default();
        [q.first().copied().unwrap_or(0x30), q.get(1).copied().unwrap_or(0x39)]
    })
}
fn judge_res(cx: &mut Cx, d: &[u8], s: &Sense, o: Option<&Name>, had: &[IpAddr]) -> R {
    let mut buf = had.to_vec();
    let r = catch(|| match o {
        None => resolver::decode_answer(d, &mut buf),
        Some(o) => resolver::decode_answer_for(d, &conv::dn(o), &mut buf),
    })
    .map_err(|e| format!("decoding addresses: {e}"))?;
    cx.step();
    let what = match o {
        None => "decode_answer".to_string(),
        Some(o) => format!("decode_answer_for {}", rd::show_name(o)),
    };
    ensure!(buf.starts_with(had), "resolver::{what} of {} changed the addresses that were in the buffer: {buf:?}", util::hex(d));
    let got = &buf[had.len()..];
    let mine = o.is_none() || s.id == u16::from_be_bytes(query_id());
    let want: Vec<IpAddr> = if !s.response || !mine {
        vec![]
    } else {
        match o {
            None => s.recs.iter().filter_map(|(_, x)| ip(x)).collect(),
            Some(o) => closure(s, o),
        }
    };
    let fails = s.fatal || (s.response && s.bad_answer);
    let open = s.bad_rest || s.bad_query || (fails && !mine);
    if r.is_err() {
        ensure!(got.is_empty(), "resolver::{what} of {} fails, but has added {got:?}", util::hex(d));
        ensure!(fails || open, "resolver::{what} of {} fails: {r:?}", util::hex(d));
    } else {
        ensure!(!fails || open, "resolver::{what} accepts the malformed {}", util::hex(d));
        if !fails {
            ensure!(got == want, "resolver::{what} of {} adds {got:?}, expected {want:?}", util::hex(d));
        } else {
            ensure!(got.is_empty(), "resolver::{what} of the malformed {} adds {got:?}", util::hex(d));
        }
    }
    cx.outcome(&(got, r.is_ok()));
    Ok(())
}
fn some_ips() -> Vec<IpAddr> {
    vec!["203.0.113.9".parse().unwrap(), "::1".parse().unwrap(), "203.0.113.9".parse().unwrap()]
}
/// All four decoders over one datagram, stopping at each record.
fn judge(cx: &mut Cx, d: &[u8], o: &Name) -> R {
    let mut d = d.to_vec();
    if d.starts_with(&[0x30, 0x39]) {
        d[..2].copy_from_slice(&query_id());
    }
    let s = sense(&d);
    if s.odd {
        cx.cover("other class, operation or response code: left open");
        return Ok(());
    }
    cx.state(&d);
    for o in [None, Some(o)] {
        let n = s.recs.iter().filter(|(n, _)| o.is_none_or(|o| rd::eq_ci(n, o))).count();
        let n = if n <= 12 { (0..=n + 1).collect() } else { vec![0, 1, 2, n - 1, n, n + 1] };
        for stop in n {
            judge_disc(cx, &d, &s, o, stop)?;
        }
        for had in [&[][..], &some_ips()] {
            judge_res(cx, &d, &s, o, had)?;
        }
    }
    Ok(())
}
fn a_values(cx: &mut Cx) -> R {
    let c = match cx.choose(10) {
        0 => pool::ptr_values(cx, true),
        1 => pool::ptr_values(cx, false),
        2 => pool::ptr_broken(cx, true),
        3 => pool::ptr_broken(cx, false),
        4 => pool::det_values(cx),
        5 => pool::det_broken(cx),
        6 => pool::addr_values(cx),
        7 => pool::addr_broken(cx),
        k => {
            logcap::enable(cx.flag());
            let o = rd::n(["_svc._tcp.local", "Host.example.org"][k - 8]);
            let mut dgs = vec![];
            if k == 8 {
                dgs.extend(pool::ptr_pool(&o, &pool::instance_targets("_svc._tcp.local")).into_iter().map(|x| x.1));
                dgs.extend(pool::details_pool(&o).into_iter().map(|x| x.1));
            } else {
                dgs.extend(pool::addr_pool(&o).into_iter().map(|x| x.1));
            }
            pool::Case { inst: vec![], svc: vec![], tcp: true, domain: vec![], owner: o, dgs, what: "pool".into() }
        }
    };
    cx.note(|| c.what.clone());
    for d in &c.dgs {
        judge(cx, d, &c.owner)?;
    }
    logcap::enable(false);
    Ok(())
}
/// Short answer sections of every composition.
fn a_sections(cx: &mut Cx) -> R {
    let n = cx.choose(cx.by_tier(4, 5));
    let o = rd::n("Host.local");
    let al = rd::n("alias.local");
    let mut b = Build::new(0x3039, [0x8400, 0x0000, 0x8180, 0xfbf0 & !0x7800][cx.choose(4)]);
    if cx.flag() {
        b = b.q(&o, rd::A, 1);
    }
    for i in 0..n {
        let owner = [rd::n("hOST.lOCAL"), al.clone(), rd::n("local")][cx.choose(3)].clone();
        let k = i as u8;
        let data = match cx.choose(10) {
            0 => Data::A([192, 0, 2, k]),
            1 => Data::Aaaa([0x20 + k; 16]),
            2 => Data::Name(rd::CNAME, al.clone()),
            3 => Data::Name(rd::CNAME, o.clone()),
            4 => pool::ptr("x.local"),
            5 => pool::txt(&[b"k=v", &[k]]),
            6 => Data::Srv(1, 2, 3, o.clone()),
            7 => Data::Raw(rd::A, vec![1, 2, 3]),
            8 => Data::Raw(0x1234, vec![0xc0]),
            _ => Data::Raw(rd::PTR, vec![0x40]),
        };
        b = b.ans(&owner, &data);
    }
    let mut m = b.done();
    match cx.choose(4) {
        0 => {}
        1 => m[1] ^= 1,
        2 => m[7] += 1,
        _ => {
            let n = m.len() - 1;
            m.truncate(n);
        }
    }
    cx.note(|| util::hex(&m));
    judge(cx, &m, &o)
}
/// Every byte of some messages replaced by every value, cut at every length.
fn a_bytes(cx: &mut Cx) -> R {
    let o = rd::n("ab.local");
    let mut comp = Build::new(0x3039, 0x8400).q(&o, rd::A, 1);
    comp.body.extend_from_slice(b"\xc0\x0c\x00\x05\x00\x01\x00\x00\x00\x3c\x00\x04\x01c\xc0\x0c\x01c\xc0\x0c\x00\x01\x80\x01\x00\x00\x00\x3c\x00\x04\xc0\x00\x02\x0c");
    comp.counts[1] += 2;
    let msgs = [
        Build::new(0x3039, 0x8180).q(&o, rd::A, 1).ans(&o, &Data::A([192, 0, 2, 1])).ans(&o, &Data::Aaaa([0xfd; 16])).done(),
        Build::new(0x3039, 0x8400).ans(&o, &Data::Srv(0, 0, 80, rd::n("h.local"))).ans(&o, &pool::txt(&[b"k=v", b"x"])).done(),
        Build::new(0x3039, 0x8400).ans(&o, &pool::ptr("i.ab.local")).rr(3, &rd::n("i.ab.local"), 1, 120, &Data::A([1, 2, 3, 4])).done(),
        comp.done(),
        Build::new(0x3039, 0x8400).ans(&o, &Data::Mx(7, rd::n("m.local"))).ans(&o, &Data::Soa(rd::n("m"), rd::n("r"), [1, 2, 3, 4, 5])).done(),
    ];
    let mut m = cx.pick(&msgs).clone();
    let two = cx.flag();
    if two {
        const V: [u8; 8] = [0, 1, 2, 0x0c, 0x3f, 0x80, 0xc0, 0xff];
        let i = cx.choose(m.len() - 1);
        m[i] = V[cx.choose(cx.by_tier(3, 8)) * cx.by_tier(3, 1)];
        let j = i + 1 + cx.choose((m.len() - 1 - i).min(cx.by_tier(12, 1000)));
        m[j] = V[cx.choose(cx.by_tier(3, 8)) * cx.by_tier(3, 1)];
    } else {
        let i = cx.choose(m.len() + 1);
        if i == m.len() {
            let n = cx.choose(m.len());
            m.truncate(n);
        } else {
            m[i] = cx.choose(256) as u8;
        }
    }
    cx.note(|| util::hex(&m));
    judge(cx, &m, &o)
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C27",
        rule: "The real encode_query, decode_answer and decode_answer_for of the resolver and of service discovery run over all names, types and buffers, and over all datagrams, names, points to stop and prior contents of the bounded families; results are compared with an independent parser.",
        assumptions: &["records of a class other than IN, operation and error codes, and the result (not the callbacks) for a datagram damaged behind or in its answers are left open where the documentation says nothing"],
        scenarios: vec![
            Scenario { name: "q_names", f: q_names, dev: (0, 0), bounds: "4341 hosts, every name one change away from 31 names, 1254 labels; addresses or 3 lists of types; buffers of 5 sizes with 3 contents, and too small ones" },
            Scenario { name: "q_types", f: q_types, dev: (0, 0), bounds: "each of the 65536 types; all lists of up to 4 (6) of 5 types; 0-599 types" },
            Scenario { name: "q_buffers", f: q_buffers, dev: (0, 0), bounds: "names of every length in 3 styles, 4 lists of types, every size of buffer that is too small" },
            Scenario { name: "values", f: a_values, dev: (0, 0), bounds: "every datagram of the value and damage families of C13, C14 and C16 to all four functions, stopping at every record (of more than 12: the first two, the last two, never), with and without earlier addresses (and the pools of these properties, with logging)" },
            Scenario { name: "sections", f: a_sections, dev: (0, 0), bounds: "all sections of up to 3 (4) answers of 3 owners x 10 kinds x 4 headers x question or not x intact, other ID, one missing or cut off" },
            Scenario { name: "bytes", f: a_bytes, dev: (0, 0), bounds: "5 messages: every byte replaced by every value, every prefix, and every two bytes up to 12 apart (any two) replaced by 3 (8) values each" },
        ],
    }]
}
