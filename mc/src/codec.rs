//! C01–C06: decoder and encoder.
use crate::conv;
use crate::walk::{self, St};
use std::fmt::Write;
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::packet::encoder::{self, MessageEncoder};
use uwuhi::packet::Header;
use vcore::explore::{Property, Scenario};
use vcore::refdns::{self as rd, n, Build, Data, Name};
use vcore::{ensure, ensure_eq, util, Cx};

type R = Result<(), String>;

/// Discards what is printed, but makes the printing happen.
struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------
// Corpus: one message per feature.

pub fn lbl(c: u8, n: usize) -> Vec<u8> {
    vec![c; n]
}

pub fn all_data() -> Vec<Data> {
    vec![
        Data::A([192, 0, 2, 1]),
        Data::Aaaa([0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7]),
        Data::Name(rd::CNAME, n("c.d")),
        Data::Name(rd::NS, n("ns.c")),
        Data::Name(rd::PTR, n("i._s._tcp.local")),
        Data::Mx(0x0102, n("m.x")),
        Data::Txt(vec![b"k=v".to_vec(), b"".to_vec(), b"flag".to_vec()]),
        Data::Srv(1, 0x0203, 0x1f90, n("host.local")),
        Data::Soa(n("m"), n("r.x"), [1, 0x01020304, 3, 0xffff_ffff, 0x8000_0000]),
        Data::Raw(41, vec![1, 2, 3]),
    ]
}

pub fn corpus() -> Vec<Vec<u8>> {
    let mut v = vec![];
    let nm = n("ab.c");
    // every type in one answer section
    let mut b = Build::new(0x1234, rd::QR | rd::AA).q(&nm, 255, 1);
    for d in all_data() {
        b = b.ans(&nm, &d);
    }
    v.push(b.done());
    // entries in every section
    v.push(
        Build::new(1, 0)
            .q(&nm, rd::A, 0x8001)
            .q(&n("."), rd::PTR, 1)
            .rr(1, &n("x"), 1, 120, &Data::A([1, 2, 3, 4]))
            .rr(2, &nm, 0x8001, 0xffff_ffff, &Data::Name(rd::NS, n("ns")))
            .rr(3, &n("."), 3, 0, &Data::Raw(41, vec![]))
            .done(),
    );
    // compression: question name, owner pointing at it, rdata pointing into the middle of it
    let mut b = Build::new(2, rd::QR).q(&n("srv.example.com"), rd::SRV, 1);
    b.body.extend_from_slice(&[0xc0, 12, 0, 33, 0, 1, 0, 0, 0, 9, 0, 9, 0, 1, 0, 2, 0, 80]);
    b.body.extend_from_slice(&[0xc0, 16, 0]);
    b.counts[1] = 1;
    let l = b.body.len() - 3;
    b.body.truncate(l);
    b.body.extend_from_slice(&[1, b'q', 0xc0, 16]);
    let e = b.body.len();
    b.body[e - 4 - 6 - 1] = 10; // RDLENGTH
    v.push(b.done());
    // response the resolver is looking for
    v.push(Build::new(12345, rd::QR).q(&nm, rd::A, 1).ans(&nm, &Data::A([1, 2, 3, 4])).ans(&nm, &Data::Aaaa([9; 16])).done());
    // query the advertiser would answer
    v.push(Build::new(77, 0).q(&n("host.local"), rd::A, 1).q(&n("i._s._tcp.local"), 255, 255).done());
    // discovery answer
    v.push(Build::new(12345, rd::QR | rd::AA).ans(&n("_s._tcp.local"), &Data::Name(rd::PTR, n("i._s._tcp.local"))).done());
    v
}

// ------------------------------------------------------------------------------------------------
// C01

/// Everything decoding may do with untrusted bytes; panics are caught by the explorer.
fn total(cx: &mut Cx, msg: &[u8], handlers: bool) -> R {
    let mut sink = Sink(0);
    let limit = msg.len();
    // full read, printing everything
    cx.step();
    if let Ok(d) = MessageDecoder::new(msg) {
        let _ = write!(sink, "{:?}", d.header());
        let mut st = St::Q(d);
        let mut items = 0usize;
        'read: for sec in 0..4usize {
            if sec > 0 {
                st = match st.skip(sec) {
                    Ok(s) => s,
                    Err(e) => {
                        let _ = write!(sink, "{e:?} {e}");
                        break 'read;
                    }
                };
            }
            let mut errored = false;
            loop {
                macro_rules! rr {
                    ($d:expr) => {
                        match $d.next() {
                            Some(Ok(r)) => {
                                let _ = write!(sink, "{r} {r:?}");
                                let _ = r.rdata();
                                let big = r.name().labels().len() > limit
                                    || r.as_enum().is_some_and(|x| x.is_ok_and(|x| widest(&x) > limit));
                                ensure!(!big, "a decoded name has more labels than the message has bytes");
                                true
                            }
                            Some(Err(e)) => {
                                let _ = write!(sink, "{e:?} {e}");
                                errored = true;
                                false
                            }
                            None => false,
                        }
                    };
                }
                cx.step();
                let more = match &mut st {
                    St::Q(d) => match d.next() {
                        Some(Ok(q)) => {
                            let _ = write!(sink, "{q} {q:?}");
                            ensure!(q.qname().labels().len() <= limit, "a decoded name has more labels than the message has bytes");
                            true
                        }
                        Some(Err(e)) => {
                            let _ = write!(sink, "{e:?} {e}");
                            errored = true;
                            false
                        }
                        None => false,
                    },
                    St::An(d) => rr!(d),
                    St::Au(d) => rr!(d),
                    St::Ad(d) => rr!(d),
                };
                if !more {
                    break;
                }
                items += 1;
                ensure!(items <= limit, "the decoder yields more entries than the message has bytes");
            }
            if errored {
                // sticky: no entry from this or any later section
                let rest = drain(&mut st)?;
                ensure!(rest == 0, "the decoder yields {rest} entries after reporting an error");
                for s in sec + 1..4 {
                    match st.skip(s) {
                        Ok(n) => st = n,
                        Err(_) => break 'read,
                    }
                    let rest = drain(&mut st)?;
                    ensure!(rest == 0, "the decoder yields {rest} entries of section {s} after reporting an error");
                }
                break;
            }
        }
    }
    // skipping
    for to in 1..4 {
        cx.step();
        if let Ok(d) = MessageDecoder::new(msg) {
            if let Ok(mut s) = St::Q(d).skip(to) {
                while let Some(Ok(_)) = s.next(true) {}
            }
        }
    }
    if handlers {
        vcore::logcap::enable(true);
        cx.steps(3);
        let mut ips = vec![];
        let _ = uwuhi::resolver::decode_answer(msg, &mut ips);
        ensure!(ips.len() * 4 <= limit, "more addresses than bytes");
        let mut k = 0usize;
        let _ = uwuhi::service::discovery::decode_answer(msg, &mut |r| {
            k += 1;
            let _ = write!(Sink(0), "{r} {r:?}");
            if let uwuhi::packet::records::Record::PTR(p) = r {
                let _ = uwuhi::service::Service::from_ptr(p.clone());
                let _ = uwuhi::service::ServiceInstance::from_ptr(p);
            } else if let uwuhi::packet::records::Record::TXT(t) = r {
                let t = uwuhi::service::TxtRecords::from_txt(&t);
                let _ = write!(Sink(0), "{t} {t:?}");
                for (k, v) in t.iter() {
                    let _ = write!(Sink(0), "{k} {v:?} {:?}", t.get(k));
                }
            }
            std::ops::ControlFlow::Continue(())
        });
        ensure!(k <= limit, "more records than bytes");
        ADV.with(|a| {
            let mut a = a.borrow_mut();
            let _ = a.handle_packet(msg);
        });
        vcore::logcap::enable(false);
    }
    Ok(())
}
fn widest(r: &uwuhi::packet::records::Record<'_>) -> usize {
    match conv::data(r) {
        Data::Name(_, n) | Data::Mx(_, n) | Data::Srv(_, _, _, n) => n.len(),
        Data::Soa(a, b, _) => a.len().max(b.len()),
        _ => 0,
    }
}
/// Counts the entries that still come; an iterator that never ends is a violation of its own.
fn drain(st: &mut St<'_>) -> Result<usize, String> {
    let mut k = 0;
    for turn in 0..64 {
        match st.next(turn % 2 == 1) {
            Some(Ok(_)) => k += 1,
            Some(Err(_)) => {}
            None => return Ok(k),
        }
    }
    Err(format!("reading on after an error never ends ({k} entries, the rest errors)"))
}
thread_local! {
    static ADV: std::cell::RefCell<uwuhi::service::advertising::Advertiser> = std::cell::RefCell::new({
        let mut a = uwuhi::service::advertising::Advertiser::new(uwuhi::name::Label::new("host"), [10, 0, 0, 1].into()).unwrap();
        a.add_instance(
            uwuhi::service::ServiceInstance::new(uwuhi::name::Label::new("i"), uwuhi::name::Label::new("_s"), uwuhi::service::ServiceTransport::TCP),
            uwuhi::service::InstanceDetails::new(conv::dn(&n("host.local")), 80),
        );
        a
    });
}

const HDRS: &[([u16; 4], u16)] = &[
    ([1, 0, 0, 0], 0),
    ([0, 1, 0, 0], 0x8400),
    ([1, 1, 0, 0], 0x8000),
    ([0, 0, 1, 0], 0x8000),
    ([0, 0, 0, 1], 0),
    ([1, 1, 1, 1], 0x8000),
    ([2, 0, 0, 0], 0),
    ([0xffff, 0, 0, 0], 0x0100),
    ([0, 0xffff, 0xffff, 0xffff], 0x8580),
];
fn header(id: u16, flags: u16, counts: [u16; 4]) -> Vec<u8> {
    Build { id, flags, counts, body: vec![] }.done()
}

fn c01_short(cx: &mut Cx) -> R {
    // every byte string of up to 2 bytes, every length up to 14 with uniform fill
    let m = if cx.flag() {
        let k = cx.choose(15);
        vec![cx.choose(256) as u8; k]
    } else {
        let k = cx.choose(3);
        (0..k).map(|_| cx.choose(256) as u8).collect()
    };
    cx.note(|| util::hex(&m));
    cx.state(&m);
    total(cx, &m, true)
}
fn c01_bodies(cx: &mut Cx) -> R {
    const AL: &[u8] = &[0, 1, 0xc0, 12, 13, 2, 0x3f, 0x40, 0xff, 16, 33];
    let (counts, flags) = *cx.pick(HDRS);
    let max = cx.by_tier(5, 6);
    let len = cx.choose(max + 1);
    let mut m = header(12345, flags, counts);
    for _ in 0..len {
        m.push(*cx.pick(AL));
    }
    // what follows
    match cx.choose(3) {
        0 => {}
        1 => m.extend_from_slice(&[0, 1, 0, 1]),
        _ => m.extend_from_slice(&[0, 12, 0, 1, 0, 0, 0, 1, 0, 2, 0xc0, 12, 0xc0]),
    }
    cx.note(|| util::hex(&m));
    cx.state(&m);
    total(cx, &m, true)
}
/// Record data bytes of every supported type.
fn c01_rdata(cx: &mut Cx) -> R {
    const AL: &[u8] = &[0, 1, 0xc0, 12, 24, 2, 0x3f, 0xff];
    const TY: &[u16] = &[1, 2, 5, 6, 12, 15, 16, 28, 33, 41, 255, 0x0101];
    let ty = *cx.pick(TY);
    let len = cx.choose(cx.by_tier(5, 7));
    let mut b = vec![];
    for _ in 0..len {
        b.push(*cx.pick(AL));
    }
    let (pad, fill) = *cx.pick(&[(0usize, 0u8), (5, 0), (16, 0), (260, 0x61), (260, 0xff), (700, 0xe9)]);
    b.extend(std::iter::repeat(fill).take(pad));
    let lie = *cx.pick(&[0i32, -1, 1, 20]);
    let mut m = header(12345, 0x8400, [0, 2, 0, 0]);
    m.push(0);
    rd::put16(&mut m, ty);
    m.extend_from_slice(&[0, 1, 0, 0, 0, 1]);
    rd::put16(&mut m, (b.len() as i32 + lie).max(0) as u16);
    m.extend_from_slice(&b);
    m.extend_from_slice(&[0xc0, 12, 0, 16, 0, 1, 0, 0, 0, 1, 0, 1, 0]);
    cx.note(|| util::hex(&m));
    cx.state(&m);
    total(cx, &m, true)
}
/// Text inside labels and TXT entries: every length, with an odd sequence at every position.
fn c01_text(cx: &mut Cx) -> R {
    const ODD: &[&[u8]] = &[b"", b"\xff", b"\x80", b"\xc3", b"\xc3\xa9", b"\xe2\x82", b"\xf0\x9f\x92\xa9", b"\0", b"\xed\xa0\x80", b".", b"\\", b"=", b"\x7f"];
    let entry = cx.flag();
    let odd = *cx.pick(ODD);
    let max = if entry { 255 } else { 63 };
    let len = odd.len() + cx.choose(max + 1 - odd.len());
    let at = if cx.thorough() || !entry || len < 40 {
        cx.choose(len - odd.len() + 1)
    } else {
        let room = len - odd.len();
        *cx.pick(&[0, 1, 2, 3, 4, room / 2, room - 3, room - 2, room - 1, room])
    };
    let mut t = vec![b'a'; len];
    t[at..at + odd.len()].copy_from_slice(odd);
    if entry && len > 3 && at > 1 {
        t[1] = b'=';
    }
    let mut m = header(12345, 0x8400, [1, 1, 0, 0]);
    let owner: Vec<u8> = if entry || len == 0 { vec![0] } else { [&[len as u8][..], &t, &[0]].concat() };
    m.extend(&owner);
    m.extend([0, 16, 0, 1]);
    m.extend(&owner);
    let d: Vec<u8> = if entry { [&[len as u8][..], &t].concat() } else { [&[4, b'_', b't', b'c', b'p'], &owner[..]].concat() };
    m.extend([0, if entry { 16 } else { 12 }, 0, 1, 0, 0, 0, 1]);
    rd::put16(&mut m, d.len() as u16);
    m.extend(d);
    cx.note(|| util::hex(&m));
    cx.state(&m);
    total(cx, &m, true)
}
thread_local! { static CORPUS: Vec<Vec<u8>> = corpus(); }
fn nth_corpus(i: usize) -> Vec<u8> {
    CORPUS.with(|c| c[i].clone())
}
fn ncorpus() -> usize {
    CORPUS.with(|c| c.len())
}
fn c01_mutate(cx: &mut Cx) -> R {
    let mut m = nth_corpus(cx.choose(ncorpus()));
    let p = cx.choose(m.len());
    m[p] = cx.choose(256) as u8;
    cx.note(|| util::hex(&m));
    cx.state(&m);
    total(cx, &m, true)
}
fn c01_mutate2(cx: &mut Cx) -> R {
    const V: &[u8] = &[0, 1, 2, 0x0c, 0x10, 0x3f, 0x40, 0xc0, 0xff];
    let vs = cx.by_tier(&V[5..9], V);
    let mut m = nth_corpus(cx.choose(ncorpus()));
    let p = cx.choose(m.len() - 1);
    let q = p + 1 + cx.choose(m.len() - p - 1);
    m[p] = *cx.pick(vs);
    m[q] = *cx.pick(vs);
    cx.note(|| util::hex(&m));
    cx.state(&m);
    total(cx, &m, true)
}
fn c01_cut(cx: &mut Cx) -> R {
    let mut m = nth_corpus(cx.choose(ncorpus()));
    let k = cx.choose(m.len() + 1);
    m.truncate(k);
    let tail = *cx.pick(&[&[][..], &[0xc0], &[0xff], &[0x3f, 1], &[0xc0, 0], &[0; 8]]);
    m.extend_from_slice(tail);
    cx.note(|| util::hex(&m));
    cx.state(&m);
    total(cx, &m, true)
}
/// Cells of labels that end in a pointer to any cell (also themselves and later ones), entered from a
/// name behind them: whatever is accepted must not multiply labels.
fn c01_cells(cx: &mut Cx) -> R {
    let ncells = 1 + cx.choose(cx.by_tier(2, 3));
    let k = *cx.pick(&[1usize, 3, 10, 40, 63]);
    let mut m = header(12345, 0x8400, [0, 2, 0, 0]);
    let cell = 2 * k + 2;
    let pad = *cx.pick(&[0usize, 1, 7, 80, 1000]);
    m.extend_from_slice(&[0, 0, 41, 0, 1, 0, 0, 0, 0]);
    rd::put16(&mut m, (ncells * cell + pad) as u16);
    let start = m.len();
    for _ in 0..ncells {
        for _ in 0..k {
            m.extend_from_slice(&[1, b'a']);
        }
        let to = start + cx.choose(ncells) * cell + 2 * *cx.pick(&[0, k / 2, k]);
        rd::put16(&mut m, 0xc000 | to as u16);
    }
    m.extend(std::iter::repeat(0).take(pad));
    if cx.flag() {
        m.extend_from_slice(&[1, b'z']);
    }
    let to = start + cx.choose(ncells) * cell;
    rd::put16(&mut m, 0xc000 | to as u16);
    m.extend_from_slice(&[0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4]);
    cx.note(|| util::show(&m));
    cx.state(&m);
    total(cx, &m, true)
}
/// Very deep and very wide messages: pointer ladders, huge names, maximal counts.
fn c01_extreme(cx: &mut Cx) -> R {
    let kind = cx.choose(7);
    // The decoder takes any byte string, so also ones larger than a UDP datagram.
    let size = *cx.pick(&[600usize, 4096, 16384, 65535, 65536, 70000, 140000]);
    let mut m;
    match kind {
        5 => {
            // a record with the largest possible data, at an offset that may lie beyond 65535
            let ty = *cx.pick(&[16u16, 1, 5, 6, 33, 41]);
            m = header(12345, 0x8400, [0, 3, 0, 0]);
            for (k, len) in [(41, size.min(0xffff)), (ty, 0xffff), (16, 1)] {
                m.push(0);
                rd::put16(&mut m, k);
                m.extend_from_slice(&[0, 1, 0, 0, 0, 1]);
                rd::put16(&mut m, len as u16);
                m.extend(std::iter::repeat(0).take(len));
            }
            let cut = *cx.pick(&[0usize, 1, 12, 70000]);
            m.truncate(m.len().saturating_sub(cut));
        }
        0 => {
            // ladder: each cell is a label and a pointer to the previous cell
            m = header(12345, 0x8400, [0xffff, 0, 0, 0]);
            m.push(0);
            let mut prev = 12;
            while m.len() + 4 <= size.min(0x3ff0) {
                let here = m.len();
                m.extend_from_slice(&[1, b'a', 0xc0 | (prev >> 8) as u8, prev as u8]);
                prev = here;
            }
            let h = header(12345, 0x8400, [2, 0, 0, 0]);
            m[..12].copy_from_slice(&h);
            // the first question is the cell area read as a name
        }
        1 => {
            // bare pointer ladder, entered at the top through the second name
            m = header(12345, 0x8400, [0, 2, 0, 0]);
            m.extend_from_slice(&[0, 0, 41, 0, 1, 0, 0, 0, 0]);
            let body = size.min(0x3fe0) & !1;
            rd::put16(&mut m, body as u16);
            let start = m.len();
            m.extend_from_slice(&[0, 0]);
            while m.len() + 2 <= start + body {
                let prev = m.len() - 2;
                m.extend_from_slice(&[0xc0 | (prev >> 8) as u8, prev as u8]);
            }
            while m.len() < start + body {
                m.push(0);
            }
            let top = m.len() - 2;
            m.extend_from_slice(&[0xc0 | (top >> 8) as u8, top as u8, 0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4]);
        }
        2 => {
            // one huge name of one-byte labels
            m = header(12345, 0, [1, 0, 0, 0]);
            while m.len() + 2 < size {
                m.extend_from_slice(&[1, b'x']);
            }
            m.push(0);
            m.extend_from_slice(&[0, 1, 0, 1]);
        }
        3 => {
            // as many root questions as the counts can announce
            m = header(12345, 0, [0xffff, 0xffff, 0, 0]);
            while m.len() + 5 <= size {
                m.extend_from_slice(&[0, 0, 1, 0, 1]);
            }
        }
        4 => {
            m = header(12345, 0x8000, [0, 0xffff, 0xffff, 0xffff]);
            while m.len() + 11 <= size {
                m.extend_from_slice(&[0, 0, 16, 0, 1, 0, 0, 0, 0, 0, 0]);
            }
        }
        _ => {
            m = vec![*cx.pick(&[0u8, 1, 0x3f, 0x40, 0xc0, 0xff]); size];
        }
    }
    cx.note(|| util::show(&m));
    cx.state(&m);
    total(cx, &m, size <= 4096)
}

// ------------------------------------------------------------------------------------------------
// C02

fn c02_bytes(cx: &mut Cx) -> R {
    const AL: &[u8] = &[0, 1, 2, 0xc0, 12, 13, 14, 15, 0x3f, 0x40, 0x80, 0xbf, 0xc1, 0xff];
    let k = cx.by_tier(5, 6);
    // 0: question; 1: owner of a record; 2: name in the data of a record
    let place = cx.choose(3);
    let mut m = match place {
        0 => header(0, 0, [1, 0, 0, 0]),
        1 => header(0, 0, [0, 1, 0, 0]),
        _ => {
            let mut m = header(0, 0x8000, [0, 1, 0, 0]);
            m.extend_from_slice(&[1, b'a', 0, 0, 12, 0, 1, 0, 0, 0, 0, 0, k as u8 + 1]);
            m
        }
    };
    let base = (m.len() - 12) as u8;
    for _ in 0..k {
        let b = *cx.pick(AL);
        m.push(if (12..=15).contains(&b) && base > 0 && b > 13 { b + base - 2 } else { b });
    }
    match cx.choose(2) {
        0 => m.extend_from_slice(&[0, 1, 0, 1, 0, 0, 0, 0, 0, 0]),
        _ => m.push(0),
    }
    cx.note(|| util::hex(&m));
    cx.state(&m);
    walk::linear(cx, &m, false).map(|_| ())
}

/// Terminators of a structured name: root or a pointer to any position.
fn put_struct_name(cx: &mut Cx, m: &mut Vec<u8>, prefixes: &[&[&[u8]]], fwd: usize) {
    let p = *cx.pick(prefixes);
    for l in p {
        m.push(l.len() as u8);
        m.extend_from_slice(l);
    }
    let top = m.len() + fwd;
    let t = cx.choose(top + 1);
    if t == top {
        m.push(0);
    } else {
        m.extend_from_slice(&[0xc0 | (t >> 8) as u8, t as u8]);
    }
}
fn c02_layout(cx: &mut Cx) -> R {
    let mut m = header(7, 0x8000, [1, 2, 0, 0]);
    let l63 = [b'L'; 63];
    let q: Name = match cx.choose(cx.by_tier(2, 3)) {
        0 => n("ab.c"),
        1 => vec![vec![3, 1, b'x'], b"d".to_vec()], // label bytes that look like lengths
        _ => vec![l63.to_vec()],
    };
    rd::put_name(&mut m, &q);
    m.extend_from_slice(&[0, 255, 0, 1]);
    let pre: &[&[&[u8]]] = &[&[], &[b"x"]];
    put_struct_name(cx, &mut m, pre, 3);
    let ty = *cx.pick(&[rd::PTR, rd::MX, rd::SRV, rd::SOA]);
    rd::put16(&mut m, ty);
    m.extend_from_slice(&[0, 1, 0, 0, 0, 60]);
    let lp = m.len();
    m.extend_from_slice(&[0, 0]);
    match ty {
        rd::MX => m.extend_from_slice(&[0, 5]),
        rd::SRV => m.extend_from_slice(&[0, 1, 0, 2, 0, 3]),
        _ => {}
    }
    put_struct_name(cx, &mut m, pre, 3);
    if ty == rd::SOA {
        m.extend_from_slice(&[1, b'r', 0xc0, 12]);
        m.extend_from_slice(&[0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3, 0, 0, 0, 4, 0, 0, 0, 5]);
    }
    let e = m.len() - lp - 2;
    m[lp + 1] = e as u8;
    // a record after it, to see where decoding continued
    m.extend_from_slice(&[0xc0, 12, 0, 1, 0, 1, 0, 0, 0, 60, 0, 4, 9, 8, 7, 6]);
    cx.note(|| util::hex(&m));
    cx.state(&m);
    walk::linear(cx, &m, true).map(|_| ())
}
/// Two pointers in one name, with overlapping and misaligned targets.
fn c02_overlap(cx: &mut Cx) -> R {
    let mut m = header(7, 0, [2, 0, 0, 0]);
    // first question: a name containing a label with arbitrary structure bytes
    let inner: Vec<u8> = {
        const AL: &[u8] = &[0, 1, 2, 3, 5, 9, 0xc0, 12, 13, 14];
        let k = cx.by_tier(3, 4);
        (0..k).map(|_| *cx.pick(AL)).collect()
    };
    m.push(inner.len() as u8);
    m.extend_from_slice(&inner);
    m.push(0);
    m.extend_from_slice(&[0, 1, 0, 1]);
    let pre: &[&[&[u8]]] = &[&[], &[b"z"]];
    put_struct_name(cx, &mut m, pre, 2);
    m.extend_from_slice(&[0, 28, 0x80, 1]);
    m.extend_from_slice(&[1, b'e', 0, 0, 0]);
    cx.note(|| util::hex(&m));
    cx.state(&m);
    walk::linear(cx, &m, false).map(|_| ())
}
/// Every 14-bit pointer value from a position beyond 0x3fff.
fn c02_far(cx: &mut Cx) -> R {
    let hi = cx.choose(256);
    let lo0 = cx.choose(64) * 4;
    let mut m = header(7, 0x8000, [0, 2, 0, 0]);
    m.extend_from_slice(&[0, 0, 41, 0, 1, 0, 0, 0, 0, 0x40, 0x10]);
    let start = m.len();
    let mut cell = 0usize;
    while m.len() < start + 0x4010 {
        m.extend_from_slice(&[2, (cell >> 8) as u8, cell as u8, 0]);
        cell += 1;
    }
    m.truncate(start + 0x4010);
    let p = m.len();
    m.extend_from_slice(&[1, b'f', 0, 0, 0, 12, 0, 1, 0, 0, 0, 5, 0, 4, 1, b'g', 0xc0, 12]);
    for k in 0..4 {
        m[p + 2] = 0xc0 | (hi as u8 & 0x3f);
        m[p + 3] = lo0 as u8 + k;
        if hi >= 64 {
            // same, but from the record data: the pointer in the owner is replaced by the root
            m[p + 2] = 0;
            m[p + 3] = 0;
            if hi >= 128 {
                return Ok(());
            }
            let b = &[1, b'f', 0, 0, 12, 0, 1, 0, 0, 0, 5, 0, 4, 1, b'g', 0xc0 | (hi as u8 & 0x3f), lo0 as u8 + k];
            m.truncate(p);
            m.extend_from_slice(b);
        }
        walk::linear(cx, &m, false)?;
    }
    cx.state(&(hi, lo0));
    cx.note(|| format!("pointers {:#06x}..+4 from offset {p}", hi * 256 + lo0));
    Ok(())
}
/// Label lengths, label counts, label bytes, and cuts inside them.
fn c02_labels(cx: &mut Cx) -> R {
    let kind = cx.choose(4);
    let mut m = header(7, 0, [1, 0, 0, 0]);
    match kind {
        0 => {
            // a label of every length, every cut
            let l = 1 + cx.choose(255);
            m.push(l as u8);
            for i in 0..l {
                m.push(i as u8 ^ 0x55);
            }
            m.push(0);
            m.extend_from_slice(&[0, 1, 0, 1]);
            let cut = cx.choose(m.len() - 12);
            let e = m.len() - cut;
            m.truncate(e);
        }
        1 => {
            // every pair of label bytes
            let a = cx.choose(256) as u8;
            for b in 0..=255u8 {
                let mut m = m.clone();
                m.extend_from_slice(&[2, a, b, 1, b, 0, 0, 1, 0, 1]);
                walk::linear(cx, &m, false)?;
            }
            return Ok(());
        }
        2 => {
            // number of labels
            let k = *cx.pick(&[1usize, 2, 126, 127, 128, 255, 256, 300, 5000]);
            for i in 0..k {
                m.extend_from_slice(&[1, i as u8]);
            }
            m.push(0);
            m.extend_from_slice(&[0, 1, 0, 1]);
            let cut = cx.choose(8);
            let e = m.len() - cut;
            m.truncate(e);
        }
        _ => {
            // two labels of all length pairs
            let a = 1 + cx.choose(63);
            for b in 1..=63usize {
                let mut m = m.clone();
                m.push(a as u8);
                m.extend((0..a).map(|i| i as u8));
                m.push(b as u8);
                m.extend((0..b).map(|i| 255 - i as u8));
                m.extend_from_slice(&[0, 0, 1, 0, 1]);
                walk::linear(cx, &m, false)?;
            }
            return Ok(());
        }
    }
    cx.state(&m);
    cx.note(|| util::show(&m));
    walk::linear(cx, &m, false).map(|_| ())
}
/// Chains of pointers with every kind of damage at every link.
fn c02_chain(cx: &mut Cx) -> R {
    let depth = 1 + cx.choose(cx.by_tier(6, 9));
    let mut starts = vec![];
    let mut m = header(7, 0x8000, [0, 2, 0, 0]);
    m.extend_from_slice(&[0, 0, 41, 0, 1, 0, 0, 0, 0, 0, 0]);
    let lp = m.len() - 1;
    let b0 = m.len();
    starts.push(m.len());
    m.extend_from_slice(&[1, b'0', 0]);
    for i in 0..depth {
        let labels = cx.choose(2);
        let target = *cx.pick(&[0usize, 1, 2]); // previous cell, inside the previous cell, first cell
        let prev = match target {
            0 => starts[i],
            1 => starts[i] + 1,
            _ => starts[0],
        };
        starts.push(m.len());
        for _ in 0..labels {
            m.extend_from_slice(&[1, b'a' + i as u8]);
        }
        m.extend_from_slice(&[0xc0, prev as u8]);
        if depth > 4 {
            // keep long chains simple
            if labels == 0 && target == 1 {
                break;
            }
        }
    }
    // damage: redirect one link forward / to itself / to the start of its own cell
    let links = starts.len() - 1;
    let d = cx.choose(1 + 3 * links);
    if d > 0 {
        let (l, k) = (1 + (d - 1) / 3, (d - 1) % 3);
        let end = if l == links { m.len() } else { starts[l + 1] };
        let ptr = end - 2;
        m[ptr + 1] = match k {
            0 => ptr as u8,
            1 => starts[l] as u8,
            _ => (end + 4) as u8,
        };
    }
    m[lp] = (m.len() - b0) as u8;
    let top = *starts.last().unwrap();
    m.extend_from_slice(&[1, b't', 0xc0, top as u8, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]);
    cx.note(|| util::hex(&m));
    cx.state(&m);
    walk::linear(cx, &m, true).map(|_| ())
}

/// Long chains of pointers, of every length up to 130 and some far beyond: there is no limit on how
/// often a name may be continued elsewhere as long as every pointer goes backwards.
fn c02_ladder(cx: &mut Cx) -> R {
    let n = *cx.pick(&(1..=130).chain([200, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4000, 8000]).collect::<Vec<usize>>());
    // labels per cell
    let labels = cx.choose(3);
    if n * (2 + 2 * labels) > 0x3f00 {
        return Ok(());
    }
    let in_data = cx.flag();
    // the cells may start behind other data
    let pad = *cx.pick(&[0usize, 1, 100]);
    let mut m = header(7, 0x8000, [0, 2, 1, 0]);
    m.extend_from_slice(&[0, 0, 41, 0, 1, 0, 0, 0, 0]);
    rd::put16(&mut m, (pad + 3 + n * (2 + 2 * labels)) as u16);
    m.extend(std::iter::repeat(0x40).take(pad));
    let mut prev = m.len();
    m.extend_from_slice(&[1, b'0', 0]);
    for i in 0..n {
        let here = m.len();
        for _ in 0..labels {
            m.extend_from_slice(&[1, i as u8]);
        }
        rd::put16(&mut m, 0xc000 | prev as u16);
        prev = here;
    }
    let ptr = [0xc0 | (prev >> 8) as u8, prev as u8];
    if in_data {
        m.extend_from_slice(&[1, b't', 0, 0, 12, 0, 1, 0, 0, 0, 9, 0, 2]);
        m.extend_from_slice(&ptr);
    } else {
        m.extend_from_slice(&ptr);
        m.extend_from_slice(&[0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]);
    }
    m.extend_from_slice(&[1, b'e', 0, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 5, 6, 7, 8]);
    cx.note(|| format!("{n} links of {labels} labels, pad {pad}, in record data: {in_data}"));
    cx.state(&(n, labels, pad, in_data));
    walk::linear(cx, &m, n % 2 == 0).map(|_| ())
}

// ------------------------------------------------------------------------------------------------
// C03

/// What the header says besides the counts has no influence on how the message is read.
fn c03_header(cx: &mut Cx) -> R {
    let hi = cx.choose(256) as u16;
    let id = *cx.pick(&[0u16, 1, 0x0100, 0x3039, 0xffff]);
    // which sections are announced to have one entry
    let shape = cx.choose(cx.by_tier(8, 16));
    let shape = if cx.thorough() { shape } else { [0usize, 1, 2, 4, 8, 3, 15, 14][shape] };
    let mut b = Build::new(id, 0);
    if shape & 1 != 0 {
        b = b.q(&n("q.x"), 12, 0x8001);
    }
    for s in 1..4 {
        if shape >> s & 1 != 0 {
            b = b.rr(s, &n("r"), 0x8001, 77, &[Data::A([1, 2, 3, 4]), Data::Txt(vec![vec![1]]), Data::Raw(41, vec![0, 0])][s - 1]);
        }
    }
    let mut m = b.done();
    let cut = *cx.pick(&[0usize, 1, 7]);
    m.truncate((m.len() - cut).max(12));
    cx.note(|| format!("flags {:#06x}..+256, ID {id}, sections {shape:04b}, {cut} bytes missing", hi << 8));
    for lo in 0..256u16 {
        m[2] = hi as u8;
        m[3] = lo as u8;
        walk::linear(cx, &m, lo & 1 == 1)?;
    }
    cx.state(&(hi, id, shape, cut));
    Ok(())
}

fn c03_walks(cx: &mut Cx) -> R {
    let max = cx.by_tier(3, 4);
    let mut b = Build::new(0xbeef, 0x8580);
    let names = [n("q.x"), n("."), n("ab.c"), n("ab.c")];
    for s in 0..4usize {
        let k = cx.choose(max);
        for i in 0..k {
            if s == 0 {
                b = b.q(&names[i], [1u16, 12, 255][i % 3], [1u16, 0x8001, 0x7fff][i % 3]);
            } else {
                let d = [Data::A([s as u8, 2, 3, 4]), Data::Txt(vec![vec![s as u8]]), Data::Raw(0x4142, vec![0xc0, 0])][(i + s) % 3].clone();
                b = b.rr(s, &names[(i + s) % 3], [1u16, 0x8003][i % 2], 0x01020304 + s as u32, &d);
            }
        }
    }
    // wrong counts
    let mut m = b.done();
    let entries: u16 = b.counts.iter().sum();
    if entries > 7 {
        return Ok(());
    }
    match cx.choose(1 + 4 * 3) {
        0 => {}
        c => {
            let (s, k) = ((c - 1) / 3, (c - 1) % 3);
            let v = match k {
                0 => b.counts[s].wrapping_add(1),
                1 => b.counts[s] | 0x100,
                _ => b.counts[s].saturating_sub(1),
            };
            m[4 + 2 * s] = (v >> 8) as u8;
            m[5 + 2 * s] = v as u8;
        }
    }
    // cut
    let all = cx.thorough() && entries <= 4;
    let c = cx.choose(if all { m.len() - 11 } else { 6 });
    let e = m.len() - if all { c } else { [0, 1, 3, 5, 9, 14][c] }.min(m.len() - 12);
    m.truncate(e);
    cx.note(|| util::hex(&m));
    walk::walk(cx, &m)
}
/// Names that begin or end alike, within one message and from one message to the next.
fn c03_kin(cx: &mut Cx) -> R {
    let base = cx.pick(vcore::corpus::bases());
    let kin = vcore::corpus::kin(base);
    let near = cx.pick(kin);
    cx.note(|| format!("{} and {}", rd::show_name(base), rd::show_name(near)));
    cx.state(&(base, near));
    let p = |n: &Name| Data::Name(rd::PTR, n.clone());
    for (a, b) in [(base, near), (near, base)] {
        for (x, y) in [(a, a), (a, b), (b, a)] {
            let m = Build::new(1, 0x8000).q(x, 1, 1).q(y, 2, 2).rr(1, y, 1, 5, &p(x)).rr(1, x, 1, 6, &p(y)).rr(2, y, 2, 7, &Data::Raw(77, vec![1])).rr(3, x, 3, 8, &Data::A([1; 4])).done();
            walk::linear(cx, &m, false)?;
        }
        let m = Build::new(1, 0).q(a, 12, 1).done();
        walk::linear(cx, &m, true)?;
        let m = Build::new(1, 0x8000).ans(a, &Data::A([1; 4])).done();
        walk::linear(cx, &m, true)?;
    }
    Ok(())
}
fn c03_cuts(cx: &mut Cx) -> R {
    let mut m = nth_corpus(cx.choose(ncorpus()));
    let k = 12 + cx.choose(m.len() - 11);
    m.truncate(k);
    cx.note(|| util::hex(&m));
    cx.state(&m);
    walk::linear(cx, &m, false)?;
    walk::walk(cx, &m)
}
fn c03_fields(cx: &mut Cx) -> R {
    let f = cx.choose(4);
    let hi = cx.choose(256) as u16;
    let nm = n("f.g");
    cx.state(&(f, hi));
    cx.note(|| format!("field {f}, values {:#06x}..{:#06x}", hi << 8, hi << 8 | 255));
    for lo in 0..256u16 {
        let v = hi << 8 | lo;
        let b = Build::new(v, 0x8000);
        let m = match f {
            0 => b.q(&nm, v, 1).q(&nm, 1, 1),
            1 => b.q(&nm, 1, v).q(&nm, 1, 1),
            2 => b.rr(1, &nm, 1, 5, &Data::Raw(v, vec![1, 2, 3, 4])).rr(3, &nm, 1, 5, &Data::A([1; 4])),
            _ => b.rr(2, &nm, v, 5, &Data::A([1, 2, 3, 4])).rr(3, &nm, 1, 5, &Data::A([1; 4])),
        }
        .done();
        walk::linear(cx, &m, lo & 1 == 1)?;
    }
    Ok(())
}
fn c03_ttl(cx: &mut Cx) -> R {
    let sec = 1 + cx.choose(3);
    let p = cx.choose(4);
    let bg = *cx.pick(&[0u32, 0xffff_ffff, 0x0102_0304]);
    for v in 0..256u32 {
        let ttl = (bg & !(0xff << (8 * p))) | v << (8 * p);
        let m = Build::new(3, 0x8000).rr(sec, &n("f"), 1, ttl, &Data::A([1; 4])).done();
        walk::linear(cx, &m, false)?;
    }
    cx.state(&(sec, p, bg));
    Ok(())
}
fn c03_many(cx: &mut Cx) -> R {
    let s = cx.choose(4);
    let k = *cx.pick(&[255u32, 256, 257, 300, 4000, 65535]);
    let short = *cx.pick(&[0u32, 1, 255, 256]);
    let mut b = Build::new(3, 0x8000);
    for i in 0..k - short.min(k) {
        let nm = vec![vec![b'a' + (i % 26) as u8]];
        b = if s == 0 { b.q(&nm, i as u16, 1) } else { b.rr(s, &nm, 1, i, &Data::Raw(99, vec![i as u8])) };
    }
    b.counts[s] = k as u16;
    if s < 3 {
        b = b.rr(3, &n("end"), 1, 1, &Data::A([4; 4]));
    }
    cx.note(|| format!("{k} entries announced in section {s}, {short} of them missing"));
    cx.state(&(s, k, short));
    let msg = b.done();
    if cx.flag() {
        return walk::linear(cx, &msg, k & 1 == 1).map(|_| ());
    }
    // Read some of them, skip the rest.
    let read = *cx.pick(&[0, 1, 2, k / 2, k - 1, k]);
    let to = s + 1 + cx.choose(4);
    if to > 3 {
        return Ok(());
    }
    cx.note(|| format!("{read} of them read, the rest skipped up to section {to}"));
    walk::skip(cx, &msg, s, read as usize, to)
}
fn c03_rdlen(cx: &mut Cx) -> R {
    let have = *cx.pick(&[0usize, 1, 255, 256, 300, 65535]);
    let say = match cx.choose(6) {
        0 => have as u32,
        1 => have as u32 + 1,
        2 => have.saturating_sub(1) as u32,
        3 => have as u32 + 256,
        4 => 0,
        _ => 65535,
    };
    let sec = 1 + cx.choose(3);
    let mut m = header(5, 0x8000, [0, 0, 0, 0]);
    m[5 + 2 * sec] = 1;
    m.extend_from_slice(&[1, b'n', 0, 0, 99, 0, 1, 0, 0, 0, 1]);
    rd::put16(&mut m, say.min(65535) as u16);
    m.extend((0..have).map(|i| i as u8));
    if cx.flag() {
        m[5 + 2 * sec] = 2;
        m.extend_from_slice(&[0, 0, 1, 0, 1, 0, 0, 0, 1, 0, 4, 1, 2, 3, 4]);
    }
    cx.note(|| format!("RDLENGTH {say} with {have} bytes, section {sec}"));
    cx.state(&m);
    walk::linear(cx, &m, false).map(|_| ())
}

// ------------------------------------------------------------------------------------------------
// C04

/// Message: question, record of `ty` with data `b` and declared length `len`, then a tail record.
fn typed(ty: u16, b: &[u8], len: usize, sec: usize) -> Vec<u8> {
    let mut m = header(9, 0x8000, [1, 0, 0, 0]);
    m[5 + 2 * sec] = 1;
    m[11] += 1;
    rd::put_name(&mut m, &n("ab.c"));
    m.extend_from_slice(&[0, 255, 0, 1, 0xc0, 15]);
    rd::put16(&mut m, ty);
    m.extend_from_slice(&[0, 1, 0, 0, 0, 30]);
    rd::put16(&mut m, len as u16);
    m.extend_from_slice(b);
    m.extend_from_slice(&[1, b't', 0, 0, 1, 0, 1, 0, 0, 0, 60, 0, 4, 7, 7, 7, 7]);
    m
}
const RDATA_POS: usize = 12 + 6 + 4 + 2 + 10;
const TYPES: &[u16] = &[rd::A, rd::AAAA, rd::CNAME, rd::NS, rd::PTR, rd::MX, rd::TXT, rd::SRV, rd::SOA];

fn c04_bytes(cx: &mut Cx) -> R {
    const AL: &[u8] = &[0, 1, 2, 0xc0, 12, 15, RDATA_POS as u8, 0x40, 0xff];
    let ty = *cx.pick(TYPES);
    let fixed: usize = match ty {
        rd::A => 2,
        rd::AAAA => 13,
        rd::MX => 1,
        rd::SRV => 5,
        _ => 0,
    };
    let k = cx.choose(cx.by_tier(6, 7) + 1);
    let mut b = vec![0x0b; fixed];
    for _ in 0..k {
        b.push(*cx.pick(AL));
    }
    let m = typed(ty, &b, b.len(), 1);
    cx.note(|| util::hex(&m));
    cx.state(&m);
    walk::linear(cx, &m, true).map(|_| ())
}
/// Well-formed data of every type, with every declared length.
fn c04_len(cx: &mut Cx) -> R {
    let d = all_data().swap_remove(cx.choose(9));
    let sec = 1 + cx.choose(3);
    let mut b = vec![];
    rd::put_data(&mut b, &d);
    let m = match cx.choose(2) {
        0 => {
            // declared length 0..=len+20: shorter cuts the data, longer swallows the tail record
            let l = cx.choose(b.len() + 20);
            typed(d.ty(), &b, l, sec)
        }
        _ => {
            // declared length right, bytes really missing or surplus inside it
            let l = cx.choose(b.len() + 4);
            let mut c = b.clone();
            c.resize(l, 0xee);
            typed(d.ty(), &c, l, sec)
        }
    };
    cx.note(|| util::hex(&m));
    cx.state(&m);
    walk::linear(cx, &m, false).map(|_| ())
}
/// SOA: two structured names and cuts.
fn c04_soa(cx: &mut Cx) -> R {
    const NM: &[&[u8]] = &[&[0], &[1, b'm', 0], &[0xc0, 12], &[1, b'r', 0xc0, 15], &[0xc0, RDATA_POS as u8], &[0x40], &[2, b'x'], &[63]];
    let mut b = vec![];
    b.extend_from_slice(cx.pick(NM));
    b.extend_from_slice(cx.pick(NM));
    b.extend((0..20).map(|i| 0x80 + i as u8 * 3));
    let l = b.len() - cx.choose(cx.by_tier(6, 22)).min(b.len());
    b.truncate(l);
    let m = typed(rd::SOA, &b, l, 1 + cx.choose(3));
    cx.note(|| util::hex(&m));
    cx.state(&m);
    walk::linear(cx, &m, false).map(|_| ())
}
/// Fixed-width fields: every 16-bit value of each, every byte of the addresses and SOA numbers.
fn c04_fields(cx: &mut Cx) -> R {
    let f = cx.choose(7);
    let hi = cx.choose(256) as u16;
    for lo in 0..256u16 {
        let v = hi << 8 | lo;
        let t = n("t.u");
        let d = match f {
            0 => Data::Mx(v, t),
            1 => Data::Srv(v, 1, 2, t),
            2 => Data::Srv(1, v, 2, t),
            3 => Data::Srv(1, 2, v, t),
            4 => {
                let mut a = [0x11; 16];
                a[hi as usize % 16] = lo as u8;
                if hi >= 16 {
                    break;
                }
                Data::Aaaa(a)
            }
            5 => {
                let mut a = [0x11; 4];
                a[hi as usize % 4] = lo as u8;
                if hi >= 4 {
                    break;
                }
                Data::A(a)
            }
            _ => {
                if hi >= 20 {
                    break;
                }
                let mut s = [0x0102_0304u32, 0x1112_1314, 0x2122_2324, 0x3132_3334, 0x4142_4344];
                let w = &mut s[hi as usize / 4];
                let sh = 8 * (hi as u32 % 4);
                *w = (*w & !(0xff << sh)) | (lo as u32) << sh;
                Data::Soa(n("m"), n("r"), s)
            }
        };
        let mut b = vec![];
        rd::put_data(&mut b, &d);
        let m = typed(d.ty(), &b, b.len(), 1);
        walk::linear(cx, &m, false)?;
    }
    cx.state(&(f, hi));
    cx.note(|| format!("field {f} high byte {hi:#x}"));
    Ok(())
}
/// TXT: entries of every length, pairs of entries, cuts.
fn c04_txt(cx: &mut Cx) -> R {
    let mut b = vec![];
    if cx.flag() {
        let l = cx.choose(256);
        b.push(l as u8);
        b.extend((0..l).map(|i| i as u8));
        let l2 = *cx.pick(&[0usize, 1, 254, 255]);
        if cx.flag() {
            b.push(l2 as u8);
            b.extend((0..l2).map(|i| !(i as u8)));
        }
    } else {
        let k = *cx.pick(&[0usize, 1, 2, 3, 255, 256, 257, 1000]);
        for i in 0..k {
            let l = i % 4;
            b.push(l as u8);
            b.extend((0..l).map(|j| (i + j) as u8));
        }
    }
    let cut = cx.choose(4).min(b.len());
    let l = b.len() - cut;
    let m = if cx.flag() {
        b.truncate(l);
        typed(rd::TXT, &b, l, 1)
    } else {
        typed(rd::TXT, &b, l, 2)
    };
    cx.note(|| util::show(&m));
    cx.state(&m);
    walk::linear(cx, &m, false).map(|_| ())
}
/// Data of every size up to the largest a record can declare: long TXT records, unsupported types,
/// intact values with a lot behind them, cut and intact.
fn c04_large(cx: &mut Cx) -> R {
    let base = *cx.pick(&[0x200usize, 0x400, 0x5dc, 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 0xc000, 0x1_0000 - 2]);
    let len = (base + cx.choose(5) - 2).min(0xffff);
    let kind = cx.choose(13);
    let mut b = vec![];
    let ty = match kind {
        0..=2 => {
            // entries of one size, the last one shorter
            let e = [255, 7, 0][kind];
            while b.len() < len {
                let n = e.min(len - b.len() - 1);
                b.push(n as u8);
                let s = b.len() as u8;
                b.extend((0..n).map(|i| i as u8 ^ s));
            }
            rd::TXT
        }
        3 => 99,
        k => {
            let d = &all_data()[k - 4];
            rd::put_data(&mut b, d);
            b.resize(len, 0x3f);
            d.ty()
        }
    };
    b.resize(len, 0xab);
    let say = len - cx.choose(3);
    let sec = 1 + cx.choose(3);
    let m = typed(ty, &b[..say], say, sec);
    cx.note(|| format!("type {ty}, {say} bytes of data, section {sec}"));
    cx.state(&(kind, say, sec));
    walk::linear(cx, &m, true)?;
    // the tail record right behind what is declared, and inside it
    let m = typed(ty, &b[..say], (say + 5).min(0xffff), sec);
    walk::linear(cx, &m, false).map(|_| ())
}
/// Every one of the 65536 types with a few kinds of data: supported ones decode, others do not.
fn c04_types(cx: &mut Cx) -> R {
    let hi = cx.choose(256) as u16;
    const D: &[&[u8]] = &[&[], &[1, 2, 3, 4], &[0xff; 16], &[0; 30]];
    let d = *cx.pick(D);
    for lo in 0..256u16 {
        let m = typed(hi << 8 | lo, d, d.len(), 3);
        walk::linear(cx, &m, false)?;
    }
    cx.state(&(hi, d));
    Ok(())
}

/// The data of a record is decoded the same whatever the other fields of the record say.
fn c04_independent(cx: &mut Cx) -> R {
    let d = all_data().swap_remove(cx.choose(10));
    let hi = cx.choose(256) as u16;
    let owner = *cx.pick(&[&[0u8][..], &[0xc0, 12], &[1, b't', 0xc0, 15]]);
    let sec = 1 + cx.choose(3);
    const FLAGS: &[u16] = &[0x8000, 0, 0x0200, 0xffff];
    let flags = if cx.thorough() { *cx.pick(FLAGS) } else { FLAGS[(hi as usize + sec) % 4] };
    const TTL: &[u32] = &[0, 1, 9, 120, 4500, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];
    let mut b = vec![];
    rd::put_data(&mut b, &d);
    // one byte too few as well
    let b = if cx.flag() { b } else { b[..b.len() - 1].to_vec() };
    for lo in 0..256u16 {
        let class = hi << 8 | lo;
        let mut m = header(9, flags, [1, 0, 0, 0]);
        m[5 + 2 * sec] = 1;
        m[11] += 1;
        rd::put_name(&mut m, &n("ab.c"));
        m.extend_from_slice(&[0, 255, 0, 1]);
        m.extend_from_slice(owner);
        rd::put16(&mut m, d.ty());
        rd::put16(&mut m, class);
        m.extend_from_slice(&TTL[(lo as usize + hi as usize) % TTL.len()].to_be_bytes());
        rd::put16(&mut m, b.len() as u16);
        m.extend_from_slice(&b);
        m.extend_from_slice(&[1, b't', 0, 0, 1, 0, 1, 0, 0, 0, 60, 0, 4, 7, 7, 7, 7]);
        walk::linear(cx, &m, lo & 1 == 1)?;
        if hi == 0 || hi == 0x80 || cx.thorough() {
            for ttl in TTL {
                let p = m.len() - 17 - b.len() - 6;
                m[p..p + 4].copy_from_slice(&ttl.to_be_bytes());
                walk::linear(cx, &m, lo & 1 == 0)?;
            }
        }
    }
    cx.state(&(d.ty(), hi, owner, sec, flags, b.len()));
    cx.note(|| format!("type {}, classes {:#06x}..+256, section {sec}, flags {flags:#06x}", d.ty(), hi << 8));
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// C05 / C06: encoder

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ent {
    Q(Name, u16, u16),
    R(Name, u16, u32, Data),
}
/// Encodes entries (sec 0..4) with the crate; `hdr` says when and what header is set.
fn encode(buf: &mut [u8], ents: &[Vec<Ent>; 4], hdr: &[(usize, Header)], finish: bool) -> Option<Result<usize, uwuhi::Error>> {
    encode_to(buf, ents, hdr, finish, 0)
}
/// As `encode`, moving on at least to section `last`.
fn encode_to(buf: &mut [u8], ents: &[Vec<Ent>; 4], hdr: &[(usize, Header)], finish: bool, last: usize) -> Option<Result<usize, uwuhi::Error>> {
    let set = |at: usize| hdr.iter().filter(move |(p, _)| *p == at).map(|(_, h)| *h);
    let mut e = MessageEncoder::new(buf);
    for h in set(0) {
        e.set_header(h);
    }
    for x in &ents[0] {
        let Ent::Q(nm, t, c) = x else { unreachable!() };
        e.question(encoder::Question::new(&conv::dn(nm)).ty(conv::qty(*t)).class(conv::qcls(*c)));
    }
    macro_rules! sec {
        ($e:ident, $i:expr, $add:ident) => {
            for h in set($i) {
                $e.set_header(h);
            }
            for x in &ents[$i] {
                let Ent::R(nm, c, ttl, d) = x else { unreachable!() };
                let rec = conv::rec(d);
                $e.$add(encoder::ResourceRecord::new(&conv::dn(nm), &rec).class(conv::cls(*c)).ttl(*ttl));
            }
        };
    }
    let upto = (1..4).rev().find(|&i| !ents[i].is_empty() || hdr.iter().any(|h| h.0 == i)).unwrap_or(0).max(last);
    if upto == 0 {
        for h in set(4) {
            e.set_header(h);
        }
        return if finish { Some(e.finish()) } else { None };
    }
    let mut e = e.answers();
    sec!(e, 1, add_answer);
    if upto == 1 {
        for h in set(4) {
            e.set_header(h);
        }
        return if finish { Some(e.finish()) } else { None };
    }
    let mut e = e.authority();
    sec!(e, 2, add_authority);
    if upto == 2 {
        for h in set(4) {
            e.set_header(h);
        }
        return if finish { Some(e.finish()) } else { None };
    }
    let mut e = e.additional();
    sec!(e, 3, add_additional);
    for h in set(4) {
        e.set_header(h);
    }
    if finish {
        Some(e.finish())
    } else {
        None
    }
}
fn matches(m: &rd::Msg, msg: &[u8], sec: usize, i: usize, e: &Ent) -> Result<(), String> {
    match e {
        Ent::Q(nm, t, c) => {
            let q = &m.q[i];
            ensure!(q.name == *nm && q.qtype == *t && (q.qclass | (q.unicast as u16) << 15) == *c, "question {i}: {q:?} on the wire instead of {e:?}");
        }
        Ent::R(nm, c, ttl, d) => {
            let r = &m.rr[sec - 1][i];
            let got = rd::data(msg, r.start, r.end, r.ty);
            ensure!(
                r.name == *nm && r.ty == d.ty() && (r.class | (r.flush as u16) << 15) == *c && r.ttl == *ttl && got == Some(Ok(d.clone())),
                "section {sec} record {i}: {r:?} {got:?} on the wire instead of {e:?}"
            );
            // the declared length must be exactly what the data needs
            if let Data::Txt(v) = d {
                ensure!(r.end - r.start == v.iter().map(|e| e.len() + 1).sum::<usize>(), "RDLENGTH of TXT");
            }
        }
    }
    Ok(())
}
/// The message holds exactly the first `k` entries (counted over all sections).
fn holds(cx: &mut Cx, msg: &[u8], ents: &[Vec<Ent>; 4], k: usize) -> Result<rd::Msg, String> {
    let Some(m) = rd::parse(msg) else { return Err("shorter than a header".into()) };
    ensure!(m.err.is_none(), "the encoded message does not parse: {:?} in section {}", m.err.unwrap().1, m.err.unwrap().0);
    let mut left = k;
    for s in 0..4 {
        let want = left.min(ents[s].len());
        left -= want;
        ensure_eq!(m.counts[s] as usize, want, "entry count of section {s}");
        for (i, e) in ents[s][..want].iter().enumerate() {
            matches(&m, msg, s, i, e)?;
        }
    }
    // and the crate's own decoder agrees
    walk::linear(cx, msg, false)?;
    Ok(m)
}
fn hdr_fields(h: &Header) -> (u16, [bool; 5], u8, u8) {
    (h.id(), [h.is_response(), h.is_query(), h.is_authority(), h.is_recursion_desired(), h.is_recursion_available()], bytemuck::cast(h.opcode()), bytemuck::cast(h.rcode()))
}
fn check_caller_header(msg: &[u8], want: &Header) -> R {
    let h: Header = bytemuck::pod_read_unaligned(&msg[..12]);
    ensure_eq!(hdr_fields(&h), hdr_fields(want), "caller's header fields after encoding");
    let w: [u8; 12] = bytemuck::cast(*want);
    // reserved bits too
    ensure_eq!(msg[3] & 0x70, w[3] & 0x70, "reserved header bits");
    Ok(())
}

fn palette(i: usize) -> (Name, u16, u32, Data) {
    let nm = n("ab.c");
    match i {
        0 => (nm, 1, 120, Data::A([1, 2, 3, 4])),
        1 => (n("."), 1, 0, Data::Txt(vec![b"k=v".to_vec(), vec![]])),
        2 => (n("x"), 255, 0xffff_ffff, Data::Srv(1, 2, 8080, n("host.local"))),
        3 => (nm, 0x8001, 1, Data::Name(rd::PTR, n("i.ab.c"))),
        4 => (n("y.ab.c"), 3, 0x0102_0304, Data::Aaaa([7; 16])),
        5 => (nm, 1, 5, Data::Soa(n("m.ab.c"), n("."), [1, 2, 3, 4, 5])),
        6 => (nm, 4, 5, Data::Mx(10, n("m.x"))),
        7 => (nm, 1, 5, Data::Name(rd::CNAME, n("."))),
        _ => (nm, 1, 5, Data::Name(rd::NS, n("ns.ab.c"))),
    }
}
fn qpalette(i: usize) -> Ent {
    match i {
        0 => Ent::Q(n("ab.c"), 1, 1),
        1 => Ent::Q(n("."), 255, 0x8001),
        2 => Ent::Q(vec![vec![0, b'.', 255]], 0x1234, 255),
        3 => Ent::Q(n("ab.c"), 28, 0x7fff),
        _ => Ent::Q(n("x.y.z"), 0, 0),
    }
}
fn pick_ents(cx: &mut Cx, pal: usize, max: usize) -> [Vec<Ent>; 4] {
    let mut v: [Vec<Ent>; 4] = Default::default();
    for s in 0..4 {
        let k = cx.choose(max + 1);
        for _ in 0..k {
            let e = if s == 0 {
                qpalette(cx.choose(pal.min(5)))
            } else {
                let (nm, c, t, d) = palette(cx.choose(pal));
                Ent::R(nm, c, t, d)
            };
            v[s].push(e);
        }
    }
    v
}
fn total_ents(e: &[Vec<Ent>; 4]) -> usize {
    e.iter().map(|v| v.len()).sum()
}
fn some_header(flags: u16, id: u16, counts: u16) -> Header {
    let mut b = [0u8; 12];
    b[0] = (id >> 8) as u8;
    b[1] = id as u8;
    b[2] = (flags >> 8) as u8;
    b[3] = flags as u8;
    for i in 4..12 {
        b[i] = (counts >> (8 * (1 - (i & 1)))) as u8;
    }
    bytemuck::cast(b)
}
fn roundtrip(cx: &mut Cx, ents: &[Vec<Ent>; 4], hdr: &[(usize, Header)], size: usize, fill: u8) -> R {
    cx.step();
    let mut buf = vec![fill; size];
    let len = match encode(&mut buf, ents, hdr, true) {
        Some(Ok(l)) => l,
        o => return Err(format!("encoding into a buffer of {size} bytes gave {o:?}")),
    };
    ensure!(len <= size, "reported length {len} exceeds the buffer");
    let m = holds(cx, &buf[..len], ents, total_ents(ents))?;
    ensure_eq!(m.end, len, "the entries end at");
    ensure!(m.flags & rd::TC == 0, "truncation flag set on a complete message");
    let want = hdr.iter().max_by_key(|h| h.0).map(|h| h.1).unwrap_or_default();
    check_caller_header(&buf[..len], &want)?;
    // the bytes do not depend on what was in the buffer
    let mut buf2 = vec![!fill; size + 7];
    let r2 = encode(&mut buf2, ents, hdr, true);
    ensure_eq!(r2, Some(Ok(len)), "length with another buffer");
    ensure!(buf[..len] == buf2[..len], "the encoded bytes depend on the previous content of the buffer");
    Ok(())
}
fn c05_sequences(cx: &mut Cx) -> R {
    let ents = pick_ents(cx, cx.by_tier(5, 9), 2);
    cx.note(|| format!("{ents:?}"));
    cx.state(&ents);
    let h = some_header(0x8581, 0x1234, 0);
    roundtrip(cx, &ents, &[(0, h)], 2048, 0xff)
}
fn c05_header(cx: &mut Cx) -> R {
    // every flag word, every point at which the header may be set, stale counts and TC in it
    let hi = cx.choose(256) as u16;
    let at = cx.choose(5);
    let counts = *cx.pick(&[0u16, 1, 0xffff, 0x0100]);
    let mut ents: [Vec<Ent>; 4] = Default::default();
    ents[0].push(qpalette(0));
    for s in 1..4 {
        let (a, b, c, d) = palette(s);
        ents[s].push(Ent::R(a, b, c, d));
    }
    if cx.flag() {
        ents[2].clear();
        ents[3].clear();
    }
    for lo in 0..256u16 {
        let h = some_header(hi << 8 | lo, lo << 8 | hi, counts);
        let mut hs = vec![(at, h)];
        if at > 0 && lo % 3 == 0 {
            hs.push((0, some_header(0xffff, 0xaaaa, 0x5555)));
        }
        roundtrip(cx, &ents, &hs, 300, 0)?;
    }
    cx.state(&(hi, at, counts));
    Ok(())
}
fn c05_fields(cx: &mut Cx) -> R {
    let f = cx.choose(9);
    let hi = cx.choose(256) as u16;
    cx.state(&(f, hi));
    cx.note(|| format!("field {f} high byte {hi:#x}"));
    for lo in 0..256u16 {
        let v = hi << 8 | lo;
        let mut ents: [Vec<Ent>; 4] = Default::default();
        let t = n("t.u");
        match f {
            0 => ents[0].push(Ent::Q(t, v, 1)),
            1 => ents[0].push(Ent::Q(t, 1, v)),
            2 => ents[1].push(Ent::R(t, v, 9, Data::A([1; 4]))),
            3 => ents[1].push(Ent::R(t.clone(), 1, 9, Data::Mx(v, t))),
            4 => ents[2].push(Ent::R(t.clone(), 1, 9, Data::Srv(v, 2, 3, t))),
            5 => ents[2].push(Ent::R(t.clone(), 1, 9, Data::Srv(1, v, 3, t))),
            6 => ents[3].push(Ent::R(t.clone(), 1, 9, Data::Srv(1, 2, v, t))),
            7 => ents[3].push(Ent::R(t.clone(), 1, (v as u32) << 16 | 0x55aa, Data::Soa(t.clone(), n("."), [v as u32, (v as u32) << 16, !(v as u32), 4, v as u32 * 65537]))),
            _ => ents[1].push(Ent::R(t, 1, v as u32 | 0xa5a5_0000, Data::Txt(vec![vec![hi as u8, lo as u8], vec![]]))),
        }
        roundtrip(cx, &ents, &[], 300, 0xff)?;
    }
    Ok(())
}
fn c05_sizes(cx: &mut Cx) -> R {
    let kind = cx.choose(6);
    let mut ents: [Vec<Ent>; 4] = Default::default();
    let mut size = 70_000;
    match kind {
        0 => {
            // label lengths in every name position
            let l = 1 + cx.choose(63);
            let nm = vec![lbl(b'l', l), lbl(0, 1)];
            ents[0].push(Ent::Q(nm.clone(), 1, 1));
            for (s, d) in [Data::Name(rd::PTR, nm.clone()), Data::Mx(1, nm.clone()), Data::Soa(nm.clone(), nm.clone(), [0; 5])].into_iter().enumerate() {
                ents[1 + s].push(Ent::R(nm.clone(), 1, 1, d));
            }
        }
        1 => {
            // TXT entry lengths
            let l = cx.choose(256);
            let k = *cx.pick(&[1usize, 2, 3]);
            ents[1].push(Ent::R(n("t"), 1, 1, Data::Txt((0..k).map(|i| vec![i as u8; l]).collect())));
            ents[1].push(Ent::R(n("u"), 1, 1, Data::A([1; 4])));
        }
        2 => {
            // RDATA up to the largest possible
            let total = *cx.pick(&[255usize, 256, 257, 511, 512, 513, 4096, 65280, 65534, 65535]);
            let mut v = vec![];
            let mut left = total;
            while left > 0 {
                let l = left.min(256) - 1;
                v.push(vec![0x61; l]);
                left -= l + 1;
            }
            ents[1].push(Ent::R(n("t"), 1, 1, Data::Txt(v)));
            ents[2].push(Ent::R(n("u"), 1, 1, Data::A([1; 4])));
        }
        3 => {
            // number of labels
            let k = *cx.pick(&[0usize, 1, 2, 126, 127, 128, 255, 256, 300]);
            let nm: Name = (0..k).map(|i| vec![i as u8]).collect();
            ents[0].push(Ent::Q(nm.clone(), 1, 1));
            ents[1].push(Ent::R(nm.clone(), 1, 1, Data::Srv(1, 2, 3, nm)));
        }
        4 => {
            // number of entries
            let s = cx.choose(4);
            let k = *cx.pick(&[254usize, 255, 256, 257, 65534, 65535]);
            if k > 1000 && !cx.thorough() && s > 1 {
                return Ok(());
            }
            for i in 0..k {
                if s == 0 {
                    ents[0].push(Ent::Q(vec![], i as u16, 1));
                } else {
                    ents[s].push(Ent::R(vec![], 1, i as u32, Data::Txt(vec![vec![]])));
                }
            }
            size = 900_000;
        }
        _ => {
            // all byte values in a label
            let v = cx.choose(256) as u8;
            let nm = vec![vec![v], vec![v, v], vec![b'a', v]];
            ents[0].push(Ent::Q(nm.clone(), 1, 1));
            ents[1].push(Ent::R(nm.clone(), 1, 1, Data::Name(rd::CNAME, nm)));
        }
    }
    cx.note(|| format!("kind {kind}, {} entries", total_ents(&ents)));
    cx.state(&ents);
    roundtrip(cx, &ents, &[], size, 0xaa)
}

/// Every name of the corpus (all label bytes and lengths, 0..127 labels, look-alikes of special names)
/// in every place where a name can be written.
fn c05_names(cx: &mut Cx) -> R {
    let hosts = vcore::corpus::hosts();
    let i = cx.choose(hosts.len());
    let nm = hosts[i].clone();
    let other = n("o.x");
    let mut ents: [Vec<Ent>; 4] = Default::default();
    let a = Data::A([1; 4]);
    match cx.choose(3) {
        0 => {
            // one name per entry, each position alone among other names
            ents[0].push(Ent::Q(nm.clone(), 12, 1));
            ents[0].push(Ent::Q(other.clone(), 1, 1));
            ents[1].push(Ent::R(nm.clone(), 1, 9, a.clone()));
            ents[1].push(Ent::R(other.clone(), 1, 9, Data::Name(rd::PTR, nm.clone())));
            ents[1].push(Ent::R(other.clone(), 1, 9, Data::Name(rd::NS, nm.clone())));
            ents[1].push(Ent::R(other.clone(), 1, 9, Data::Name(rd::CNAME, nm.clone())));
            ents[2].push(Ent::R(other.clone(), 1, 9, Data::Mx(1, nm.clone())));
            ents[2].push(Ent::R(other.clone(), 1, 9, Data::Srv(1, 2, 3, nm.clone())));
            ents[3].push(Ent::R(other.clone(), 1, 9, Data::Soa(nm.clone(), other.clone(), [1; 5])));
            ents[3].push(Ent::R(other.clone(), 1, 9, Data::Soa(other.clone(), nm.clone(), [1; 5])));
        }
        1 => {
            // repeated, with a parent and a child of it
            let child: Name = [vec![b"k".to_vec()], nm.clone()].concat();
            let parent: Name = nm.iter().skip(1).cloned().collect();
            for x in [&nm, &nm, &child, &parent, &child, &nm] {
                ents[1].push(Ent::R(x.clone(), 1, 9, Data::Name(rd::PTR, nm.clone())));
            }
            ents[3].push(Ent::R(nm.clone(), 0x8001, 9, Data::Srv(0, 0, 1, nm.clone())));
            ents[3].push(Ent::R(parent, 0x8001, 9, Data::Soa(child, nm.clone(), [3; 5])));
        }
        _ => {
            let o = &hosts[(i * 7 + 3) % hosts.len()];
            ents[0].push(Ent::Q(nm.clone(), 255, 0x8001));
            ents[0].push(Ent::Q(o.clone(), 255, 1));
            ents[1].push(Ent::R(o.clone(), 1, 9, Data::Name(rd::PTR, nm.clone())));
            ents[2].push(Ent::R(nm.clone(), 1, 9, Data::Soa(o.clone(), nm.clone(), [1, 2, 3, 4, 5])));
        }
    }
    cx.note(|| format!("{ents:?}"));
    cx.state(&ents);
    let mut size = 12;
    for e in ents.iter().flatten() {
        size += match e {
            Ent::Q(nm, ..) => rd::name_len(nm) + 4,
            Ent::R(nm, _, _, d) => {
                let mut b = vec![];
                rd::put_data(&mut b, d);
                rd::name_len(nm) + 10 + b.len()
            }
        };
    }
    roundtrip(cx, &ents, &[], size, 0x5a)
}
/// Messages of up to 65 KB whose names repeat at every distance, also beyond what a pointer can reach.
fn c05_large(cx: &mut Cx) -> R {
    let filler = *cx.pick(&[0usize, 100, 0x3f00, 0x3fd0, 0x3fe8, 0x3ff0, 0x3ff8, 0x3ffc, 0x3ffe, 0x3fff, 0x4000, 0x4001, 0x4010, 0x7ff0, 0x8000, 0xbff0, 0xc000, 0xfeff]);
    let k = *cx.pick(&[1usize, 2, 3, 20, 300]);
    let back = cx.choose(3);
    let mut ents: [Vec<Ent>; 4] = Default::default();
    let names = [n("same.owner.example"), n("other.example"), n("owner.example")];
    if back > 0 {
        ents[0].push(Ent::Q(names[0].clone(), 1, 1));
    }
    if filler > 0 {
        // filler made of entries that hold bytes looking like names and pointers
        let mut v = vec![];
        let mut left = filler;
        while left > 0 {
            let l = left.min(256) - 1;
            v.push((0..l).map(|i| [0xc0, 12, 1, b'a', 0, 63][i % 6]).collect());
            left -= l + 1;
        }
        ents[1].push(Ent::R(n("f"), 1, 1, Data::Txt(v)));
    }
    for i in 0..k {
        let nm = names[if back == 2 { i % 3 } else { 0 }].clone();
        let s = 1 + i * 3 / k;
        let d = match i % 4 {
            0 => Data::A([i as u8; 4]),
            1 => Data::Name(rd::PTR, nm.clone()),
            2 => Data::Srv(1, 2, i as u16, nm.clone()),
            _ => Data::Mx(3, names[1].clone()),
        };
        ents[s].push(Ent::R(nm, 1, i as u32, d));
    }
    cx.note(|| format!("{filler} bytes of other data, then {k} records, variant {back}"));
    cx.state(&ents);
    roundtrip(cx, &ents, &[], 100_000, 0xc0)
}

/// Ends of the entries in the complete message, in order.
fn ends(m: &rd::Msg, msg: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut p = 12;
    for _ in 0..m.counts[0] {
        p = rd::question(msg, p).unwrap().1;
        v.push(p);
    }
    for s in 0..3 {
        for r in &m.rr[s] {
            v.push(r.end);
        }
    }
    v
}
fn truncation(cx: &mut Cx, ents: &[Vec<Ent>; 4], hdr: &[(usize, Header)], sizes: &mut dyn Iterator<Item = usize>) -> R {
    let mut big = vec![0; 1 << 20];
    let full = match encode(&mut big, ents, hdr, true) {
        Some(Ok(l)) => l,
        o => return Err(format!("encoding into a large buffer gave {o:?}")),
    };
    let m = rd::parse(&big[..full]).unwrap();
    ensure!(m.err.is_none() && m.end == full, "complete message does not parse");
    let ends = ends(&m, &big);
    let want = hdr.iter().max_by_key(|h| h.0).map(|h| h.1).unwrap_or_default();
    for size in sizes {
        if size > full + 8 {
            break;
        }
        for (finish, last) in [(true, 0), (false, 0), (true, 1 + size % 3), (false, 3 - size % 3)] {
            cx.step();
            let mut buf = vec![0xff; size];
            let r = encode_to(&mut buf, ents, hdr, finish, last);
            let fits = size >= full;
            match (fits, finish, &r) {
                (true, true, Some(Ok(l))) if *l == full => {}
                (false, true, Some(Err(uwuhi::Error::Truncated))) => {}
                (_, false, None) => {}
                _ => return Err(format!("buffer of {size} bytes for a message of {full}: finish gave {r:?}")),
            }
            let tc = buf[2] & 2 != 0;
            ensure!(tc != fits, "buffer of {size} bytes for a message of {full} (finish={finish}): truncation flag is {tc}");
            let k = ends.iter().filter(|e| **e <= size).count();
            holds(cx, &buf, ents, k).map_err(|e| format!("buffer of {size} bytes for a message of {full}, {k} of {} entries fit (finish={finish}): {e}", ends.len()))?;
            check_caller_header(&buf, &want)?;
        }
    }
    Ok(())
}
fn c06_sequences(cx: &mut Cx) -> R {
    let ents = pick_ents(cx, cx.by_tier(9, 5), cx.by_tier(1, 2));
    if cx.thorough() && total_ents(&ents) > 6 {
        return Ok(());
    }
    cx.note(|| format!("{ents:?}"));
    cx.state(&ents);
    let h = some_header(0x8401, 0x4321, 0);
    truncation(cx, &ents, &[(0, h)], &mut (12..))
}
fn c06_long(cx: &mut Cx) -> R {
    // larger entries after smaller ones and the other way round, in one section
    let s = cx.choose(4);
    let k = 1 + cx.choose(cx.by_tier(3, 4));
    let mut ents: [Vec<Ent>; 4] = Default::default();
    for _ in 0..k {
        if s == 0 {
            ents[0].push(match cx.choose(3) {
                0 => Ent::Q(n("."), 1, 1),
                1 => Ent::Q(vec![lbl(b'w', 63), lbl(b'v', 63)], 28, 1),
                _ => Ent::Q(n("a.b.c.d.e"), 255, 255),
            });
        } else {
            ents[s].push(match cx.choose(4) {
                0 => Ent::R(n("."), 1, 1, Data::Txt(vec![vec![]])),
                1 => Ent::R(n("a"), 1, 1, Data::Txt(vec![vec![b'x'; 255], vec![b'y'; 40]])),
                2 => Ent::R(n("a.b"), 1, 1, Data::Soa(n("m"), n("r"), [9; 5])),
                _ => Ent::R(vec![lbl(b'w', 63)], 1, 1, Data::Srv(1, 2, 3, n("."))),
            });
        }
    }
    cx.note(|| format!("{ents:?}"));
    cx.state(&ents);
    let hs = [(cx.choose(2) * 4, some_header(0x8401 | cx.choose(2) as u16 * rd::TC, 7, 0x0101))];
    truncation(cx, &ents, &hs, &mut (12..))
}
/// The last bytes of a message in buffers that are exactly large enough, or one byte short.
fn c06_exact(cx: &mut Cx) -> R {
    let len = cx.choose(256);
    let sec = 1 + cx.choose(3);
    let first: Vec<Vec<u8>> = match cx.choose(4) {
        0 => vec![],
        1 => vec![vec![b'y'; 255]],
        2 => vec![vec![], vec![b'z'; len]],
        _ => vec![vec![b'a'; 3]; 200],
    };
    let owner = match cx.choose(3) {
        0 => vec![],
        1 => vec![lbl(b'o', 63), lbl(b'p', 63), lbl(b'q', 63), lbl(b'r', 61)],
        _ => n("a.b"),
    };
    let mut ents: [Vec<Ent>; 4] = Default::default();
    if cx.flag() {
        ents[0].push(Ent::Q(owner.clone(), 1, 1));
    }
    ents[sec].push(Ent::R(owner, 1, 1, Data::Txt([first, vec![vec![b'x'; len]]].concat())));
    cx.note(|| format!("{ents:?}"));
    cx.state(&ents);
    let mut big = vec![0; 70_000];
    let Some(Ok(full)) = encode(&mut big, &ents, &[], true) else { return Err("encoding into a large buffer failed".into()) };
    let h = some_header(0x8401, 0x4321, 0);
    truncation(cx, &ents, &[(0, h)], &mut [full - len.min(full - 12), full - 64.min(full - 12), full - 2, full - 1, full, full + 1, full + 7].into_iter())
}
/// Buffers that cannot hold a header are refused, in a way the caller can survive.
fn c06_tiny(cx: &mut Cx) -> R {
    let size = cx.choose(16);
    let head = cx.flag();
    let entry = cx.flag();
    let finish = cx.flag();
    cx.note(|| format!("{size} bytes, header {head}, question {entry}, finished {finish}"));
    cx.state(&(size, head, entry, finish));
    let name = conv::dn(&n("a.b"));
    let mut buf = vec![0x55; size + 8];
    let r = vcore::explore::catch(|| {
        let mut e = MessageEncoder::new(&mut buf[..size]);
        if head {
            e.set_header(some_header(0x8401, 0x4321, 0));
        }
        if entry {
            e.question(encoder::Question::new(&name));
        }
        if finish {
            Some(e.finish())
        } else {
            None
        }
    });
    cx.step();
    ensure!(buf[size..].iter().all(|&b| b == 0x55), "bytes behind the buffer have changed");
    ensure!(r.is_err() == (size < 12), "encoding into {size} bytes gives {r:?}");
    if size >= 12 {
        let m = rd::parse(&buf[..size]).unwrap();
        ensure!(m.flags & rd::TC != 0 || !entry, "not marked as truncated");
        ensure!(!entry || !finish || matches!(r, Ok(Some(Err(_)))), "finishing gives {r:?}");
    }
    cx.outcome(&(size < 12));
    Ok(())
}
fn c06_overflow(cx: &mut Cx) -> R {
    // far more entries than fit, or than a count can express
    let s = cx.choose(4);
    let size = *cx.pick(&[12usize, 13, 100, 512, 1500, 1_000_000]);
    let k = *cx.pick(&[255usize, 256, 300, 65535, 65536, 70_000]);
    if k > 1000 && !cx.thorough() && s > 1 {
        return Ok(());
    }
    let mut ents: [Vec<Ent>; 4] = Default::default();
    for i in 0..k {
        if s == 0 {
            ents[0].push(Ent::Q(vec![], i as u16, 1));
        } else {
            ents[s].push(Ent::R(vec![], 1, i as u32, Data::Txt(vec![vec![]])));
        }
    }
    cx.note(|| format!("{k} entries in section {s}, buffer {size}"));
    cx.state(&(s, size, k));
    let one = if s == 0 { 5 } else { 12 };
    let fit = ((size - 12) / one).min(65535).min(k);
    let mut buf = vec![0; size];
    let r = encode(&mut buf, &ents, &[], true).unwrap();
    cx.step();
    if fit == k {
        ensure_eq!(r, Ok(12 + one * k), "finish");
    } else {
        ensure_eq!(r, Err(uwuhi::Error::Truncated), "finish");
    }
    ensure_eq!(buf[2] & 2 != 0, fit != k, "truncation flag");
    holds(cx, &buf, &ents, fit)?;
    Ok(())
}
/// Text entries around the 255 bytes the wire format can express: refused when the record is made,
/// or treated as not fitting.
fn c06_strings(cx: &mut Cx) -> R {
    let len = *cx.pick(&(250..=260).chain([0, 1, 300, 511, 512, 513, 600, 1000, 65535, 65536, 65791]).collect::<Vec<usize>>());
    let at = cx.choose(3);
    let sec = cx.choose(3);
    let size = *cx.pick(&[600usize, 1500, 200_000]);
    cx.note(|| format!("entry {at} of a TXT record has {len} bytes, section {sec}, buffer {size}"));
    let entries: Vec<Vec<u8>> = (0..3).map(|i| if i == at { vec![b'x'; len] } else { vec![b'y'; 3] }).collect();
    let data = Data::Txt(entries.clone());
    cx.step();
    cx.state(&(len, at, sec, size));
    if let Err(e) = vcore::explore::catch(|| conv::rec(&data)) {
        ensure!(len > 255, "a TXT record with an entry of {len} bytes is refused: {e}");
        cx.cover("refused");
        return Ok(());
    }
    let mut ents: [Vec<Ent>; 4] = Default::default();
    ents[1].push(Ent::R(n("a."), 1, 1, Data::A([1; 4])));
    ents[sec + 1].push(Ent::R(n("b."), 1, 1, data));
    ents[3].push(Ent::R(n("c."), 1, 1, Data::A([3; 4])));
    let mut buf = vec![0; size];
    let r = encode(&mut buf, &ents, &[], true).unwrap();
    if len > 255 {
        ensure_eq!(r, Err(uwuhi::Error::Truncated), "finish with an entry that cannot be expressed");
    }
    let fits = r.is_ok();
    ensure_eq!(buf[2] & 2 != 0, !fits, "truncation flag");
    if fits {
        holds(cx, &buf, &ents, 3)?;
    } else {
        ensure!(len > 255 || size < 700, "truncated although it fits");
        holds(cx, &buf, &ents, 1)?;
    }
    Ok(())
}
fn c06_rdata(cx: &mut Cx) -> R {
    // record data around the largest length the wire format can express
    let over = *cx.pick(&[0usize, 1, 2, 256, 65536]);
    let size = *cx.pick(&[1500usize, 65535, 65536, 65546, 65600, 200_000]);
    let mut v = vec![];
    let mut left = 65535 + over;
    while left > 0 {
        let l = left.min(256) - 1;
        v.push(vec![0x61; l]);
        left -= l + 1;
    }
    let mut ents: [Vec<Ent>; 4] = Default::default();
    ents[1].push(Ent::R(n("."), 1, 1, Data::A([1; 4])));
    ents[1].push(Ent::R(n("."), 1, 1, Data::Txt(v)));
    ents[1].push(Ent::R(n("."), 1, 1, Data::A([2; 4])));
    ents[3].push(Ent::R(n("."), 1, 1, Data::A([3; 4])));
    cx.note(|| format!("TXT data of {} bytes, buffer {size}", 65535 + over));
    cx.state(&(over, size));
    let mut buf = vec![0; size];
    let r = encode(&mut buf, &ents, &[], true).unwrap();
    cx.step();
    let full = 12 + 3 * 15 + 11 + 65535;
    let k = if over > 0 {
        1
    } else if size >= full {
        4
    } else if size >= full - 15 {
        3
    } else if size >= full - 30 {
        2
    } else {
        1
    };
    ensure_eq!(r, if k == 4 { Ok(full) } else { Err(uwuhi::Error::Truncated) }, "finish");
    ensure_eq!(buf[2] & 2 != 0, k != 4, "truncation flag");
    holds(cx, &buf, &ents, k)?;
    Ok(())
}

pub fn props() -> Vec<Property> {
    const A_LOGGER: &str = "log statements are formatted by a logger that accepts every level";
    vec![
        Property {
            id: "C01",
            rule: "Every message in the enumerated sets is read section by section with all items printed (Display and Debug), skipped to each section, and handed to resolver::decode_answer, discovery::decode_answer and Advertiser::handle_packet; any panic, allocation beyond 512 MiB, lack of progress for 45 s, entry after an error, or name with more labels than bytes is a violation. states = distinct messages, transitions = decoder operations.",
            assumptions: &[A_LOGGER, "bytes outside the enumerated alphabets and lengths behave like the enumerated ones (small-scope)"],
            scenarios: vec![
                Scenario { name: "short", f: c01_short, dev: (0, 0), bounds: "all byte strings of 0..2 bytes; all uniform strings of 0..14 bytes" },
                Scenario { name: "bodies", f: c01_bodies, dev: (0, 0), bounds: "9 headers x all bodies of up to 5 (thorough 6) bytes over an 11-byte alphabet x 3 tails" },
                Scenario { name: "rdata", f: c01_rdata, dev: (0, 0), bounds: "12 record types x all data of up to 4 (6) bytes over 8 values x 6 paddings x wrong RDLENGTH" },
                Scenario { name: "text", f: c01_text, dev: (0, 0), bounds: "TXT entries of 0..255 and labels of 0..63 bytes with 13 odd sequences (bad UTF-8, NUL, dot, ...) at 10 positions (every position)" },
                Scenario { name: "mutate", f: c01_mutate, dev: (0, 0), bounds: "every single-byte change (256 values) of 6 messages covering every record type, section and compression" },
                Scenario { name: "mutate2", f: c01_mutate2, dev: (0, 0), bounds: "every pair of positions of the 6 messages x 4x4 (9x9) values" },
                Scenario { name: "cut", f: c01_cut, dev: (0, 0), bounds: "every prefix of the 6 messages x 6 tails" },
                Scenario { name: "cells", f: c01_cells, dev: (0, 0), bounds: "1..2 (1..3) cells of 1..63 labels ending in a pointer to the start, middle or end of any cell, at 5 distances, entered from behind" },
                Scenario { name: "extreme", f: c01_extreme, dev: (0, 0), bounds: "pointer ladders, huge names, maximal counts, maximal records, uniform data; 600..140000 bytes" },
            ],
        },
        Property {
            id: "C02",
            rule: "Every enumerated message is decoded by the crate and by an independent reference decoder; labels, resume position (seen in the fields after the name) and kind of error must agree.",
            assumptions: &["the reference decoder (core/src/refdns.rs) is right about RFC 1035 4.1.4"],
            scenarios: vec![
                Scenario { name: "bytes", f: c02_bytes, dev: (0, 0), bounds: "name in a question, owner, or PTR data: all 5 (6) byte strings over 14 values x 2 tails" },
                Scenario { name: "layout", f: c02_layout, dev: (0, 0), bounds: "2 (3) question names x owner and data name with 0..1 labels and root or a pointer to every position up to 3 beyond itself x PTR/MX/SRV/SOA" },
                Scenario { name: "overlap", f: c02_overlap, dev: (0, 0), bounds: "label content of 3 (4) bytes over 10 structural values x second name pointing at every position, incl. overlapping and misaligned targets" },
                Scenario { name: "far", f: c02_far, dev: (0, 0), bounds: "all 16384 pointer values from an owner and from record data beyond offset 0x3fff" },
                Scenario { name: "labels", f: c02_labels, dev: (0, 0), bounds: "label lengths 1..255 with every cut; all byte pairs; 1..5000 labels; all pairs of lengths 1..63" },
                Scenario { name: "ladder", f: c02_ladder, dev: (0, 0), bounds: "chains of 1..130 and up to 8000 pointers with 0..2 labels per link, 3 positions, from an owner or record data" },
                Scenario { name: "chain", f: c02_chain, dev: (0, 0), bounds: "pointer chains of up to 6 (9) links, 3 targets per link, each link damaged in 3 ways" },
            ],
        },
        Property {
            id: "C03",
            rule: "Every enumerated message is read by every sequence of read/skip/stop operations (or in order) and compared entry by entry with the reference parse.",
            assumptions: &["the reference parser is right about RFC 1035 4.1 and RFC 6762 10.2/18.12"],
            scenarios: vec![
                Scenario { name: "walks", f: c03_walks, dev: (0, 0), bounds: "0..2 (0..3, at most 7 in all) entries in each of 4 sections x 13 count lies x 6 (thorough: all with at most 4 entries) cuts x all read/skip/stop walks" },
                Scenario { name: "kin", f: c03_kin, dev: (0, 0), bounds: "31 names of 1 to 127 labels x every name one change away (a byte, a label, split, joined, shorter, longer): both in every place of a message, and one message after the other" },
                Scenario { name: "cuts", f: c03_cuts, dev: (0, 0), bounds: "every prefix of 6 corpus messages x all walks" },
                Scenario { name: "fields", f: c03_fields, dev: (0, 0), bounds: "all 65536 values of qtype, qclass, type, class (and ID)" },
                Scenario { name: "ttl", f: c03_ttl, dev: (0, 0), bounds: "every value of each TTL byte over 3 backgrounds, 3 sections" },
                Scenario { name: "header", f: c03_header, dev: (0, 0), bounds: "all 65536 flag words x 5 IDs x 8 (all 16) sets of non-empty sections x 3 cuts" },
                Scenario { name: "many", f: c03_many, dev: (0, 0), bounds: "255..65535 entries per section, complete or 1/255/256 missing: all read, or 0, 1, 2, half, all but one or all of them read and the rest skipped up to any later section" },
                Scenario { name: "rdlen", f: c03_rdlen, dev: (0, 0), bounds: "RDLENGTH 0..65535 against present data, at the end or before another record" },
            ],
        },
        Property {
            id: "C04",
            rule: "For every enumerated record the typed value (or kind of error, or 'unsupported') must equal the reference decoding of the bytes inside RDLENGTH, and the entry after it must decode unchanged.",
            assumptions: &["the reference decoder is right about RFC 1035 3.3, RFC 2782, RFC 3596"],
            scenarios: vec![
                Scenario { name: "bytes", f: c04_bytes, dev: (0, 0), bounds: "9 types x all data of up to 6 (7) variable bytes over 9 values, tail record after it" },
                Scenario { name: "len", f: c04_len, dev: (0, 0), bounds: "every declared length from 0 to 20 beyond the data, and data really shortened or extended, 3 sections" },
                Scenario { name: "soa", f: c04_soa, dev: (0, 0), bounds: "8x8 name forms, data cut by 0..5 (0..21) bytes" },
                Scenario { name: "fields", f: c04_fields, dev: (0, 0), bounds: "all 65536 values of the MX and SRV numbers; all values of each address and SOA byte" },
                Scenario { name: "txt", f: c04_txt, dev: (0, 0), bounds: "entries of 0..255 bytes, up to 1000 entries, cuts" },
                Scenario { name: "independent", f: c04_independent, dev: (0, 0), bounds: "10 types x all 65536 class values (with 8 TTLs each for classes 0..255 with and without the flush bit; thorough: for all) x 3 owners x 3 sections x 4 header flags (quick: one per section and class) x complete or one byte short" },
                Scenario { name: "large", f: c04_large, dev: (0, 0), bounds: "10 sizes +-2 up to the largest RDLENGTH x long TXT records in 3 styles, an unsupported type and 9 intact values with surplus x 3 cuts x 3 sections, the declared length right or too long" },
                Scenario { name: "types", f: c04_types, dev: (0, 0), bounds: "all 65536 record types x 4 data shapes" },
            ],
        },
        Property {
            id: "C05",
            rule: "Every enumerated sequence of entries is encoded, parsed by the reference parser and by the crate, and compared field by field; encoding is repeated over a differently filled, larger buffer and must give the same bytes.",
            assumptions: &["TXT records without entries or with an entry of more than 255 bytes are excluded (documented precondition)"],
            scenarios: vec![
                Scenario { name: "sequences", f: c05_sequences, dev: (0, 0), bounds: "0..2 entries in each of 4 sections from palettes of 5 (9)" },
                Scenario { name: "header", f: c05_header, dev: (0, 0), bounds: "all 65536 flag words x 5 moments of setting the header x 4 stale counts" },
                Scenario { name: "fields", f: c05_fields, dev: (0, 0), bounds: "all 65536 values of 9 fields" },
                Scenario { name: "names", f: c05_names, dev: (0, 0), bounds: "about 4300 names (all label bytes next to others, all lengths, 0..127 labels, special names) in every name position, repeated, with parent and child; into a buffer of exactly the uncompressed size" },
                Scenario { name: "large", f: c05_large, dev: (0, 0), bounds: "0..65279 bytes in front of 1..300 records with repeated names, 3 variants" },
                Scenario { name: "sizes", f: c05_sizes, dev: (0, 0), bounds: "label lengths 1..63, TXT entries 0..255, RDATA up to 65535, 0..300 labels, up to 65535 entries, all label bytes" },
            ],
        },
        Property {
            id: "C06",
            rule: "Every enumerated sequence of entries is encoded into every buffer size from 12 to beyond the full size, finished and dropped; the result, the truncation flag, the counts and the decodable prefix must agree with the entry boundaries.",
            assumptions: &["TXT records without entries or with an entry of more than 255 bytes are excluded (documented precondition)"],
            scenarios: vec![
                Scenario { name: "sequences", f: c06_sequences, dev: (0, 0), bounds: "0..1 (0..2, at most 6 in all) entries per section from palettes of 9 (5), every buffer size" },
                Scenario { name: "long", f: c06_long, dev: (0, 0), bounds: "1..3 (4) entries of very different sizes in each section, every buffer size, stale header" },
                Scenario { name: "exact", f: c06_exact, dev: (0, 0), bounds: "last TXT entry of 0..255 bytes behind none, one, two or 200 others, 3 owners, with and without a question, 3 sections: buffers exactly fitting, up to 7 bytes longer, or shorter by 1, 2, 64 or the entry" },
                Scenario { name: "tiny", f: c06_tiny, dev: (0, 0), bounds: "buffers of 0 to 15 bytes x header set or not x question or not x finished or dropped: refused exactly if below 12" },
                Scenario { name: "overflow", f: c06_overflow, dev: (0, 0), bounds: "255..70000 entries into buffers of 12..1000000 bytes" },
                Scenario { name: "strings", f: c06_strings, dev: (0, 0), bounds: "22 lengths of a TXT entry x 3 positions x 3 sections x 3 buffers" },
                Scenario { name: "rdata", f: c06_rdata, dev: (0, 0), bounds: "record data of 65535..131071 bytes into buffers of 1500..200000 bytes" },
            ],
        },
    ]
}
