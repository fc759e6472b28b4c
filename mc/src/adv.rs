//! C10–C12: the advertiser.
use crate::pool;
use crate::advmodel::{self as am, inst, nm, show_ops, Op};
use std::net::SocketAddr;
use uwuhi::service::advertising::Advertiser;
use vcore::explore::{catch, Property, Scenario};
use vcore::refdns::{self as rd, Build, Name};
use vcore::world::{Ev, World, MS};

const US: u64 = 1000;
use vcore::{corpus, ensure, ensure_eq, logcap, util, Cx};

type R = Result<(), String>;

/// Operations on an advertiser, chosen so that their names are easy to confuse: case, prefixes,
/// dots inside labels, bytes that differ in the "case bit" without being letters, same names under
/// both transports, instance names that look like service names.
fn catalog() -> Vec<Op> {
    vec![
        nm(b"host", "192.0.2.1"),
        nm(b"Host", "fd00::1"),
        nm(b"hos", "192.0.2.2"),
        nm(b"h[`1\xc1", "192.0.2.3"),
        nm(b"a.b", "fd00::ff"),
        inst(b"in", b"_svc", true, "host.local", 80, &[]),
        inst(b"In st.x", b"_svc", true, "Host.local", 0xff01, &[b"Key=V=1", b"flag"]),
        inst(b"in", b"_svc", false, "h", 65535, &[b"z=\x00\xff"]),
        inst(b"_x", b"_Y2", false, "", 0, &[b"a=", b"b=\xc0\x0c", b"c"]),
        inst(b"in", b"_svc-1", true, "far.example.org", 256, &[b"one=1", b"two=2", b"three=3"]),
    ]
}
fn config(cx: &mut Cx, depth: usize) -> Vec<Op> {
    let cat = catalog();
    let firsts: Vec<Op> = cat.iter().filter(|o| matches!(o, Op::Name(..))).cloned().collect();
    let mut ops = vec![cx.pick(&firsts).clone()];
    for _ in 0..depth {
        let k = cx.choose(cat.len() + 1);
        if k == 0 {
            break;
        }
        ops.push(cat[k - 1].clone());
    }
    ops
}
/// Names worth asking for: everything advertised, and neighbours of it.
fn variants(n: &Name) -> Vec<Name> {
    let mut v = vec![n.clone()];
    let map = |f: fn(&u8) -> u8| -> Name { n.iter().map(|l| l.iter().map(f).collect()).collect() };
    v.push(map(|b| b.to_ascii_uppercase()));
    v.push(map(|b| b.to_ascii_lowercase()));
    v.push(map(|b| if b.is_ascii_alphabetic() { b ^ 0x20 } else { *b }));
    // not letters: must stay different
    v.push(map(|b| if b.is_ascii_alphanumeric() || *b == b'_' { *b } else { b ^ 0x20 }));
    v.push(map(|b| if *b == b'_' { 0x7f } else { *b }));
    v.push(n[1..].to_vec());
    v.push(n[..n.len() - 1].to_vec());
    let mut w = n.clone();
    w.push(b"local".to_vec());
    v.push(w);
    let mut w = n.clone();
    w.insert(0, b"host".to_vec());
    v.push(w);
    let mut w = n.clone();
    w[0].push(b'x');
    v.push(w);
    let mut w = n.clone();
    if w[0].len() > 1 {
        w[0].pop();
        v.push(w);
    }
    let mut w = n.clone();
    w.last_mut().unwrap().push(b'x');
    v.push(w);
    let mut w = n.clone();
    w.last_mut().unwrap().pop();
    v.push(w);
    // label boundaries moved
    if n.len() >= 2 {
        let mut w = n.clone();
        let second = w.remove(1);
        w[0].push(b'.');
        w[0].extend(second);
        v.push(w);
    }
    if let Some(p) = n[0].iter().position(|&b| b == b'.') {
        let mut w = n.clone();
        let tail = w[0].split_off(p + 1);
        w[0].pop();
        w.insert(1, tail);
        v.push(w);
    }
    v
}
fn advertised_names(ops: &[Op]) -> Vec<Name> {
    let mut v: Vec<Name> = vec![];
    for (n, _) in am::db(ops) {
        if !v.contains(&n) {
            v.push(n);
        }
    }
    if !v.contains(&am::enum_name()) {
        v.push(am::enum_name());
    }
    v
}
fn ask(cx: &mut Cx, ops: &[Op], query: &[u8]) -> R {
    let mut a = am::build(ops);
    cx.step();
    let r = a.handle_packet(query);
    let r = match &r {
        Ok(r) => *r,
        Err(_) => None,
    };
    cx.outcome(&r.map(|r| r.len()));
    am::judge(&am::db(ops), query, r).map_err(|e| format!("[{}]: {e}", show_ops(ops)))
}

const QTYPES: [u16; 13] = [1, 28, 33, 16, 12, 255, 253, 252, 254, 15, 5, 0, 0x100];
const QCLASSES: [u16; 9] = [1, 255, 0x8001, 0x80ff, 3, 0, 0x0101, 254, 0x7fff];

/// Queries between the operations of one advertiser: each is answered from what was added so far.
fn c10_grow(cx: &mut Cx) -> R {
    let cat = catalog();
    let firsts: Vec<Op> = cat.iter().filter(|o| matches!(o, Op::Name(..))).cloned().collect();
    let mut ops = vec![cx.pick(&firsts).clone()];
    let mut a = am::build(&ops);
    let qs = grow_queries();
    for _ in 0..cx.by_tier(2, 3) {
        let k = cx.choose(1 + qs.len());
        if k > 0 {
            let (n, ty) = &qs[k - 1];
            let q = Build::new(k as u16, 0).q(n, *ty, 1).done();
            cx.note(|| format!("asked for {} type {ty}", rd::show_name(n)));
            cx.step();
            let r = a.handle_packet(&q).map(|r| r.map(|r| r.to_vec())).unwrap_or(None);
            am::judge(&am::db(&ops), &q, r.as_deref()).map_err(|e| format!("[{}]: {e}", show_ops(&ops)))?;
        }
        let op = cx.pick(&cat).clone();
        am::apply(&mut a, &op);
        cx.note(|| show_ops(std::slice::from_ref(&op)));
        ops.push(op);
    }
    cx.state(&ops);
    for (n, ty) in &qs {
        let q = Build::new(77, 0).q(n, *ty, 1).done();
        cx.step();
        let r = a.handle_packet(&q).map(|r| r.map(|r| r.to_vec())).unwrap_or(None);
        cx.outcome(&r.as_ref().map(|r| r.len()));
        am::judge(&am::db(&ops), &q, r.as_deref()).map_err(|e| format!("[{}]: {e}", show_ops(&ops)))?;
    }
    Ok(())
}
/// A query for each name of the catalogue.
fn grow_queries() -> Vec<(Name, u16)> {
    let mut ops = catalog();
    ops.retain(|o| *o != nm(b"a.b", "fd00::ff") && *o != nm(b"hos", "192.0.2.2"));
    let mut v: Vec<(Name, u16)> = vec![];
    for n in advertised_names(&ops) {
        if !v.iter().any(|m| rd::eq_ci(&m.0, &n)) {
            v.push((n, 255));
        }
    }
    v.push((rd::n("host.local"), 28));
    v
}

/// One question: every configuration x every advertised name and neighbour x types x classes.
fn c10_single(cx: &mut Cx) -> R {
    let ops = config(cx, cx.by_tier(2, 3));
    let names = advertised_names(&ops);
    let base = cx.pick(&names).clone();
    let vs = variants(&base);
    let name = cx.pick(&vs).clone();
    let qt = *cx.pick(&QTYPES);
    let qc = *cx.pick(&QCLASSES);
    let q = Build::new(0, 0).q(&name, qt, qc).done();
    cx.state(&(&ops, &q));
    cx.note(|| format!("[{}] asked for {} type {qt} class {qc:#x}", show_ops(&ops), rd::show_name(&name)));
    ask(cx, &ops, &q)
}
/// Several questions, header variants, other sections in the query, compressed names.
fn c10_multi(cx: &mut Cx) -> R {
    let ops = config(cx, cx.by_tier(1, 2));
    let mut names = vec![];
    for n in advertised_names(&ops) {
        let v = variants(&n);
        names.push(v[0].clone());
        names.push(v[3].clone());
        names.push(v[6].clone());
    }
    names.truncate(12);
    let nq = 2 + cx.choose(cx.by_tier(1, 2));
    let style = cx.choose(4);
    let id = [0u16, 12345, 0x00ff, 0xff00][style];
    let flags = [0, rd::RD, rd::TC | rd::RA | 0x70, rd::AA][style];
    let mut b = Build::new(id, flags);
    let mut firstpos = None;
    for k in 0..nq {
        let name = cx.pick(&names).clone();
        let qt = if k == 2 { *cx.pick(&[1u16, 255]) } else { *cx.pick(&[1u16, 28, 33, 16, 12, 255]) };
        let qc = *cx.pick(&[1u16, 0x80ff]);
        if style == 1 && k > 0 && name.last().map(|l| &l[..]) == Some(b"local") {
            // last label given by a pointer to the first question's name or its last label
            if let Some((p, first)) = &firstpos {
                let first: &Name = first;
                if let Some(skip) = (0..first.len()).find(|&i| name.len() >= first.len() - i && name[name.len() - (first.len() - i)..] == first[i..]) {
                    let off: usize = p + first[..skip].iter().map(|l| l.len() + 1).sum::<usize>();
                    for l in &name[..name.len() - (first.len() - skip)] {
                        b.body.push(l.len() as u8);
                        b.body.extend_from_slice(l);
                    }
                    rd::put16(&mut b.body, 0xc000 | off as u16);
                    rd::put16(&mut b.body, qt);
                    rd::put16(&mut b.body, qc);
                    b.counts[0] += 1;
                    cx.cover("compressed question");
                    continue;
                }
            }
        }
        if k == 0 {
            firstpos = Some((b.pos(), name.clone()));
        }
        b = b.q(&name, qt, qc);
    }
    if style == 2 {
        // known answers and additional records do not change what is asked
        b = b.ans(&names[0], &rd::Data::A([192, 0, 2, 1]));
        b = b.rr(2, &names[0], 1, 0, &rd::Data::A([1, 1, 1, 1]));
        b = b.rr(3, &vec![], 1440, 0, &rd::Data::Raw(41, vec![0, 1, 2]));
    }
    let q = b.done();
    cx.state(&(&ops, &q));
    cx.note(|| format!("[{}] asked {}", show_ops(&ops), util::show(&q)));
    ask(cx, &ops, &q)
}
/// The reply's ID and the query's header flags.
fn c10_header(cx: &mut Cx) -> R {
    let ops = vec![catalog()[0].clone(), catalog()[6].clone()];
    let hi = cx.choose(256) as u16;
    let all_flags = cx.flag();
    let name = rd::n("host.local");
    for lo in 0..256u16 {
        let w = hi << 8 | lo;
        let (id, fl) = if all_flags { (0x1234, w) } else { (w, 0) };
        let q = Build::new(id, fl).q(&name, 1, 1).done();
        cx.state(&q);
        ask(cx, &ops, &q)?;
    }
    Ok(())
}
/// Replies around the message size: every total length from below to above it, with the cut in
/// every field of the last record(s).
fn c10_size(cx: &mut Cx) -> R {
    let span = cx.by_tier(100, 320);
    let shape = cx.choose(4);
    let d = cx.choose(span);
    // four full entries first, then one or two whose size is varied
    let entry = |k: u8, n: usize| -> Vec<u8> {
        let mut e = vec![b'k', b'0' + k, b'='];
        e.extend(std::iter::repeat(b'v').take(n - 3));
        e
    };
    let host = nm(b"h", "192.0.2.1");
    let big = |i: &[u8], n: usize, last: usize| -> Op {
        let mut t: Vec<Vec<u8>> = (0..n).map(|k| entry(k as u8, 255)).collect();
        if last >= 3 {
            t.push(entry(9, last));
        }
        let t: Vec<&[u8]> = t.iter().map(|x| &x[..]).collect();
        inst(i, b"_s", true, "h.local", 1, &t)
    };
    let (ops, name, qt): (Vec<Op>, Name, u16) = match shape {
        // one TXT crossing the limit (plus the SRV before it)
        0 => (vec![host, big(b"i", 5, 0), big(b"j", 0, 3 + d % 250)], rd::n("i._s._tcp.local"), 255),
        1 => (vec![host, big(b"i", 5, 100 + d % 150)], rd::n("i._s._tcp.local"), 255),
        // many PTRs to instances of one service
        2 => {
            let mut o = vec![host];
            for k in 0..45u8 {
                o.push(inst(&[b'a' + k % 26, b'0' + k / 26], b"_s", true, "h.local", 1, &[]));
            }
            o.push(inst(&vec![b'z'; 1 + d % 63], b"_s", true, "h.local", 1, &[]));
            (o, rd::n("_s._tcp.local"), 12)
        }
        // two instances' TXT and SRV in one reply (two questions), second instance's cut
        _ => (vec![host, big(b"i", 5, 30 + d % 200), big(b"j", 0, 200)], rd::n("i._s._tcp.local"), 16),
    };
    let mut b = Build::new(7, 0).q(&name, qt, 1);
    if shape != 2 {
        b = b.q(&rd::n("h.local"), 1, 1);
        b = b.q(&rd::n("j._s._tcp.local"), 255, 1);
    }
    let q = b.done();
    let total: usize = 12 + am::answers(&am::db(&ops), &rd::parse(&q).unwrap().q).iter().map(|(n, d)| am::wire_len(n, d)).sum::<usize>();
    cx.state(&(shape, total));
    cx.cover(if total > 1500 { "does not fit" } else { "fits" });
    cx.note(|| format!("shape {shape}, uncompressed reply of {total} bytes"));
    ask(cx, &ops, &q)
}

/// One thing takes every value of its family; everything advertised is asked for.
fn c10_values(cx: &mut Cx) -> R {
    let ops = am::varied(cx, false);
    let mut names: Vec<Name> = vec![];
    for n in advertised_names(&ops) {
        if names.len() < 8 {
            names.push(n);
        }
    }
    cx.note(|| show_ops(&ops));
    cx.state(&ops);
    let mut a = am::build(&ops);
    let db = am::db(&ops);
    for n in &names {
        // as advertised, and with the case of all letters swapped
        for swap in [false, true] {
            let q: Name = if swap { n.iter().map(|l| l.iter().map(|b| if b.is_ascii_alphabetic() { b ^ 0x20 } else { *b }).collect()).collect() } else { n.clone() };
            for qt in [1u16, 28, 33, 16, 12, 255] {
                cx.step();
                let p = Build::new(qt, 0).q(&q, qt, 1).done();
                let r = a.handle_packet(&p);
                let r = match &r {
                    Ok(r) => *r,
                    Err(_) => None,
                };
                am::judge(&db, &p, r).map_err(|e| format!("[{}]: {e}", show_ops(&ops)))?;
            }
        }
    }
    Ok(())
}
/// Every name of the families as the name asked for.
fn c10_asked(cx: &mut Cx) -> R {
    let ops = vec![nm(b"host", "192.0.2.1"), nm(b"x", "fd00::1"), inst(b"in", b"_svc", true, "host.local", 80, &[b"a=b"]), inst(b"x", b"_x", false, "host.local", 81, &[])];
    let name = cx.pick(corpus::hosts()).clone();
    let mut name = name;
    if cx.flag() && rd::name_len(&name) <= 249 {
        name.push(b"local".to_vec());
    }
    cx.state(&name);
    cx.note(|| rd::show_name(&name));
    for qt in [1u16, 28, 33, 16, 12, 255] {
        let p = Build::new(qt, 0).q(&name, qt, 1).done();
        ask(cx, &ops, &p)?;
        let p = Build::new(qt, 0).q(&name, qt, 1).q(&rd::n("host.local"), 1, 1).q(&name, qt, 255).done();
        ask(cx, &ops, &p)?;
    }
    Ok(())
}
/// Names next to advertised ones, and advertised names next to each other.
fn c10_kin(cx: &mut Cx) -> R {
    let l: Vec<u8> = cx.pick(&corpus::bases().iter().map(|b| b[0].clone()).collect::<Vec<_>>()).clone();
    let role = cx.choose(3);
    // nothing else, or something close to it
    let near: Vec<Vec<u8>> = corpus::kin(&vec![l.clone()]).iter().filter(|n| n.len() == 1).map(|n| n[0].clone()).collect();
    let k = cx.choose(near.len() + 1);
    let mut us = [b"_".to_vec(), l.clone()].concat();
    us.truncate(63);
    let mk = |x: &[u8], last: u8| match role {
        0 => Op::Name(x.to_vec(), [192, 0, 2, last].into()),
        1 => inst(x, b"_svc", true, "host.local", 80 + last as u16, &[]),
        _ => {
            let mut s = [b"_", x].concat();
            s.truncate(63);
            inst(b"in", &s, false, "host.local", 80 + last as u16, &[])
        }
    };
    let mut ops = vec![nm(b"base", "192.0.2.99"), mk(&l, 1)];
    if k > 0 {
        ops.push(mk(&near[k - 1], 2));
    }
    cx.state(&ops);
    cx.note(|| show_ops(&ops));
    let name: Name = match role {
        0 => vec![l.clone(), b"local".to_vec()],
        1 => [&[l.clone()], &rd::n("_svc._tcp.local")[..]].concat(),
        _ => [&[us], &rd::n("_udp.local")[..]].concat(),
    };
    let mut a = am::build(&ops);
    let db = am::db(&ops);
    let mut names: Vec<&Name> = corpus::kin(&name).iter().collect();
    if k > 0 {
        // what is new about this configuration
        names.retain(|n| n.iter().any(|l| *l == near[k - 1]));
    }
    names.push(&name);
    for q in names {
        for qt in [255u16, [1, 33, 12][role]] {
            cx.step();
            let p = Build::new(qt, 0).q(q, qt, 1).done();
            let r = a.handle_packet(&p);
            let r = match &r {
                Ok(r) => *r,
                Err(_) => None,
            };
            am::judge(&db, &p, r).map_err(|e| format!("[{}] {}: {e}", show_ops(&ops), rd::show_name(q)))?;
        }
    }
    Ok(())
}
/// Every type and every class, asked about a host, an instance and a service.
fn c10_types(cx: &mut Cx) -> R {
    let ops = vec![nm(b"host", "192.0.2.1"), nm(b"host", "fd00::1"), inst(b"in", b"_svc", true, "host.local", 80, &[b"a=b"])];
    let hi = cx.choose(256) as u16;
    let names = [rd::n("host.local"), rd::n("in._svc._tcp.local"), rd::n("_svc._tcp.local")];
    let name = cx.pick(&names).clone();
    let class = cx.flag();
    for lo in 0..256u16 {
        let w = hi << 8 | lo;
        let q = if class { Build::new(1, 0).q(&name, 255, w).done() } else { Build::new(1, 0).q(&name, w, 1).done() };
        cx.state(&q);
        ask(cx, &ops, &q)?;
    }
    Ok(())
}

/// Any number of questions, one, two or all of which match.
fn c10_questions(cx: &mut Cx) -> R {
    let ops = vec![nm(b"host", "192.0.2.1"), nm(b"host", "fd00::1"), inst(b"in", b"_svc", true, "host.local", 80, &[b"a=b"])];
    let style = cx.choose(3);
    // as many as a packet of the usual size holds, and some numbers beyond
    let max = [115, 240, 240][style];
    let n = match cx.choose(max + 5) {
        k if k < max => k + 1,
        k => [255, 256, 300, 1000, 10_000][k - max],
    };
    let which = cx.choose(5);
    let at: Vec<usize> = match which {
        0 => vec![0],
        1 => vec![n / 2],
        2 => vec![n - 1],
        3 => vec![0, n - 1],
        _ => (0..n).collect(),
    };
    let (host, other) = (rd::n("host.local"), rd::n("x.local"));
    let mut b = Build::new(3, 0);
    for k in 0..n {
        let hit = at.contains(&k);
        match style {
            0 => b = b.q(if hit { &host } else { &other }, 1, 1),
            // everything after the first question compressed: the same name with other types, or other names
            _ if k == 0 => b = b.q(&host, if hit { 1 } else { 15 }, 1),
            1 => {
                b.body.extend_from_slice(&[0xc0, 12, 0, if hit { 28 } else { 15 }, 0, 1]);
                b.counts[0] += 1;
            }
            _ => {
                b.body.extend_from_slice(&[0xc0, if hit { 12 } else { 17 }, 0, 255, 0, 1]);
                b.counts[0] += 1;
            }
        }
    }
    let q = b.done();
    cx.state(&q);
    cx.note(|| format!("{n} questions in style {style}, matching: {}", ["first", "middle", "last", "first and last", "all"][which]));
    ask(cx, &ops, &q)
}
/// A querier's known answers, and records in any other section, change nothing.
fn c10_known(cx: &mut Cx) -> R {
    let ops = vec![nm(b"host", "192.0.2.1"), nm(b"host", "fd00::1"), inst(b"in", b"_svc", true, "host.local", 80, &[b"a=b"])];
    let db = am::db(&ops);
    let id = *cx.pick(&[0u16, 7, 0xffff]);
    let flags = *cx.pick(&[0, rd::TC, rd::RD | rd::TC]);
    let names = advertised_names(&ops);
    let name = cx.pick(&names).clone();
    let (qt, qc) = (*cx.pick(&[1u16, 12, 255]), *cx.pick(&[1u16, 0x8001]));
    let sec = 1 + cx.choose(3);
    let ttl = *cx.pick(&[0u32, 1, 60, 119, 120, 4500, 0xffff_ffff]);
    let class = *cx.pick(&[1u16, 0x8001]);
    let mut b = Build::new(id, flags).q(&name, qt, qc);
    // any subset of what is advertised, or all of it several times
    let sub = cx.choose((1 << db.len()) + 1);
    for (k, (n, d)) in db.iter().enumerate() {
        for _ in 0..if sub >> db.len() & 1 == 1 { 3 } else { sub >> k & 1 } {
            b = b.rr(sec, n, class, ttl, d);
        }
    }
    let q = b.done();
    cx.state(&q);
    cx.note(|| format!("{} type {qt} with known records {sub:b} in section {sec}, TTL {ttl}", rd::show_name(&name)));
    ask(cx, &ops, &q)
}

// ---------------------------------------------------------------- C11

fn probe_config() -> Vec<Op> {
    let big: Vec<Vec<u8>> = (0..7u8).map(|k| [vec![b'k', b'0' + k, b'='], vec![b'A' + k; 250]].concat()).collect();
    let big: Vec<&[u8]> = big.iter().map(|v| &v[..]).collect();
    vec![
        nm(b"host", "192.0.2.1"),
        nm(b"host", "fd00::1"),
        nm(b"other", "192.0.2.9"),
        inst(b"in", b"_svc", true, "host.local", 80, &[b"a=b"]),
        inst(b"big", b"_svc", true, "host.local", 81, &big),
    ]
}
/// Everything that has no answer: headers, malformed question sections, unmatched questions.
fn c11_silent(cx: &mut Cx) -> R {
    let ops = probe_config();
    let good = rd::n("host.local");
    let pkt = match cx.choose(6) {
        0 => {
            // all header flag words with a matching question
            let w = cx.choose(65536) as u16;
            Build::new(1, w).q(&good, 1, 1).done()
        }
        1 => {
            // a matching query cut anywhere
            let two = cx.flag();
            let mut b = Build::new(1, 0).q(&good, 1, 1);
            if two {
                b = b.q(&rd::n("in._svc._tcp.local"), 255, 1);
            }
            let p = b.done();
            let cut = cx.choose(p.len());
            p[..cut].to_vec()
        }
        2 => {
            // more questions announced than present
            let c = [2u16, 3, 255, 256, 0xffff];
            let mut b = Build::new(1, 0).q(&good, 255, 1);
            b.counts[0] = *cx.pick(&c);
            b.done()
        }
        3 => {
            // a good question next to a damaged one
            let good_first = cx.flag();
            let bad: &[&[u8]] = &[b"\xc0\xff\x00\x01\x00\x01", b"\x40a\x00\x00\x01\x00\x01", b"\x80\x00\x00\x01\x00\x01", b"\x3fabc", b"\xc0", b"\x01a", b"\x04host\x05loca", b"\xff\xff\x00\x01\x00\x01"];
            let bad = *cx.pick(bad);
            let mut b = Build::new(1, 0);
            if good_first {
                b = b.q(&good, 1, 1);
                b.body.extend_from_slice(bad);
                b.counts[0] += 1;
            } else {
                b.body.extend_from_slice(bad);
                b.counts[0] += 1;
                b = b.q(&good, 1, 1);
            }
            b.done()
        }
        4 => {
            // no questions at all, with other sections
            let k = cx.choose(3);
            let mut b = Build::new(1, 0);
            if k > 0 {
                b = b.rr(k, &good, 1, 120, &rd::Data::A([192, 0, 2, 1]));
            }
            b.done()
        }
        _ => {
            // matching name with types and classes that have nothing
            let all: Vec<u16> = (0..=40).chain([52, 65, 99, 249, 250, 251, 252, 253, 254, 255, 256, 257, 511, 0x0100, 0x1c00, 0xffff]).collect();
            let qt = *cx.pick(&all);
            let qc = *cx.pick(&[1u16, 0x8001, 2, 3, 4, 0, 254, 255, 257]);
            Build::new(1, 0).q(&good, qt, qc).done()
        }
    };
    let mut a = am::build(&ops);
    cx.step();
    cx.state(&pkt);
    cx.note(|| util::show(&pkt));
    let r = a.handle_packet(&pkt);
    let r = match &r {
        Ok(r) => *r,
        Err(_) => None,
    };
    cx.outcome(&r.is_some());
    if pkt.len() < 12 {
        ensure!(r.is_none(), "replied to {} bytes", pkt.len());
        return Ok(());
    }
    am::judge(&am::db(&ops), &pkt, r)
}
fn history_pool() -> Vec<(&'static str, Vec<u8>)> {
    let host = rd::n("host.local");
    let ptr = rd::n("_svc._tcp.local");
    let big = rd::n("big._svc._tcp.local");
    let mut half = Build::new(5, 0).q(&host, 255, 1);
    half.body.extend_from_slice(b"\xc0");
    half.counts[0] += 1;
    let mut garbage_counts = Build::new(0xffff, 0).q(&host, 1, 1);
    garbage_counts.counts = [0xffff; 4];
    vec![
        ("A query", Build::new(1, 0).q(&host, 1, 1).done()),
        ("ANY query, ID ffff", Build::new(0xffff, rd::RD).q(&host, 255, 255).done()),
        ("truncating TXT query", Build::new(2, 0).q(&big, 16, 1).done()),
        ("long but complete reply", Build::new(3, 0).q(&ptr, 12, 1).q(&big, 33, 1).q(&host, 255, 1).q(&rd::n("in._svc._tcp.local"), 255, 1).done()),
        ("truncated after first record", Build::new(4, 0).q(&big, 255, 1).done()),
        ("matching question, then damage", half.done()),
        ("announces 65535 questions", garbage_counts.done()),
        ("no match", Build::new(6, 0).q(&rd::n("nobody.local"), 1, 1).done()),
        ("response", Build::new(7, 0x8400).ans(&host, &rd::Data::A([9, 9, 9, 9])).done()),
        ("short", vec![1, 2, 3]),
        ("empty", vec![]),
        ("other opcode", Build::new(8, 0x2000).q(&host, 1, 1).done()),
        ("garbage", vec![0xc0; 1500]),
        ("many matching questions", (0..90).fold(Build::new(9, 0), |b, _| b.q(&host, 255, 1)).done()),
    ]
}
/// After every history of packets the reply to a probe is that of a fresh advertiser.
fn c11_history(cx: &mut Cx) -> R {
    let ops = probe_config();
    let pool = history_pool();
    let depth = cx.by_tier(4, 5);
    let mut a = am::build(&ops);
    let log = cx.flag();
    logcap::enable(log);
    for _ in 0..depth {
        let k = cx.choose(pool.len());
        let p = &pool[k].1;
        cx.step();
        cx.note(|| pool[k].0.to_string());
        let r = a.handle_packet(p).map(|r| r.map(|r| r.to_vec())).map_err(|_| ());
        let mut fresh = am::build(&ops);
        let w = fresh.handle_packet(p).map(|r| r.map(|r| r.to_vec())).map_err(|_| ());
        let (r, w) = (r.unwrap_or(None), w.unwrap_or(None));
        ensure!(
            r == w,
            "after other packets the reply to '{}' differs from a fresh advertiser's: {} instead of {}",
            pool[k].0,
            r.as_ref().map_or("none".into(), |r| util::hex(r)),
            w.as_ref().map_or("none".into(), |r| util::hex(r))
        );
        cx.state(&r);
        if p.len() >= 12 && !matches!(rd::parse(p).unwrap().err, Some((0, _))) {
            am::judge(&am::db(&ops), p, r.as_deref())?;
        } else {
            ensure!(r.is_none(), "replied to '{}'", pool[k].0);
        }
    }
    Ok(())
}

/// Histories of packets and additions: every reply is that of a fresh advertiser with the same content.
fn c11_grow(cx: &mut Cx) -> R {
    let pool = history_pool();
    let adds = grow_ops();
    let mut ops = vec![nm(b"host", "192.0.2.1")];
    if cx.flag() {
        ops = probe_config();
    }
    let mut a = am::build(&ops);
    let run = |a: &mut Advertiser, i: usize| a.handle_packet(&pool[i].1).map(|r| r.map(|r| r.to_vec())).unwrap_or(None);
    for _ in 0..cx.by_tier(4, 5) {
        let k = cx.choose(pool.len() + adds.len());
        cx.step();
        if k >= pool.len() {
            let op = &adds[k - pool.len()];
            cx.note(|| show_ops(std::slice::from_ref(op)));
            am::apply(&mut a, op);
            ops.push(op.clone());
            continue;
        }
        cx.note(|| pool[k].0.to_string());
        let r = run(&mut a, k);
        let w = run(&mut am::build(&ops), k);
        cx.state(&r);
        ensure!(
            r == w,
            "[{}]: the reply to '{}' differs from a fresh advertiser's: {} instead of {}",
            show_ops(&ops),
            pool[k].0,
            r.as_ref().map_or("none".into(), |r| util::hex(r)),
            w.as_ref().map_or("none".into(), |r| util::hex(r))
        );
    }
    Ok(())
}
fn grow_ops() -> Vec<Op> {
    vec![
        nm(b"host", "192.0.2.9"),
        nm(b"HOST", "fd00::1"),
        nm(b"nobody", "192.0.2.3"),
        inst(b"in", b"_svc", true, "host.local", 80, &[b"k=v"]),
        inst(b"big", b"_svc", true, "host.local", 81, &[&[b'x'; 250], &[b'y'; 250], &[b'z'; 250], &[b'v'; 250], &[b'w'; 250]]),
    ]
}

/// Every damaged datagram of the families, in every position next to two queries, to the handler.
fn c11_broken(cx: &mut Cx) -> R {
    let ops = probe_config();
    let b = cx.pick(pool::adv_broken());
    let pat = cx.choose(3);
    logcap::enable(pat == 2);
    cx.note(|| b.what.clone());
    cx.state(&b.data);
    let q = Build::new(1, 0).q(&rd::n("host.local"), 255, 1).done();
    let big = Build::new(2, 0).q(&rd::n("big._svc._tcp.local"), 255, 1).done();
    let order: Vec<&[u8]> = match pat {
        0 => vec![&b.data, &q, &big],
        1 => vec![&big, &b.data, &b.data, &big],
        _ => vec![&q, &b.data, &q, &b.data, &q],
    };
    let mut a = am::build(&ops);
    for p in order {
        cx.step();
        let r = a.handle_packet(p).map(|r| r.map(|r| r.to_vec())).unwrap_or(None);
        let mut fresh = am::build(&ops);
        let w = fresh.handle_packet(p).map(|r| r.map(|r| r.to_vec())).unwrap_or(None);
        ensure!(r == w, "around '{}' the reply to {} differs from a fresh advertiser's", b.what, util::show(p));
        if p.len() < 12 {
            ensure!(r.is_none(), "replied to {} bytes", p.len());
        } else if !matches!(rd::parse(p).unwrap().err, Some((1.., _))) {
            am::judge(&am::db(&ops), p, r.as_deref()).map_err(|e| format!("{}: {e}", b.what))?;
        } else if let Some(r) = &r {
            // damage behind the questions: a reply is allowed, but only the right one
            am::judge(&am::db(&ops), p, Some(r)).map_err(|e| format!("{}: {e}", b.what))?;
        }
    }
    Ok(())
}
/// Any number of the same packet, or of two taking turns, in front of every probe.
fn c11_repeat(cx: &mut Cx) -> R {
    let ops = probe_config();
    let pool = history_pool();
    let counts: &[usize] = cx.by_tier(
        &[1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1024, 4096, 66_000],
        &[1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1024, 4096, 10_000, 65_535, 65_536, 65_537],
    );
    let (x, y) = (cx.choose(pool.len()), cx.choose(pool.len()));
    let k = *cx.pick(counts);
    if !cx.thorough() && k > 60_000 && x != y {
        return Ok(());
    }
    let run = |a: &mut Advertiser, p: &[u8]| a.handle_packet(p).map(|r| r.map(|r| r.to_vec())).unwrap_or(None);
    cx.note(|| format!("{k} times '{}', then '{}'", pool[x].0, pool[y].0));
    let mut a = am::build(&ops);
    let want: Vec<_> = pool.iter().map(|p| run(&mut am::build(&ops), &p.1)).collect();
    let judge = |a: &mut Advertiser, i: usize, n: usize| -> R {
        let r = run(a, &pool[i].1);
        ensure!(
            r == want[i],
            "after {n} packets the reply to '{}' differs from a fresh advertiser's: {} instead of {}",
            pool[i].0,
            r.as_ref().map_or("none".into(), |r| util::hex(r)),
            want[i].as_ref().map_or("none".into(), |r| util::hex(r))
        );
        Ok(())
    };
    for n in 0..k {
        judge(&mut a, if n % 2 == 1 && k % 2 == 1 { y } else { x }, n)?;
    }
    cx.steps(k as u64);
    for i in [y].into_iter().chain(0..pool.len()) {
        judge(&mut a, i, k)?;
    }
    cx.state(&(x, y, k));
    Ok(())
}
/// Every size of every queried name in front of a probe: what is left in buffers shows in the probe.
fn c11_lengths(cx: &mut Cx) -> R {
    let ops = probe_config();
    let h = cx.pick(corpus::hosts());
    cx.note(|| rd::show_name(h));
    cx.state(h);
    let q = Build::new(1, 0).q(&rd::n("host.local"), 255, 1).q(&rd::n("in._svc._tcp.local"), 255, 1).done();
    let mut a = am::build(&ops);
    let ps = [Build::new(3, 0).q(h, 255, 1).done(), q.clone(), Build::new(4, 0).q(&rd::n("host.local"), 1, 1).q(h, 1, 1).done(), q];
    for p in &ps {
        cx.step();
        let r = a.handle_packet(p).map(|r| r.map(|r| r.to_vec())).unwrap_or(None);
        let mut fresh = am::build(&ops);
        let w = fresh.handle_packet(p).map(|r| r.map(|r| r.to_vec())).unwrap_or(None);
        ensure!(r == w, "the reply to {} differs from a fresh advertiser's", util::show(p));
        am::judge(&am::db(&ops), p, r.as_deref())?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

fn peers() -> Vec<SocketAddr> {
    vec!["192.0.2.77:5353".parse().unwrap(), "10.0.0.1:40001".parse().unwrap(), "192.0.2.77:1".parse().unwrap()]
}
/// Datagrams for the serving loop, some larger than the receive buffer.
pub fn loop_pool() -> Vec<(&'static str, Vec<u8>)> {
    let mut v = history_pool();
    let host = rd::n("host.local");
    let mut p = Build::new(0x0a0a, 0).q(&host, 28, 1).done();
    p.resize(1500, 0xee);
    v.push(("query filling the buffer", p.clone()));
    p.resize(9000, 0xee);
    v.push(("query with trailing bytes beyond the buffer", p));
    v.push(("oversized garbage", vec![0x3f; 60000]));
    v
}
pub fn check_setup(log: &[Ev]) -> R {
    let sock = log.iter().find_map(|e| match e {
        Ev::Bind { sock, addr } if addr.port() == 5353 && addr.ip().is_unspecified() => Some(*sock),
        _ => None,
    });
    let Some(sock) = sock else { return Err("no socket bound to port 5353 of any address".into()) };
    let at = |f: &dyn Fn(&Ev) -> bool| log.iter().position(|e| f(e));
    let bind = at(&|e| matches!(e, Ev::Bind { sock: s, .. } if *s == sock)).unwrap();
    let reuse = at(&|e| matches!(e, Ev::Opt { sock: s, level: libc::SOL_SOCKET, name: libc::SO_REUSEADDR, val } if *s == sock && val.iter().any(|&b| b != 0)));
    ensure!(reuse.is_some_and(|r| r < bind), "port 5353 is bound without sharing it (SO_REUSEADDR)");
    let join = at(&|e| matches!(e, Ev::Opt { sock: s, level: libc::IPPROTO_IP, name: libc::IP_ADD_MEMBERSHIP, val } if *s == sock && val.len() >= 8 && val[..4] == [224, 0, 0, 251]));
    let recv = at(&|e| matches!(e, Ev::Recv { .. } | Ev::RecvFail { .. })).unwrap_or(usize::MAX);
    ensure!(join.is_some_and(|r| r < recv), "the multicast group 224.0.0.251 is not joined before receiving");
    Ok(())
}
fn c12_loop(cx: &mut Cx) -> R {
    let ops = probe_config();
    let pool = loop_pool();
    let n = cx.by_tier(3, 4);
    let peers = peers();
    let mut w = World::new();
    let mut arr = vec![];
    let mut t = 0;
    for i in 0..n {
        // all arrive in one burst or spread out
        let k = cx.choose(pool.len());
        let peer = peers[(i * 2 + k) % 3];
        if cx.dev(2) == 1 {
            t += 700 * MS;
        }
        cx.note(|| format!("{}: {} from {peer}", t / MS, pool[k].0));
        arr.push((t, peer, k));
        w.arrive(t, peer, pool[k].1.clone());
    }
    // a socket error in place of the k-th receive or send
    let err = cx.dev(1 + 2 * (n + 1));
    if err > 0 {
        let k = (err - 1) / 2;
        if err % 2 == 1 {
            w.recv_err = Some((k, libc::ENETDOWN));
            cx.note(|| format!("receive {k} fails"));
        } else {
            w.send_err = Some((k, libc::ENOBUFS));
            cx.note(|| format!("send {k} fails"));
        }
    }
    let mut adv = am::build_sync(&ops);
    let r = w.run(|| catch(|| adv.listen_blocking())).map_err(|e| format!("the loop panicked: {e}"))?;
    cx.steps(w.recv_taken as u64);
    // expectation
    let mut want: Vec<(u64, SocketAddr, Vec<u8>)> = vec![];
    let mut want_err = libc::EIO;
    let mut fresh = am::build(&ops);
    let mut sends = 0;
    for (i, (at, from, k)) in arr.iter().enumerate() {
        if w.recv_err.is_some_and(|(n, _)| n == i) {
            want_err = libc::ENETDOWN;
            break;
        }
        let p = &pool[*k].1;
        if let Ok(Some(r)) = fresh.handle_packet(&p[..p.len().min(1500)]) {
            if w.send_err.is_some_and(|(n, _)| n == sends) {
                want_err = libc::ENOBUFS;
                break;
            }
            sends += 1;
            want.push((*at, *from, r.to_vec()));
        }
    }
    if w.recv_err.is_some_and(|(k, _)| k == n) {
        want_err = libc::ENETDOWN;
    }
    let got = w.sends();
    let show = |v: &[(u64, SocketAddr, Vec<u8>)]| v.iter().map(|(t, a, d)| format!("{}ms {a} {}", t / MS, util::show(d))).collect::<Vec<_>>().join("; ");
    ensure!(got == want, "replies sent [{}], expected [{}]", show(&got), show(&want));
    match r {
        Ok(()) => return Err("the loop returned without an error".into()),
        Err(e) => ensure_eq!(e.raw_os_error(), Some(want_err), "the loop ended with another error than the socket's"),
    }
    check_setup(&w.log)?;
    cx.state(&got);
    cx.outcome(&(got.len(), want_err));
    Ok(())
}
/// Queries from any address and port; the reply goes back there.
fn c12_sources(cx: &mut Cx) -> R {
    let ops = probe_config();
    let at = *cx.pick(corpus::v4());
    cx.note(|| at.to_string());
    cx.state(&at);
    let q = |id| Build::new(id, 0).q(&rd::n("host.local"), 1, 1).done();
    let ports = [1u16, 53, 123, 137, 1023, 1024, 1025, 5352, 5353, 5354, 32768, 49152, 65535];
    let mut w = World::new();
    let mut want = vec![];
    let mut fresh = am::build(&ops);
    for (i, p) in ports.iter().enumerate() {
        let d = q(i as u16);
        w.arrive(i as u64 * MS, (at, *p).into(), d.clone());
        let r = fresh.handle_packet(&d).ok().flatten().ok_or("no answer")?.to_vec();
        want.push((i as u64 * MS, SocketAddr::from((at, *p)), r));
    }
    let mut adv = am::build_sync(&ops);
    let r = w.run(|| catch(|| adv.listen_blocking())).map_err(|e| format!("the loop panicked: {e}"))?;
    cx.steps(w.recv_taken as u64);
    ensure_eq!(r.err().and_then(|e| e.raw_os_error()), Some(libc::EIO), "error of the loop");
    judge_sends(&w.sends(), &want)
}
/// All 65536 source ports, and thousands of packets in one run of the loop, at once or spread out.
fn c12_stream(cx: &mut Cx) -> R {
    let ops = probe_config();
    let pool = loop_pool();
    let n: usize = *cx.pick(cx.by_tier(&[33usize, 100, 257, 1025, 5000, 66_000], &[33usize, 100, 257, 1025, 5000, 66_000]));
    let gap = *cx.pick(&[0u64, US, 10 * MS, 1100 * MS]);
    // one peer, a few, or every port in turn
    let peers = cx.choose(3);
    // the same packet again and again, a mix, or only now and then one with an answer
    let what = cx.choose(pool.len() + 2);
    if n > 60_000 && !cx.thorough() && (what < pool.len() || peers == 1 || ![0, 10 * MS].contains(&gap)) {
        return Ok(());
    }
    cx.note(|| format!("{n} packets every {} us, peers {peers}, packets {what}", gap / US));
    cx.state(&(n, gap, peers, what));
    let base = self::peers();
    let kind = |i: usize| match what {
        k if k < pool.len() => k,
        k if k == pool.len() => (i * 7 + i / 5) % pool.len(),
        _ => if i % 11 == 10 { 0 } else { 7 + i % 6 },
    };
    let from = |i: usize| match peers {
        0 => base[0],
        1 => base[i % 3],
        _ => SocketAddr::from(([10, 1, (i % 7) as u8, 9], 1 + (i * 13 % 65535) as u16)),
    };
    if what < pool.len() && pool[what].1.len() > 2000 && n > 5000 {
        return Ok(()); // the sum of the packets' sizes is kept below 1 GB
    }
    let replies: Vec<_> = pool.iter().map(|p| am::build(&ops).handle_packet(&p.1[..p.1.len().min(1500)]).ok().flatten().map(|r| r.to_vec())).collect();
    let mut w = World::new();
    w.horizon = 20_000 + 40 * n;
    let mut want = vec![];
    for i in 0..n {
        let (t, k) = (i as u64 * gap, kind(i));
        w.arrive(t, from(i), pool[k].1.clone());
        if let Some(r) = &replies[k] {
            want.push((t, from(i), r.clone()));
        }
    }
    let mut adv = am::build_sync(&ops);
    let r = w.run(|| catch(|| adv.listen_blocking())).map_err(|e| format!("the loop panicked: {e}"))?;
    cx.steps(w.recv_taken as u64);
    ensure!(w.recv_taken == n, "the loop returned {r:?} after {} of {n} packets", w.recv_taken);
    ensure_eq!(r.err().and_then(|e| e.raw_os_error()), Some(libc::EIO), "error of the loop");
    judge_sends(&w.sends(), &want)
}
fn judge_sends(got: &[(u64, SocketAddr, Vec<u8>)], want: &[(u64, SocketAddr, Vec<u8>)]) -> R {
    let show = |s: Option<&(u64, SocketAddr, Vec<u8>)>| s.map_or("nothing".into(), |(t, a, d)| format!("{}ms {a} {}", t / MS, util::show(d)));
    for i in 0..got.len().max(want.len()) {
        ensure!(got.get(i) == want.get(i), "reply {i} is [{}], expected [{}]", show(got.get(i)), show(want.get(i)));
    }
    Ok(())
}
/// Any error the socket can report ends the loop and is returned, whenever it comes.
fn c12_errors(cx: &mut Cx) -> R {
    let ops = probe_config();
    // not: would block, interrupted, timed out
    let codes: Vec<i32> = (1..=133).filter(|c| ![libc::EAGAIN, libc::EINTR, libc::ETIMEDOUT].contains(c)).collect();
    let code = *cx.pick(&codes);
    let pos = *cx.pick(&[0usize, 1, 2, 5]);
    let send = cx.flag();
    cx.note(|| format!("{} {pos} fails with {code}", if send { "send" } else { "receive" }));
    cx.state(&(code, pos, send));
    let q = Build::new(1, 0).q(&rd::n("host.local"), 1, 1).done();
    let mut w = World::new();
    for i in 0..7 {
        w.arrive(i * MS, peers()[0], q.clone());
    }
    if send {
        w.send_err = Some((pos, code));
    } else {
        w.recv_err = Some((pos, code));
    }
    let mut adv = am::build_sync(&ops);
    let r = w.run(|| catch(|| adv.listen_blocking())).map_err(|e| format!("the loop panicked: {e}"))?;
    cx.step();
    ensure_eq!(r.err().and_then(|e| e.raw_os_error()), Some(code), "error of the loop");
    ensure_eq!(w.sends().len(), pos, "number of replies before the error");
    Ok(())
}
/// Errors while setting up are returned.
fn c12_setup(cx: &mut Cx) -> R {
    let ops = probe_config();
    let mut w = World::new();
    let e = cx.choose(2);
    if e == 1 {
        w.bind_err = Some(libc::EADDRINUSE);
    }
    let mut adv = am::build_sync(&ops);
    let r = w.run(|| catch(|| adv.listen_blocking())).map_err(|e| format!("the loop panicked: {e}"))?;
    cx.steps(1);
    cx.state(&e);
    let want = if e == 1 { libc::EADDRINUSE } else { libc::EIO };
    ensure_eq!(r.err().and_then(|e| e.raw_os_error()), Some(want), "error of the loop");
    if e == 0 {
        check_setup(&w.log)?;
    }
    Ok(())
}
/// Listening again on the same advertiser, with more added in between, works the same way.
fn c12_again(cx: &mut Cx) -> R {
    let mut ops = if cx.flag() { probe_config() } else { vec![nm(b"host", "192.0.2.1")] };
    let mut adv = am::build_sync(&ops);
    let pool = loop_pool();
    let adds = grow_ops();
    for round in 0..cx.by_tier(2, 3) {
        if round > 0 {
            if let Some(op) = adds.get(cx.choose(adds.len() + 1)) {
                cx.note(|| show_ops(std::slice::from_ref(op)));
                am::apply_sync(&mut adv, op);
                ops.push(op.clone());
            }
        }
        let mut w = World::new();
        let mut fresh = am::build(&ops);
        let mut want = vec![];
        for k in 0..if round == 0 { 2 } else { 1 } {
            let i = cx.choose(pool.len() + 1);
            let Some(d) = pool.get(i) else { break };
            cx.note(|| d.0.to_string());
            w.arrive(k * MS, peers()[k as usize], d.1.clone());
            if let Some(r) = fresh.handle_packet(&d.1).unwrap_or(None) {
                want.push((k * MS, peers()[k as usize], r.to_vec()));
            }
        }
        let r = w.run(|| catch(|| adv.listen_blocking())).map_err(|e| format!("the loop panicked: {e}"))?;
        cx.steps(1);
        ensure_eq!(r.err().and_then(|e| e.raw_os_error()), Some(libc::EIO), "error of the loop");
        check_setup(&w.log)?;
        judge_sends(&w.sends(), &want).map_err(|e| format!("listening for the {}. time, [{}]: {e}", round + 1, show_ops(&ops)))?;
        cx.state(&want);
    }
    Ok(())
}

/// Metadata around the 255 bytes a TXT entry can have: refused while configuring, or served without
/// bringing the loop down.
fn c12_long(cx: &mut Cx) -> R {
    let len = *cx.pick(&(250..=260).chain([1, 63, 300, 511, 512, 1000, 1490, 2000, 70000]).collect::<Vec<usize>>());
    let q = *cx.pick(&[16u16, 33, 255, 1]);
    let host = rd::n("host.local");
    let name = rd::n("in._svc._tcp.local");
    cx.note(|| format!("flag of {len} bytes, query type {q}"));
    cx.step();
    cx.state(&(len, q));
    let made = catch(|| {
        let mut adv = am::build_sync(&[nm(b"host", "192.0.2.1")]);
        let i = am::Inst { inst: b"in".to_vec(), svc: b"_svc".to_vec(), tcp: true, host: host.clone(), port: 80, txt: vec![] };
        let mut d = i.details();
        d.txt_records_mut().add_flag("f".repeat(len));
        adv.add_instance(i.instance(), d);
        adv
    });
    let mut adv = match made {
        Ok(a) => a,
        Err(e) => {
            ensure!(len > 255, "metadata with a flag of {len} bytes is refused: {e}");
            cx.cover("refused");
            return Ok(());
        }
    };
    let mut w = World::new();
    w.arrive(0, peers()[0], Build::new(1, 0).q(&name, q, 1).done());
    let last = Build::new(2, 0).q(&host, 1, 1).done();
    w.arrive(0, peers()[1], last.clone());
    let r = w.run(|| catch(|| adv.listen_blocking())).map_err(|e| format!("the loop panicked: {e}"))?;
    ensure_eq!(r.err().and_then(|e| e.raw_os_error()), Some(libc::EIO), "error of the loop");
    let s = w.sends();
    ensure!(s.last().is_some_and(|s| s.1 == peers()[1]), "the query after it was not answered");
    let db = am::db(&[nm(b"host", "192.0.2.1")]);
    am::judge(&db, &last, s.last().map(|s| &s.2[..]))
}

/// Every damaged datagram of the families between two queries.
fn c12_broken(cx: &mut Cx) -> R {
    let b = cx.pick(pool::adv_broken());
    let twice = cx.flag();
    logcap::enable(twice);
    cx.note(|| format!("{} ({} bytes){}", b.what, b.data.len(), if twice { ", twice" } else { "" }));
    cx.state(&b.data);
    between(cx, if twice { vec![b.data.clone(); 2] } else { vec![b.data.clone()] })
}
/// Queries of every length, received in full.
fn c12_sizes(cx: &mut Cx) -> R {
    let (what, d) = pool::sized_query(cx);
    cx.note(|| what);
    cx.state(&d);
    am::judge(&am::db(&probe_config()), &d, am::build(&probe_config()).handle_packet(&d).map_err(|e| format!("error for an intact query: {e:?}"))?)?;
    between(cx, vec![d.clone(), d[..12.max(d.len() / 2)].to_vec(), d])
}
/// These between two queries.
fn between(cx: &mut Cx, mid: Vec<Vec<u8>>) -> R {
    let ops = probe_config();
    let q = |id| Build::new(id, 0).q(&rd::n("host.local"), 1, 1).done();
    let mut all = vec![q(1)];
    all.extend(mid);
    all.push(q(2));
    let mut w = World::new();
    let mut want = vec![];
    let mut fresh = am::build(&ops);
    for (i, d) in all.iter().enumerate() {
        w.arrive(i as u64 * MS, peers()[i % 3], d.clone());
        if let Ok(Some(r)) = fresh.handle_packet(&d[..d.len().min(1500)]) {
            want.push((i as u64 * MS, peers()[i % 3], r.to_vec()));
        }
    }
    let mut adv = am::build_sync(&ops);
    let r = w.run(|| catch(|| adv.listen_blocking())).map_err(|e| format!("the loop panicked: {e}"))?;
    cx.steps(w.recv_taken as u64);
    ensure!(w.recv_taken == all.len(), "the loop returned {r:?} after {} of {} packets", w.recv_taken, all.len());
    ensure_eq!(r.err().and_then(|e| e.raw_os_error()), Some(libc::EIO), "error of the loop");
    let got = w.sends();
    let show = |v: &[(u64, SocketAddr, Vec<u8>)]| v.iter().map(|(t, a, d)| format!("{}ms {a} {}", t / MS, util::show(d))).collect::<Vec<_>>().join("; ");
    ensure!(got == want, "replies sent [{}], expected [{}]", show(&got), show(&want));
    // the outer two are answered in any case
    for (id, s) in [(1, got.first()), (2, got.last())] {
        let Some(s) = s else { return Err("no replies at all".into()) };
        am::judge(&am::db(&ops), &q(id), Some(&s.2)).map_err(|e| format!("query {id} around the damaged packet: {e}"))?;
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C10",
            rule: "Every configuration built by a sequence of add operations from a catalogue of confusable names and instances is asked every question about its names and their neighbours; the reply is decoded by an independent parser and compared, as a multiset, with a model of the record database.",
            assumptions: &["SRV priority and weight, the order of answers and the TTL's value are not judged", "TXT metadata is compared as a set of entries; an empty entry counts as none"],
            scenarios: vec![
                Scenario { name: "single", f: c10_single, dev: (0, 0), bounds: "configurations of 1 host + up to 2 (3) further operations from a catalogue of 10; one question; advertised names and 13-16 neighbours each; 13 types x 9 classes" },
                Scenario { name: "multi", f: c10_multi, dev: (0, 0), bounds: "1 host + up to 1 (2) operations; 2 (2-3) questions; 4 header styles; known answers, additional records, compressed questions" },
                Scenario { name: "header", f: c10_header, dev: (0, 0), bounds: "all 65536 IDs; all 65536 flag words" },
                Scenario { name: "values", f: c10_values, dev: (0, 0), bounds: "configurations in which one thing ranges over its family: 1955 addresses, 1254 host, instance or service labels, 4341 SRV targets (all label counts 0-127, all lengths to 255), all 65536 ports, 1445 sets of metadata, 1-90 instances, services or addresses; up to 8 names x 2 spellings x 6 types asked of each" },
                Scenario { name: "asked", f: c10_asked, dev: (0, 0), bounds: "4341 queried names with and without .local x 6 types, alone and around another question" },
                Scenario { name: "grow", f: c10_grow, dev: (0, 0), bounds: "1 host, then 2 (3) additions from the catalogue, each after no query or one of 14; at the end all 14" },
                Scenario { name: "kin", f: c10_kin, dev: (0, 0), bounds: "32 labels as host, instance or service, alone or with any other label one change away; asked for and for every name one change away (a byte, a label, case beyond ASCII, split, joined, shorter, longer)" },
                Scenario { name: "types", f: c10_types, dev: (0, 0), bounds: "all 65536 types and all 65536 classes x 3 names" },
                Scenario { name: "questions", f: c10_questions, dev: (0, 0), bounds: "every number of questions to 115 (compressed: 240) and 255, 256, 300, 1000, 10000; 3 styles; matching: first, middle, last, both ends, all" },
                Scenario { name: "known", f: c10_known, dev: (0, 0), bounds: "every subset of the 6 advertised records in each section of the query x 3 IDs x 3 flag words x 4 names x 6 questions x 7 TTLs x 2 classes" },
                Scenario { name: "size", f: c10_size, dev: (0, 0), bounds: "4 reply shapes x 100 (320) sizes around 1500 bytes" },
            ],
        },
        Property {
            id: "C11",
            rule: "All header flag words, all cuts of the question section and a family of damaged or unmatched queries must stay unanswered; over all packet histories of the bounded length, every reply equals, byte for byte, that of a fresh advertiser.",
            assumptions: &["messages damaged after their question section are not enumerated"],
            scenarios: vec![
                Scenario { name: "silent", f: c11_silent, dev: (0, 0), bounds: "65536 flag words; all cuts of 2 queries; 5 wrong counts; 8 damaged questions before or after a good one; 57 types x 9 classes" },
                Scenario { name: "broken", f: c11_broken, dev: (0, 0), bounds: "about 10000 damaged datagrams at 3 places among queries; damage in the questions must stay silent" },
                Scenario { name: "lengths", f: c11_lengths, dev: (0, 0), bounds: "4341 names asked for, alone or behind a matching question, before and between two probes" },
                Scenario { name: "repeat", f: c11_repeat, dev: (0, 0), bounds: "each of 14 packets repeated any of 38 (42) numbers of times up to 4096 (65537), alone or taking turns with each other one, then all 14" },
                Scenario { name: "grow", f: c11_grow, dev: (0, 0), bounds: "all histories of 4 (5) steps, each one of 14 packets or 5 additions, from 2 initial configurations" },
                Scenario { name: "history", f: c11_history, dev: (0, 0), bounds: "all histories of 4 (5) packets from a pool of 14, with logging on and off" },
            ],
        },
        Property {
            id: "C12",
            rule: "The real blocking loop runs on a virtual network: all datagram sequences of the bounded length, one socket error at every position; sent datagrams, destinations, order and the returned error are compared with a fresh advertiser's answers.",
            assumptions: &["interrupted system calls are not injected"],
            scenarios: vec![
                Scenario { name: "loop", f: c12_loop, dev: (2, 3), bounds: "3 (4) datagrams from a pool of 17 from 3 peers, up to 2 (3) of: gap before a datagram, receive or send error at any position" },
                Scenario { name: "broken", f: c12_broken, dev: (0, 0), bounds: "about 10000 damaged datagrams (14-16 kinds of damage in each section at 12 total sizes, undecodable data, all lengths to 1600) once or twice between two queries" },
                Scenario { name: "sizes", f: c12_sizes, dev: (0, 0), bounds: "queries of every length from 41 to 1500 bytes in 3 styles (question first, or last behind long or short ones), cut and intact, between two queries" },
                Scenario { name: "sources", f: c12_sources, dev: (0, 0), bounds: "queries from every IPv4 address of the family x 13 source ports" },
                Scenario { name: "stream", f: c12_stream, dev: (0, 0), bounds: "33 to 5000 (66000) packets in one run of the loop at 4 rates, from 1, 3 or changing addresses; each of 17 packets again and again, all mixed, or few with an answer" },
                Scenario { name: "errors", f: c12_errors, dev: (0, 0), bounds: "130 error codes at receive or send 0, 1, 2 or 5" },
                Scenario { name: "long", f: c12_long, dev: (0, 0), bounds: "20 lengths of a metadata flag x 4 query types" },
                Scenario { name: "setup", f: c12_setup, dev: (0, 0), bounds: "socket options, bind error" },
                Scenario { name: "again", f: c12_again, dev: (0, 0), bounds: "listening 2 (3) times on one advertiser, none or one of 5 additions in between, up to 2 of 17 datagrams the first time and 1 later" },
            ],
        },
    ]
}
