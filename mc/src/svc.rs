//! C18 TXT metadata, C19 service identifiers.
use crate::conv;
use crate::pool;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use uwuhi::name::Label;
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::packet::records::{Record, PTR, TXT};
use uwuhi::service::{InstanceDetails, Service, ServiceInstance, ServiceTransport, TxtRecordValue, TxtRecords};
use vcore::explore::{catch, Property, Scenario};
use vcore::refdns::{self as rd, Build, Data, Name};
use vcore::{corpus, ensure, ensure_eq, logcap, util, Cx};

type R = Result<(), String>;
type Model = Vec<(String, String, Option<Vec<u8>>)>;

fn val(v: TxtRecordValue<'_>) -> Option<Vec<u8>> {
    match v {
        TxtRecordValue::NoValue => None,
        TxtRecordValue::Value(v) => Some(v.to_vec()),
    }
}
/// `free`: keys whose value is not determined (a flag was added over a value).
fn check_txt(t: &TxtRecords, m: &Model, free: &[String], probes: &[&str]) -> R {
    let it: Vec<(String, Option<Vec<u8>>)> = t.iter().map(|(k, v)| (k.to_string(), val(v))).collect();
    ensure_eq!(t.is_empty(), m.is_empty(), "is_empty with {it:?}");
    ensure!(it.len() == m.len(), "iteration gives {it:?}, expected {m:?}");
    for (l, k, v) in m {
        let Some((gk, gv)) = it.iter().find(|x| x.0.to_ascii_lowercase() == *l) else { return Err(format!("iteration lacks key {k:?}: {it:?}")) };
        if free.contains(l) {
            continue;
        }
        ensure!(gv == v, "iteration gives {gv:?} for key {k:?}, expected {v:?}");
        ensure!(gk == k, "iteration gives key {gk:?}, the first occurrence is {k:?}");
    }
    let text = it.iter().map(|(k, v)| v.as_ref().map_or(k.clone(), |v| format!("{k}={}", v.escape_ascii()))).collect::<Vec<_>>().join(" ");
    ensure_eq!(t.to_string(), text, "printed form");
    let _ = format!("{t:?}");
    for p in probes {
        let l = p.to_ascii_lowercase();
        let w = m.iter().find(|x| x.0 == l);
        let g = t.get(p);
        match (g, w) {
            (None, None) => {}
            (Some(g), Some(w)) => {
                let g = val(g);
                ensure!(free.contains(&l) || g == w.2, "lookup of {p:?} gives {g:?}, expected {:?}", w.2);
            }
            (g, w) => return Err(format!("lookup of {p:?} gives {:?}, expected {:?}", g.map(val), w.map(|w| &w.2))),
        }
    }
    Ok(())
}
/// Builds the table as a received record would be, or from a record made by hand.
fn table(entries: &[Vec<u8>], wire: bool) -> Result<TxtRecords, String> {
    if !wire {
        return catch(|| TxtRecords::from_txt(&TXT::new(entries.to_vec())));
    }
    let m = Build::new(0, 0x8400).ans(&rd::n("x"), &Data::Txt(entries.to_vec())).done();
    let d = MessageDecoder::new(&m).map_err(|e| format!("{e:?}"))?;
    let mut a = d.answers().map_err(|e| format!("{e:?}"))?;
    let rr = a.iter().next().ok_or("record missing")?.map_err(|e| format!("{e:?}"))?;
    let r = match rr.as_enum() {
        Some(Ok(Record::TXT(t))) => catch(|| TxtRecords::from_txt(&t)),
        x => Err(format!("TXT record decodes as {x:?}")),
    };
    r
}
const PROBES: &[&str] = &["", "a", "A", "b", "B", "ab", "AB", "aB", "c", "C", "=", "a=", "é", "É", " ", "a ", "key", "KEY", "x", "\0", "0", "d", "D", "éa", "ÉA", "éA", "Éa", "k", "K", "\u{212a}", "ı", "İ", "ß", "SS"];

fn c18_lists(cx: &mut Cx) -> R {
    let long = [b"long=".to_vec(), vec![b'='; 250]].concat();
    let p: Vec<&[u8]> = vec![b"", b"a", b"A", b"a=", b"A=1", b"a=2", b"=x", b"=", b"b==", b"B=\xff\x00=\xc3", b"\xffk=v", b"k\xff", "é=1".as_bytes(), "É=2".as_bytes(), b"a b=c d", b"ab=a", b" =1", &long];
    let n = 1 + cx.choose(cx.by_tier(3, 4));
    let e: Vec<Vec<u8>> = (0..n).map(|_| cx.pick(&p).to_vec()).collect();
    let wire = cx.flag();
    logcap::enable(wire);
    cx.step();
    cx.note(|| format!("{:?}", e.iter().map(|x| x.escape_ascii().to_string()).collect::<Vec<_>>()));
    let t = table(&e, wire)?;
    let m = pool::txt_model(&e);
    cx.state(&e);
    cx.outcome(&m);
    check_txt(&t, &m, &[], PROBES).map_err(|x| format!("metadata from {:?}: {x}", e.iter().map(|x| x.escape_ascii().to_string()).collect::<Vec<_>>()))
}
/// All short byte strings as entries.
fn c18_bytes(cx: &mut Cx) -> R {
    const AL: &[u8] = b"aB=\xff\0Ab";
    let (n, max) = *cx.pick(&[(1, 5), (2, 3), (3, 2), (0, 0)]);

    let mut e = vec![];
    for _ in 0..n {
        let l = cx.choose(max + 1);
        e.push((0..l).map(|_| *cx.pick(AL)).collect::<Vec<u8>>());
    }
    cx.step();
    let t = table(&e, true)?;
    let m = pool::txt_model(&e);
    cx.state(&e);
    check_txt(&t, &m, &[], PROBES).map_err(|x| format!("metadata from {:?}: {x}", e.iter().map(|x| x.escape_ascii().to_string()).collect::<Vec<_>>()))
}
/// Sequences of flag additions on a parsed or empty table, also through InstanceDetails.
fn c18_flags(cx: &mut Cx) -> R {
    let starts: [&[&[u8]]; 5] = [&[b""], &[b"a"], &[b"A=1", b"c=x"], &[b"b=\xff", b"B"], &[b"d=", b"a", b"b=1"]];
    let k = cx.choose(starts.len() + 1);
    let mut m: Model;
    let mut d = InstanceDetails::new(conv::dn(&rd::n("h.local")), 1);
    ensure!(d.txt_records().is_empty(), "fresh details have metadata");
    let direct = cx.flag();
    let mut t = if k == 0 {
        m = vec![];
        TxtRecords::new()
    } else {
        let e: Vec<Vec<u8>> = starts[k - 1].iter().map(|x| x.to_vec()).collect();
        m = pool::txt_model(&e);
        table(&e, true)?
    };
    if direct {
        std::mem::swap(&mut t, d.txt_records_mut());
    }
    let mut free = vec![];
    for _ in 0..cx.by_tier(3, 4) {
        let f = *cx.pick(&["a", "A", "b", "ab", "é", "É", "c", "D", "éA", "Éa", "ÉA", "K", "k", "\u{212a}"]);
        cx.step();
        if direct {
            d.txt_records_mut().add_flag(f.to_string());
        } else {
            t.add_flag(f.to_string());
        }
        let l = f.to_ascii_lowercase();
        match m.iter().find(|x| x.0 == l) {
            Some(_) => free.push(l.clone()),
            None => {
                m.push((l.clone(), f.to_string(), None));
                m.sort();
            }
        }
        let now = if direct { d.txt_records() } else { &t };
        check_txt(now, &m, &free, PROBES).map_err(|e| format!("after adding flag {f:?}: {e}"))?;
        ensure!(now.get(f).is_some() && now.get(&f.to_ascii_uppercase()).is_some(), "flag {f:?} is not found after it was added");
        cx.state(&(&m, k));
    }
    Ok(())
}

/// Spellings under which a key may be looked for: only the case of ASCII letters is ignored.
fn spellings(k: &str) -> Vec<String> {
    let flip = |m: usize| k.chars().enumerate().map(|(i, c)| if (i + m) % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>();
    let mut v = vec![k.to_string(), k.to_ascii_uppercase(), k.to_ascii_lowercase(), flip(0), flip(1), k.to_uppercase(), k.to_lowercase(), format!("{k} "), format!("{k}="), k.chars().skip(1).collect()];
    let mut p = k.to_string();
    p.pop();
    v.push(p);
    v
}
fn probes_for(m: &Model) -> Vec<String> {
    m.iter().flat_map(|x| spellings(&x.1)).collect()
}
fn by_ref(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| &s[..]).collect()
}
/// Whole sets of metadata, doubled, in other case, and next to entries that do not count.
fn c18_values(cx: &mut Cx) -> R {
    let e = cx.pick(corpus::metadata()).clone();
    let wire = cx.flag();
    let mut e = e;
    match cx.choose(4) {
        0 => {}
        1 => {
            // every entry again with another value: the first counts
            let again: Vec<Vec<u8>> = e
                .iter()
                .map(|x| {
                    let mut y: Vec<u8> = x.iter().take_while(|b| **b != b'=').map(|b| if b.is_ascii_alphabetic() { b ^ 0x20 } else { *b }).collect();
                    y.truncate(252);
                    y.extend(b"=2");
                    y
                })
                .collect();
            e.extend(again);
        }
        2 => e = e.iter().flat_map(|x| [b"".to_vec(), x.clone(), b"=no".to_vec(), b"\xff=no".to_vec()]).collect(),
        _ => {
            e.reverse();
            e.push(b"tail".to_vec());
        }
    }
    let total: usize = e.iter().map(|x| x.len() + 1).sum();
    if e.is_empty() || total > 60000 {
        return Ok(());
    }
    cx.step();
    cx.state(&e);
    let show = || e.iter().map(|x| x.escape_ascii().to_string()).collect::<Vec<_>>();
    cx.note(|| format!("{:?}", show()));
    let t = table(&e, wire)?;
    let m = pool::txt_model(&e);
    let p = probes_for(&m);
    check_txt(&t, &m, &[], &by_ref(&p)).map_err(|x| format!("metadata from {:?}: {x}", show()))
}
/// Any text as a flag, next to its other spellings.
fn c18_any_flag(cx: &mut Cx) -> R {
    let l = cx.pick(corpus::labels());
    let Ok(f) = std::str::from_utf8(l) else { return Ok(()) };
    if f.contains('=') || f.is_empty() {
        return Ok(());
    }
    let start = cx.choose(3);
    let again = cx.choose(7);
    let e: Vec<Vec<u8>> = [vec![], vec![b"x=1".to_vec(), b"Q".to_vec()], vec![f.as_bytes().to_vec()]][start].clone();
    cx.step();
    cx.state(&(f, start, again));
    let mut m = pool::txt_model(&e);
    let mut t = if e.is_empty() { TxtRecords::new() } else { table(&e, true)? };
    let mut free = vec![];
    for f in [f.to_string(), spellings(f).swap_remove(again)] {
        t.add_flag(f.clone());
        let l = f.to_ascii_lowercase();
        if m.iter().any(|x| x.0 == l) {
            free.push(l);
        } else {
            m.push((l, f.clone(), None));
            m.sort();
        }
        let p = probes_for(&m);
        check_txt(&t, &m, &free, &by_ref(&p)).map_err(|e| format!("after adding flag {f:?}: {e}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

fn labels() -> Vec<Vec<u8>> {
    vec![
        b"_tcp".to_vec(),
        b"_udp".to_vec(),
        b"_x".to_vec(),
        b"x".to_vec(),
        b"local".to_vec(),
        b"_x.y".to_vec(),
        b"_\xff\0".to_vec(),
        [b"_".to_vec(), vec![b'a'; 62]].concat(),
        b"_tc".to_vec(),
        b"_tcpx".to_vec(),
        b"_".to_vec(),
        b"tcp".to_vec(),
        b"X_".to_vec(),
    ]
}
fn shown(ls: &[&[u8]]) -> String {
    ls.iter().map(|l| l.escape_ascii().to_string()).collect::<Vec<_>>().join(".")
}
fn h<T: Hash>(t: &T) -> u64 {
    let mut f = util::Fnv::default();
    t.hash(&mut f);
    f.finish()
}
fn ptr(n: &Name) -> PTR<'static> {
    PTR::new(conv::dn(n))
}
fn transport(tcp: bool) -> (ServiceTransport, &'static [u8]) {
    if tcp {
        (ServiceTransport::TCP, b"_tcp")
    } else {
        (ServiceTransport::Other, b"_udp")
    }
}
fn c19_lists(cx: &mut Cx) -> R {
    let ls = labels();
    let n = cx.choose(6);
    let name: Name = (0..n).map(|_| cx.pick(&ls).clone()).collect();
    c19_name(cx, &name)
}
fn c19_name(cx: &mut Cx, name: &Name) -> R {
    cx.steps(2);
    cx.state(name);
    cx.note(|| rd::show_name(name));
    let s = catch(|| Service::from_ptr(ptr(name)))?;
    match (&s, pool::service_of(name)) {
        (Err(_), None) => {}
        (Ok(s), Some((l, tcp))) => {
            let (t, tl) = transport(tcp);
            ensure!(s.name().as_bytes() == l && s.transport() == t, "service parsed from {} has parts {s:?}", rd::show_name(name));
            let b = Service::new(Label::new(&l), t);
            ensure!(*s == b && s.cmp(&b) == Ordering::Equal && h(s) == h(&b), "service parsed from {} differs from the one built by hand", rd::show_name(name));
            ensure_eq!(s.to_string(), shown(&[&l, tl]), "printed service");
            ensure_eq!(format!("{b:?}"), shown(&[&l, tl]), "debug-printed service");
        }
        (Err(e), Some(_)) => return Err(format!("service name {} is rejected with {e:?}", rd::show_name(name))),
        (Ok(s), None) => return Err(format!("{} is accepted as service {s}", rd::show_name(name))),
    }
    let s = catch(|| ServiceInstance::from_ptr(ptr(name)))?;
    match (&s, pool::instance_of(name)) {
        (Err(_), None) => {}
        (Ok(s), Some((i, l, tcp))) => {
            let (t, tl) = transport(tcp);
            ensure!(
                s.instance_name().as_bytes() == i && s.service_name().as_bytes() == l && s.service_transport() == t && s.service().name().as_bytes() == l && s.service().transport() == t,
                "instance parsed from {} has parts {s:?}",
                rd::show_name(name)
            );
            let b = ServiceInstance::new(Label::new(&i), Label::new(&l), t);
            let c = ServiceInstance::from_service(Label::new(&i), Service::new(Label::new(&l), t));
            for b in [&b, &c] {
                ensure!(s == b && s.cmp(b) == Ordering::Equal && h(s) == h(b), "instance parsed from {} differs from the one built by hand", rd::show_name(name));
                ensure_eq!(b.to_string(), shown(&[&i, &l, tl]), "printed instance");
            }
            ensure_eq!(format!("{s:?}"), shown(&[&i, &l, tl]), "debug-printed instance");
        }
        (Err(e), Some(_)) => return Err(format!("instance name {} is rejected with {e:?}", rd::show_name(name))),
        (Ok(s), None) => return Err(format!("{} is accepted as instance {s}", rd::show_name(name))),
    }
    cx.outcome(&(pool::service_of(name).is_some(), s.is_ok()));
    Ok(())
}
/// One part takes every value of its family.
fn c19_values(cx: &mut Cx) -> R {
    let l = |s: &str| s.as_bytes().to_vec();
    let name: Name = match cx.choose(6) {
        0 => vec![cx.pick(corpus::labels()).clone(), l("_x"), l("_tcp"), l("local")],
        1 => vec![l("i"), cx.pick(corpus::labels()).clone(), l("_udp"), l("local")],
        2 => {
            let mut s = cx.pick(corpus::labels()).clone();
            s.insert(0, b'_');
            s.truncate(63);
            let mut v = vec![s, l("_tcp"), l("local")];
            if cx.flag() {
                v.insert(0, l("i"));
            }
            v
        }
        3 => {
            let mut v = vec![l("_x"), cx.pick(pool::transports()).clone(), l("local")];
            if cx.flag() {
                v.insert(0, l("i"));
            }
            v
        }
        4 => {
            // any domain: its content does not matter, but there has to be one
            let mut v = vec![l("_x"), l("_tcp")];
            if cx.flag() {
                v.insert(0, l("i"));
            }
            v.extend(cx.pick(corpus::hosts()).iter().cloned());
            if rd::name_len(&v) > 255 {
                return Ok(());
            }
            v
        }
        _ => cx.pick(corpus::hosts()).clone(),
    };
    c19_name(cx, &name)
}
/// Every byte of a name changed to, or joined by, every other, or left out.
fn c19_edits(cx: &mut Cx) -> R {
    let l = |s: &str| s.as_bytes().to_vec();
    let mut name: Name = match cx.choose(3) {
        0 => vec![l("_sv"), l("_tcp"), l("local")],
        1 => vec![l("In"), l("_sv"), l("_udp"), l("local")],
        _ => vec![l("_sv"), l("_udp")],
    };
    let i = cx.choose(name.len());
    let at = cx.choose(name[i].len() + 1);
    let b = cx.choose(256) as u8;
    match cx.choose(3) {
        0 => name[i].insert(at, b),
        1 if at < name[i].len() => name[i][at] = b,
        _ if at < name[i].len() && b == 0 => drop(name[i].remove(at)),
        _ => return Ok(()),
    }
    if name[i].is_empty() {
        return Ok(());
    }
    c19_name(cx, &name)
}
/// Equality and order of values: equal exactly when all parts are.
fn c19_pairs(cx: &mut Cx) -> R {
    let il: Vec<Vec<u8>> = vec![b"a".to_vec(), b"A".to_vec(), b"a.b".to_vec(), b"_x".to_vec(), b"\xff".to_vec(), b"ab".to_vec()];
    let sl: Vec<Vec<u8>> = vec![b"_x".to_vec(), b"_X".to_vec(), b"_xy".to_vec(), b"_x._tcp".to_vec(), b"_tcp".to_vec()];
    let mut p = vec![];
    for _ in 0..2 {
        p.push((cx.pick(&il).clone(), cx.pick(&sl).clone(), cx.flag(), cx.flag()));
    }
    let make = |x: &(Vec<u8>, Vec<u8>, bool, bool)| -> Result<ServiceInstance, String> {
        let (t, tl) = transport(x.2);
        if x.3 {
            Ok(ServiceInstance::new(Label::new(&x.0), Label::new(&x.1), t))
        } else {
            ServiceInstance::from_ptr(ptr(&vec![x.0.clone(), x.1.clone(), tl.to_vec(), b"local".to_vec()])).map_err(|e| format!("{e:?}"))
        }
    };
    let (a, b) = (make(&p[0])?, make(&p[1])?);
    cx.step();
    cx.state(&p);
    let same_svc = p[0].1 == p[1].1 && p[0].2 == p[1].2;
    let same = same_svc && p[0].0 == p[1].0;
    ensure!((a == b) == same && (a.cmp(&b) == Ordering::Equal) == same && a.cmp(&b) == b.cmp(&a).reverse(), "instances {a} and {b}: equality or order is wrong");
    let (s, t) = (a.service(), b.service());
    ensure!((s == t) == same_svc && (s.cmp(t) == Ordering::Equal) == same_svc && s.cmp(t) == t.cmp(s).reverse(), "services {s} and {t}: equality or order is wrong");
    ensure!(!same || h(&a) == h(&b), "equal instances hash differently");
    Ok(())
}
/// Two announcements one change apart are two values, whichever way they were made.
fn c19_kin(cx: &mut Cx) -> R {
    let ls: Vec<&[u8]> = corpus::bases().iter().map(|b| &b[0][..]).collect();
    let l = *cx.pick(&ls);
    let base: Name = match cx.flag() {
        false => vec![l.to_vec(), b"_svc".to_vec(), b"_tcp".to_vec(), b"local".to_vec()],
        true => vec![b"Some".to_vec(), [b"_", &l[..l.len().min(62)]].concat(), b"_udp".to_vec(), b"local".to_vec()],
    };
    let mut near: Vec<Name> = corpus::kin(&base).iter().filter(|n| n.iter().all(|l| (1..64).contains(&l.len()))).cloned().collect();
    for i in 0..2 {
        let mut n = base.clone();
        n[i].make_ascii_uppercase();
        near.push(n);
    }
    let other = cx.pick(&near);
    c19_name(cx, other)?;
    c19_name(cx, &other[1.min(other.len())..].to_vec())?;
    let (Some(x), Some(y)) = (pool::instance_of(&base), pool::instance_of(other)) else { return Ok(()) };
    let (a, b) = (ServiceInstance::from_ptr(ptr(&base)).map_err(|e| format!("{e:?}"))?, ServiceInstance::from_ptr(ptr(other)).map_err(|e| format!("{e:?}"))?);
    cx.note(|| format!("{} and {}", rd::show_name(&base), rd::show_name(other)));
    let same = x == y;
    ensure!((a == b) == same && (a.cmp(&b) == Ordering::Equal) == same && a.cmp(&b) == b.cmp(&a).reverse(), "instances {a} and {b}: equality or order is wrong");
    let same = (&x.1, x.2) == (&y.1, y.2);
    let (s, t) = (a.service(), b.service());
    ensure!((s == t) == same && (s.cmp(t) == Ordering::Equal) == same && s.cmp(t) == t.cmp(s).reverse(), "services {s} and {t}: equality or order is wrong");
    ensure!(!same || h(s) == h(t), "equal services hash differently");
    Ok(())
}
/// The order is transitive, so that sorted collections keep values apart.
fn c19_triples(cx: &mut Cx) -> R {
    let il: [&[u8]; 7] = [b"a", b"B", b"b", b"ba", b"b.a", b"\xff", b"\0"];
    let sl: [&[u8]; 6] = [b"_x", b"_X", b"_xy", b"_y", b"_", b"_x\xff"];
    let mut v = vec![];
    for _ in 0..3 {
        let i = cx.choose(il.len() * sl.len() * 2);
        v.push(ServiceInstance::new(Label::new(il[i % 7]), Label::new(sl[i / 7 % 6]), transport(i / 42 == 0).0));
    }
    cx.step();
    let (a, b, c) = (&v[0], &v[1], &v[2]);
    ensure!(!(a <= b && b <= c) || a <= c, "{a} <= {b} <= {c}, but not {a} <= {c}");
    let (a, b, c) = (a.service(), b.service(), c.service());
    ensure!(!(a <= b && b <= c) || a <= c, "{a} <= {b} <= {c}, but not {a} <= {c}");
    Ok(())
}
fn c19_build(cx: &mut Cx) -> R {
    let first = cx.choose(256) as u8;
    let len = *cx.pick(&[1usize, 2, 63]);
    let tcp = cx.flag();
    let mut l = vec![b'_'; len];
    l[0] = first;
    let (t, tl) = transport(tcp);
    cx.steps(2);
    cx.state(&l);
    let ok = first == b'_';
    ensure_eq!(catch(|| Service::new(Label::new(&l), t)).is_ok(), ok, "Service::new({})", l.escape_ascii());
    ensure_eq!(catch(|| ServiceInstance::new(Label::new("i"), Label::new(&l), t)).is_ok(), ok, "ServiceInstance::new({})", l.escape_ascii());
    ensure!(t.to_label().as_bytes() == tl, "label of {t:?}");
    let s = std::str::from_utf8(tl).unwrap();
    ensure!(s.parse::<ServiceTransport>().ok() == Some(t), "parsing {s}");
    for bad in ["", "tcp", "_tcp.", "_tc", "_udpx", "_sctp", " _tcp"] {
        ensure!(bad.parse::<ServiceTransport>().is_err(), "{bad:?} parses as a transport");
    }
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C18",
            rule: "All lists of metadata entries over the bounded alphabets are parsed and compared with a first-wins table model through lookup (all probe keys in several cases), iteration, emptiness and printing; then all sequences of flag additions.",
            assumptions: &["whether a flag added over a key with a value keeps or drops the value is not judged", "iteration order is not judged"],
            scenarios: vec![
                Scenario { name: "lists", f: c18_lists, dev: (0, 0), bounds: "all lists of 1-3 (1-4) entries from a pool of 18, made by hand and received" },
                Scenario { name: "bytes", f: c18_bytes, dev: (0, 0), bounds: "all entries of up to 5 bytes over 7 values; pairs up to 3 bytes; triples up to 2 bytes; no entries" },
                Scenario { name: "values", f: c18_values, dev: (0, 0), bounds: "1445 sets of metadata (every byte as key or value, all entry lengths, 0-60 entries), plain, doubled, reversed, among entries that do not count; 11 spellings of every key looked up" },
                Scenario { name: "anyflag", f: c18_any_flag, dev: (0, 0), bounds: "every text of 1254 labels as a flag on 3 tables, then again in 7 spellings" },
                Scenario { name: "flags", f: c18_flags, dev: (0, 0), bounds: "6 starting tables x all sequences of 3 (4) of 14 flags, among them other cases of letters inside and outside ASCII" },
            ],
        },
        Property {
            id: "C19",
            rule: "All pointer targets of up to 5 labels over an alphabet of 12 labels are parsed as service and instance and compared with the grammar; equality, order, hash and printing are checked against hand-built values and over all pairs.",
            assumptions: &[],
            scenarios: vec![
                Scenario { name: "lists", f: c19_lists, dev: (0, 0), bounds: "all label lists of length 0-5 over 13 labels" },
                Scenario { name: "values", f: c19_values, dev: (0, 0), bounds: "1254 instance or service labels; about 5000 transport labels (every byte changed, inserted, appended or removed, every spelling); 4341 domains or whole targets" },
                Scenario { name: "edits", f: c19_edits, dev: (0, 0), bounds: "3 names with every byte changed to, or preceded by, every other, or left out" },
                Scenario { name: "pairs", f: c19_pairs, dev: (0, 0), bounds: "all pairs of 60 instances, parsed or built" },
                Scenario { name: "kin", f: c19_kin, dev: (0, 0), bounds: "31 instance names and 31 service names with every name one change away, with and without its first label: parts, equality, order, hash" },
                Scenario { name: "triples", f: c19_triples, dev: (0, 0), bounds: "all triples of 84 instances: the order is transitive" },
                Scenario { name: "build", f: c19_build, dev: (0, 0), bounds: "all first bytes, 3 lengths, both transports" },
            ],
        },
    ]
}
