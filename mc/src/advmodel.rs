//! What an advertiser with a given configuration must answer (shared with the async checks).
use crate::conv;
use std::net::IpAddr;
use uwuhi::name::Label;
use uwuhi::packet::records::TXT;
use uwuhi::service::advertising::{Advertiser, SyncAdvertiser};
use uwuhi::service::{InstanceDetails, Service, ServiceInstance, ServiceTransport, TxtRecords};
use vcore::refdns::{self as rd, Data, Name};
use vcore::{corpus, util, Cx};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Inst {
    pub inst: Vec<u8>,
    pub svc: Vec<u8>,
    pub tcp: bool,
    pub host: Name,
    pub port: u16,
    /// Entries of the metadata (distinct keys).
    pub txt: Vec<Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Name(Vec<u8>, IpAddr),
    Inst(Inst),
}
pub fn nm(label: &[u8], ip: &str) -> Op {
    Op::Name(label.to_vec(), ip.parse().unwrap())
}
pub fn inst(i: &[u8], svc: &[u8], tcp: bool, host: &str, port: u16, txt: &[&[u8]]) -> Op {
    Op::Inst(Inst { inst: i.to_vec(), svc: svc.to_vec(), tcp, host: rd::n(host), port, txt: txt.iter().map(|t| t.to_vec()).collect() })
}
impl Inst {
    pub fn service_name(&self) -> Name {
        vec![self.svc.clone(), if self.tcp { b"_tcp".to_vec() } else { b"_udp".to_vec() }, b"local".to_vec()]
    }
    pub fn full_name(&self) -> Name {
        let mut n = vec![self.inst.clone()];
        n.extend(self.service_name());
        n
    }
    pub fn transport(&self) -> ServiceTransport {
        if self.tcp {
            ServiceTransport::TCP
        } else {
            ServiceTransport::Other
        }
    }
    pub fn instance(&self) -> ServiceInstance {
        ServiceInstance::new(Label::new(&self.inst), Label::new(&self.svc), self.transport())
    }
    pub fn service(&self) -> Service {
        Service::new(Label::new(&self.svc), self.transport())
    }
    pub fn details(&self) -> InstanceDetails {
        let mut d = InstanceDetails::new(conv::dn(&self.host), self.port);
        if !self.txt.is_empty() {
            *d.txt_records_mut() = TxtRecords::from_txt(&TXT::new(self.txt.clone()));
        }
        d
    }
}
pub fn apply(a: &mut Advertiser, op: &Op) {
    match op {
        Op::Name(l, ip) => a.add_name(Label::new(l), *ip),
        Op::Inst(i) => a.add_instance(i.instance(), i.details()),
    }
}
pub fn apply_sync(a: &mut SyncAdvertiser, op: &Op) {
    match op {
        Op::Name(l, ip) => a.add_name(Label::new(l), *ip),
        Op::Inst(i) => a.add_instance(i.instance(), i.details()),
    }
}
pub fn build(ops: &[Op]) -> Advertiser {
    let Op::Name(l, ip) = &ops[0] else { unreachable!() };
    let mut a = Advertiser::new(Label::new(l), *ip).expect("creating an advertiser failed");
    for op in &ops[1..] {
        apply(&mut a, op);
    }
    a
}
pub fn build_sync(ops: &[Op]) -> SyncAdvertiser {
    let Op::Name(l, ip) = &ops[0] else { unreachable!() };
    let mut a = SyncAdvertiser::new(Label::new(l), *ip).expect("creating an advertiser failed");
    for op in &ops[1..] {
        apply_sync(&mut a, op);
    }
    a
}
pub fn enum_name() -> Name {
    rd::n("_services._dns-sd._udp.local")
}
pub fn db(ops: &[Op]) -> Vec<(Name, Data)> {
    let mut v = vec![];
    for op in ops {
        match op {
            Op::Name(l, ip) => {
                let n = vec![l.clone(), b"local".to_vec()];
                v.push((
                    n,
                    match ip {
                        IpAddr::V4(a) => Data::A(a.octets()),
                        IpAddr::V6(a) => Data::Aaaa(a.octets()),
                    },
                ));
            }
            Op::Inst(i) => {
                v.push((i.full_name(), Data::Srv(0, 0, i.port, i.host.clone())));
                v.push((i.full_name(), Data::Txt(if i.txt.is_empty() { vec![vec![]] } else { i.txt.clone() })));
                v.push((i.service_name(), Data::Name(rd::PTR, i.full_name())));
                v.push((enum_name(), Data::Name(rd::PTR, i.service_name())));
            }
        }
    }
    v
}
pub fn type_matches(qtype: u16, ty: u16) -> bool {
    qtype == ty || qtype == 255 // no record of an advertiser is a mailbox record
}
/// Records owed to the questions, once per matching question.
pub fn answers(db: &[(Name, Data)], qs: &[rd::Q]) -> Vec<(Name, Data)> {
    let mut v = vec![];
    for q in qs {
        for (n, d) in db {
            if rd::eq_ci(n, &q.name) && type_matches(q.qtype, d.ty()) && (q.qclass == 1 || q.qclass == 255) {
                v.push((n.clone(), d.clone()));
            }
        }
    }
    v
}
/// Comparable form: owner names ignore case; SRV priority and weight are not promised; metadata is
/// a set of entries and the empty entry stands for none.
fn canon(n: &Name, d: &Data) -> (Name, Data) {
    let d = match d {
        Data::Srv(_, _, p, h) => Data::Srv(0, 0, *p, h.clone()),
        Data::Txt(e) => {
            let mut e: Vec<Vec<u8>> = e.iter().filter(|x| !x.is_empty()).cloned().collect();
            e.sort();
            Data::Txt(e)
        }
        d => d.clone(),
    };
    (n.iter().map(|l| l.to_ascii_lowercase()).collect(), d)
}
pub fn wire_len(n: &Name, d: &Data) -> usize {
    let mut b = vec![];
    rd::put_data(&mut b, d);
    rd::name_len(n) + 10 + b.len()
}
fn show(v: &[(Name, Data)]) -> String {
    v.iter().map(|(n, d)| format!("{} {:?}", rd::show_name(n), d)).collect::<Vec<_>>().join("; ").chars().take(1200).collect()
}
/// Judges the reaction of an advertiser with database `db` to `query` (whose questions all decode).
pub fn judge(db: &[(Name, Data)], query: &[u8], reply: Option<&[u8]>) -> Result<(), String> {
    let q = rd::parse(query).expect("query has a header");
    let mut want = answers(db, &q.q);
    let plain = !q.response() && q.opcode() == 0 && q.rcode() == 0 && !matches!(q.err, Some((0, _)));
    if !plain || want.is_empty() {
        return match reply {
            None => Ok(()),
            Some(r) => Err(format!("replied with {} to a packet that gets no reply: {}", util::show(r), util::show(query))),
        };
    }
    let Some(r) = reply else { return Err(format!("no reply to {} although {} record(s) match: {}", util::show(query), want.len(), show(&want))) };
    if r.len() > 1500 {
        return Err(format!("reply of {} bytes exceeds the mDNS message size", r.len()));
    }
    let Some(m) = rd::parse(r) else { return Err(format!("reply is too short: {}", util::hex(r))) };
    if let Some(e) = m.err {
        return Err(format!("reply does not decode ({e:?}): {}", util::show(r)));
    }
    if m.id != q.id {
        return Err(format!("reply has ID {:#06x}, the query had {:#06x}", m.id, q.id));
    }
    if !m.response() || m.flags & rd::AA == 0 || m.opcode() != 0 || m.rcode() != 0 {
        return Err(format!("reply flags {:#06x} are not those of an authoritative response without error", m.flags));
    }
    if !m.rr[1].is_empty() || !m.rr[2].is_empty() {
        return Err("reply has authority or additional records".into());
    }
    let fits = 12 + want.iter().map(|(n, d)| wire_len(n, d)).sum::<usize>() <= 1500;
    let trunc = m.flags & rd::TC != 0;
    if trunc && fits {
        return Err("reply is flagged truncated although everything fits".into());
    }
    for rr in &m.rr[0] {
        if rr.class != 1 {
            return Err(format!("record with class {}", rr.class));
        }
        if rr.ttl == 0 {
            return Err("record with a TTL of zero".into());
        }
        let d = match rd::data(r, rr.start, rr.end, rr.ty) {
            Some(Ok(d)) => d,
            e => return Err(format!("record of type {} does not decode: {e:?}", rr.ty)),
        };
        let c = canon(&rr.name, &d);
        match want.iter().position(|(n, d)| canon(n, d) == c) {
            Some(i) => {
                want.remove(i);
            }
            None => return Err(format!("reply has {} {:?}, which is not (or no longer) owed for {}; still owed: {}", rd::show_name(&rr.name), d, util::show(query), show(&want))),
        }
    }
    if want.is_empty() {
        if trunc {
            return Err("reply is flagged truncated although it is complete".into());
        }
        return Ok(());
    }
    if !trunc {
        return Err(format!("reply to {} lacks {}", util::show(query), show(&want)));
    }
    let largest = want.iter().map(|(n, d)| wire_len(n, d)).max().unwrap();
    if 1500 - m.end >= largest {
        return Err(format!("reply is cut after {} bytes although each missing record (at most {largest} bytes) would still fit", m.end));
    }
    Ok(())
}

/// Configurations in which one thing takes every value of its family. `small`: all replies fit.
pub fn varied(cx: &mut Cx, small: bool) -> Vec<Op> {
    let host = nm(b"host", "192.0.2.1");
    let i0 = |svc: &[u8], tcp, txt: &[Vec<u8>]| Inst { inst: b"in".to_vec(), svc: svc.to_vec(), tcp, host: rd::n("host.local"), port: 80, txt: txt.to_vec() };
    match cx.choose(8) {
        0 => vec![Op::Name(b"host".to_vec(), *cx.pick(corpus::addrs())), nm(b"other", "192.0.2.9")],
        1 => vec![Op::Name(cx.pick(corpus::labels()).clone(), [192, 0, 2, 1].into())],
        2 => vec![host, Op::Inst(Inst { inst: cx.pick(corpus::labels()).clone(), ..i0(b"_svc", true, &[]) })],
        3 => {
            let mut l = cx.pick(corpus::labels()).clone();
            if l.first() != Some(&b'_') {
                l.insert(0, b'_');
                l.truncate(63);
            }
            let tcp = cx.flag();
            vec![host, Op::Inst(i0(&l, tcp, &[]))]
        }
        4 => vec![host, Op::Inst(Inst { host: cx.pick(corpus::hosts()).clone(), ..i0(b"_svc", true, &[]) })],
        5 => {
            let hi = cx.choose(256) as u16;
            vec![host, Op::Inst(Inst { port: hi << 8 | cx.choose(256) as u16, ..i0(b"_svc", false, &[]) })]
        }
        6 => vec![host, Op::Inst(i0(b"_svc", true, cx.pick(corpus::metadata())))],
        _ => {
            // numbers of names and instances
            let mut v = vec![host];
            match cx.choose(3) {
                0 => {
                    // many instances of one service
                    let n = 1 + cx.choose(if small { 28 } else { 90 });
                    v.extend((0..n).map(|k| Op::Inst(Inst { inst: format!("i{k}").into_bytes(), port: k as u16, ..i0(b"_svc", true, &[]) })));
                }
                1 => {
                    // many services
                    let n = 1 + cx.choose(if small { 22 } else { 90 });
                    v.extend((0..n).map(|k| Op::Inst(Inst { port: k as u16, ..i0(format!("_s{k}").as_bytes(), k % 3 > 0, &[vec![b'a' + k as u8 % 26]]) })));
                }
                _ => {
                    // many addresses of one name, then other names
                    let n = 1 + cx.choose(if small { 40 } else { 90 });
                    v.extend((0..n).map(|k| Op::Name(if k % 5 == 4 { format!("h{k}").into_bytes() } else { b"host".to_vec() }, if k % 2 == 0 { [10, 1, 2, k as u8].into() } else { [0xfd00, 0, 0, 0, 0, 0, 0, k as u16].into() })));
                }
            }
            v
        }
    }
}
pub fn show_ops(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Name(l, ip) => format!("name {} {ip}", l.escape_ascii()),
            Op::Inst(i) => format!("instance {} -> {}:{} ({} txt)", rd::show_name(&i.full_name()), rd::show_name(&i.host), i.port, i.txt.len()),
        })
        .collect::<Vec<_>>()
        .join(", ")
        .chars()
        .take(600)
        .collect()
}
