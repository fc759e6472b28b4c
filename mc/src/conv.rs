//! Conversions between the crate's types and the reference model's.
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::records::*;
use uwuhi::packet::{Class, QClass, QType, Type};
use vcore::refdns::{self as rd, Bad, Data, Name};

pub fn name(d: &DomainName) -> Name {
    d.labels().iter().map(|l| l.as_bytes().to_vec()).collect()
}
pub fn dn(n: &Name) -> DomainName {
    n.iter().map(Label::new).collect()
}
pub fn ty(v: u16) -> Type {
    bytemuck::cast(v)
}
pub fn qty(v: u16) -> QType {
    bytemuck::cast(v)
}
pub fn cls(v: u16) -> Class {
    bytemuck::cast(v)
}
pub fn qcls(v: u16) -> QClass {
    bytemuck::cast(v)
}
pub fn n16<T: bytemuck::NoUninit>(t: T) -> u16 {
    bytemuck::cast(t)
}
pub fn data(r: &Record<'_>) -> Data {
    match r {
        Record::A(a) => Data::A(a.addr().octets()),
        Record::AAAA(a) => Data::Aaaa(a.addr().octets()),
        Record::CNAME(c) => Data::Name(rd::CNAME, name(c.cname())),
        Record::NS(c) => Data::Name(rd::NS, name(c.nsdname())),
        Record::PTR(c) => Data::Name(rd::PTR, name(c.ptrdname())),
        Record::MX(m) => Data::Mx(m.preference(), name(m.exchange())),
        Record::TXT(t) => Data::Txt(t.entries().map(|e| e.to_vec()).collect()),
        Record::SRV(s) => Data::Srv(s.priority(), s.weight(), s.port(), name(s.target())),
        Record::SOA(s) => Data::Soa(
            name(s.mname()),
            name(s.rname()),
            [s.serial(), s.refresh(), s.retry(), s.expire(), s.minimum_ttl()],
        ),
        _ => Data::Raw(n16(r.record_type()), vec![]),
    }
}
pub fn rec(d: &Data) -> Record<'static> {
    match d {
        Data::A(a) => Record::A(A::new((*a).into())),
        Data::Aaaa(a) => Record::AAAA(AAAA::new((*a).into())),
        Data::Name(rd::CNAME, n) => Record::CNAME(CNAME::new(dn(n))),
        Data::Name(rd::NS, n) => Record::NS(NS::new(dn(n))),
        Data::Name(_, n) => Record::PTR(PTR::new(dn(n))),
        Data::Mx(p, n) => Record::MX(MX::new(*p, dn(n))),
        Data::Txt(v) => Record::TXT(TXT::new(v.clone())),
        Data::Srv(a, b, c, n) => Record::SRV(SRV::new(*a, *b, *c, dn(n))),
        Data::Soa(m, r, v) => Record::SOA(SOA::new(dn(m), dn(r), v[0], v[1], v[2], v[3], v[4])),
        Data::Raw(..) => unreachable!(),
    }
}
pub fn bad(e: uwuhi::Error) -> Option<Bad> {
    match e {
        uwuhi::Error::Eof => Some(Bad::Eof),
        uwuhi::Error::PointerLoop => Some(Bad::Loop),
        uwuhi::Error::InvalidValue => Some(Bad::Invalid),
        _ => None,
    }
}
