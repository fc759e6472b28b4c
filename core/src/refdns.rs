//! Independent DNS reference codec, written from RFC 1035/2782/3596/6762 and sharing no code with
//! the crate under test. Kept deliberately boring.

pub type Name = Vec<Vec<u8>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bad {
    Eof,
    Loop,
    Invalid,
}

/// Reads a domain name starting at `pos`; nothing at or after `end` may be read.
/// Returns the labels and the position at which the message continues.
pub fn name(msg: &[u8], end: usize, pos: usize) -> Result<(Name, usize), Bad> {
    let mut labels = vec![];
    let mut part_start = pos;
    let mut cur = pos;
    let mut resume = None;
    loop {
        if cur >= end {
            return Err(Bad::Eof);
        }
        let b = msg[cur];
        if b >= 0xc0 {
            if cur + 1 >= end {
                return Err(Bad::Eof);
            }
            let target = (b as usize & 0x3f) * 256 + msg[cur + 1] as usize;
            if target >= part_start {
                return Err(Bad::Loop);
            }
            if resume.is_none() {
                resume = Some(cur + 2);
            }
            part_start = target;
            cur = target;
        } else if b >= 0x40 {
            return Err(Bad::Invalid);
        } else if b == 0 {
            return Ok((labels, resume.unwrap_or(cur + 1)));
        } else {
            let n = b as usize;
            if cur + 1 + n > end {
                return Err(Bad::Eof);
            }
            labels.push(msg[cur + 1..cur + 1 + n].to_vec());
            cur += 1 + n;
        }
    }
}

fn u16_at(msg: &[u8], end: usize, p: usize) -> Result<u16, Bad> {
    if p + 2 > end {
        return Err(Bad::Eof);
    }
    Ok(msg[p] as u16 * 256 + msg[p + 1] as u16)
}
fn u32_at(msg: &[u8], end: usize, p: usize) -> Result<u32, Bad> {
    Ok(u16_at(msg, end, p)? as u32 * 65536 + u16_at(msg, end, p + 2)? as u32)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Q {
    pub name: Name,
    pub qtype: u16,
    pub qclass: u16,
    pub unicast: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rr {
    pub name: Name,
    pub ty: u16,
    pub class: u16,
    pub flush: bool,
    pub ttl: u32,
    pub start: usize,
    pub end: usize,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Msg {
    pub id: u16,
    pub flags: u16,
    pub counts: [u16; 4],
    pub q: Vec<Q>,
    pub rr: [Vec<Rr>; 3],
    /// Section (0..4) in which decoding stops, and why.
    pub err: Option<(usize, Bad)>,
    /// Where the announced entries end (if they all decode).
    pub end: usize,
}
pub const QR: u16 = 0x8000;
pub const AA: u16 = 0x0400;
pub const TC: u16 = 0x0200;
pub const RD: u16 = 0x0100;
pub const RA: u16 = 0x0080;

impl Msg {
    pub fn response(&self) -> bool {
        self.flags & QR != 0
    }
    pub fn opcode(&self) -> u8 {
        (self.flags >> 11) as u8 & 15
    }
    pub fn rcode(&self) -> u8 {
        self.flags as u8 & 15
    }
}

pub fn question(msg: &[u8], pos: usize) -> Result<(Q, usize), Bad> {
    let (name, p) = name(msg, msg.len(), pos)?;
    let qtype = u16_at(msg, msg.len(), p)?;
    let c = u16_at(msg, msg.len(), p + 2)?;
    Ok((Q { name, qtype, qclass: c & 0x7fff, unicast: c & 0x8000 != 0 }, p + 4))
}
pub fn record(msg: &[u8], pos: usize) -> Result<(Rr, usize), Bad> {
    let e = msg.len();
    let (name, p) = name(msg, e, pos)?;
    let ty = u16_at(msg, e, p)?;
    let c = u16_at(msg, e, p + 2)?;
    let ttl = u32_at(msg, e, p + 4)?;
    let n = u16_at(msg, e, p + 8)? as usize;
    let start = p + 10;
    if start + n > e {
        return Err(Bad::Eof);
    }
    Ok((Rr { name, ty, class: c & 0x7fff, flush: c & 0x8000 != 0, ttl, start, end: start + n }, start + n))
}

/// None: shorter than a header.
pub fn parse(msg: &[u8]) -> Option<Msg> {
    if msg.len() < 12 {
        return None;
    }
    let w = |i: usize| msg[2 * i] as u16 * 256 + msg[2 * i + 1] as u16;
    let mut m = Msg { id: w(0), flags: w(1), counts: [w(2), w(3), w(4), w(5)], q: vec![], rr: [vec![], vec![], vec![]], err: None, end: 12 };
    let mut p = 12;
    for _ in 0..m.counts[0] {
        match question(msg, p) {
            Ok((q, n)) => {
                m.q.push(q);
                p = n;
            }
            Err(e) => {
                m.err = Some((0, e));
                return Some(m);
            }
        }
    }
    for s in 0..3 {
        for _ in 0..m.counts[s + 1] {
            match record(msg, p) {
                Ok((r, n)) => {
                    m.rr[s].push(r);
                    p = n;
                }
                Err(e) => {
                    m.err = Some((s + 1, e));
                    return Some(m);
                }
            }
        }
    }
    m.end = p;
    Some(m)
}

pub const A: u16 = 1;
pub const NS: u16 = 2;
pub const CNAME: u16 = 5;
pub const SOA: u16 = 6;
pub const PTR: u16 = 12;
pub const MX: u16 = 15;
pub const TXT: u16 = 16;
pub const AAAA: u16 = 28;
pub const SRV: u16 = 33;
pub const ANY: u16 = 255;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Data {
    A([u8; 4]),
    Aaaa([u8; 16]),
    /// NS, CNAME, PTR
    Name(u16, Name),
    Mx(u16, Name),
    Txt(Vec<Vec<u8>>),
    Srv(u16, u16, u16, Name),
    Soa(Name, Name, [u32; 5]),
    /// Anything else, raw.
    Raw(u16, Vec<u8>),
}
impl Data {
    pub fn ty(&self) -> u16 {
        match self {
            Data::A(_) => A,
            Data::Aaaa(_) => AAAA,
            Data::Name(t, _) => *t,
            Data::Mx(..) => MX,
            Data::Txt(_) => TXT,
            Data::Srv(..) => SRV,
            Data::Soa(..) => SOA,
            Data::Raw(t, _) => *t,
        }
    }
}

/// Decodes the data of a supported record type; None: unsupported type.
pub fn data(msg: &[u8], start: usize, end: usize, ty: u16) -> Option<Result<Data, Bad>> {
    let r = || -> Result<Data, Bad> {
        Ok(match ty {
            A => {
                if end - start < 4 {
                    return Err(Bad::Eof);
                }
                Data::A(msg[start..start + 4].try_into().unwrap())
            }
            AAAA => {
                if end - start < 16 {
                    return Err(Bad::Eof);
                }
                Data::Aaaa(msg[start..start + 16].try_into().unwrap())
            }
            NS | CNAME | PTR => Data::Name(ty, name(msg, end, start)?.0),
            MX => {
                let p = u16_at(msg, end, start)?;
                Data::Mx(p, name(msg, end, start + 2)?.0)
            }
            TXT => {
                let mut v = vec![];
                let mut p = start;
                while p < end {
                    let n = msg[p] as usize;
                    if p + 1 + n > end {
                        return Err(Bad::Eof);
                    }
                    v.push(msg[p + 1..p + 1 + n].to_vec());
                    p += 1 + n;
                }
                Data::Txt(v)
            }
            SRV => {
                let a = u16_at(msg, end, start)?;
                let b = u16_at(msg, end, start + 2)?;
                let c = u16_at(msg, end, start + 4)?;
                Data::Srv(a, b, c, name(msg, end, start + 6)?.0)
            }
            SOA => {
                let (m, p) = name(msg, end, start)?;
                let (r, p) = name(msg, end, p)?;
                let mut v = [0; 5];
                for (i, x) in v.iter_mut().enumerate() {
                    *x = u32_at(msg, end, p + 4 * i)?;
                }
                Data::Soa(m, r, v)
            }
            _ => unreachable!(),
        })
    };
    match ty {
        A | AAAA | NS | CNAME | PTR | MX | TXT | SRV | SOA => Some(r()),
        _ => None,
    }
}

// ---- construction ----

/// Splits on dots; "" and "." are the root.
pub fn n(s: &str) -> Name {
    s.split('.').filter(|l| !l.is_empty()).map(|l| l.as_bytes().to_vec()).collect()
}
pub fn show_name(n: &Name) -> String {
    if n.is_empty() {
        return ".".into();
    }
    n.iter().map(|l| format!("{}.", l.escape_ascii())).collect()
}
pub fn eq_ci(a: &Name, b: &Name) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eq_ignore_ascii_case(y))
}
pub fn put_name(out: &mut Vec<u8>, n: &Name) {
    for l in n {
        out.push(l.len() as u8);
        out.extend_from_slice(l);
    }
    out.push(0);
}
pub fn put16(out: &mut Vec<u8>, v: u16) {
    out.extend_from_slice(&[(v / 256) as u8, (v % 256) as u8]);
}
pub fn put32(out: &mut Vec<u8>, v: u32) {
    put16(out, (v / 65536) as u16);
    put16(out, (v % 65536) as u16);
}
pub fn name_len(n: &Name) -> usize {
    n.iter().map(|l| l.len() + 1).sum::<usize>() + 1
}
pub fn put_data(out: &mut Vec<u8>, d: &Data) {
    match d {
        Data::A(a) => out.extend_from_slice(a),
        Data::Aaaa(a) => out.extend_from_slice(a),
        Data::Name(_, n) => put_name(out, n),
        Data::Mx(p, n) => {
            put16(out, *p);
            put_name(out, n);
        }
        Data::Txt(v) => {
            for e in v {
                out.push(e.len() as u8);
                out.extend_from_slice(e);
            }
        }
        Data::Srv(a, b, c, n) => {
            put16(out, *a);
            put16(out, *b);
            put16(out, *c);
            put_name(out, n);
        }
        Data::Soa(m, r, v) => {
            put_name(out, m);
            put_name(out, r);
            for x in v {
                put32(out, *x);
            }
        }
        Data::Raw(_, b) => out.extend_from_slice(b),
    }
}

/// A message under construction (uncompressed unless names are written raw).
#[derive(Clone, Debug, Default)]
pub struct Build {
    pub id: u16,
    pub flags: u16,
    pub counts: [u16; 4],
    pub body: Vec<u8>,
}
impl Build {
    pub fn new(id: u16, flags: u16) -> Self {
        Build { id, flags, counts: [0; 4], body: vec![] }
    }
    pub fn pos(&self) -> usize {
        12 + self.body.len()
    }
    pub fn q(mut self, name: &Name, ty: u16, class: u16) -> Self {
        put_name(&mut self.body, name);
        put16(&mut self.body, ty);
        put16(&mut self.body, class);
        self.counts[0] += 1;
        self
    }
    /// `sec`: 1 answer, 2 authority, 3 additional.
    pub fn rr(mut self, sec: usize, name: &Name, class: u16, ttl: u32, d: &Data) -> Self {
        put_name(&mut self.body, name);
        put16(&mut self.body, d.ty());
        put16(&mut self.body, class);
        put32(&mut self.body, ttl);
        let mut b = vec![];
        put_data(&mut b, d);
        put16(&mut self.body, b.len() as u16);
        self.body.extend_from_slice(&b);
        self.counts[sec] += 1;
        self
    }
    pub fn ans(self, name: &Name, d: &Data) -> Self {
        self.rr(1, name, 1, 120, d)
    }
    pub fn done(&self) -> Vec<u8> {
        let mut o = vec![];
        put16(&mut o, self.id);
        put16(&mut o, self.flags);
        for c in self.counts {
            put16(&mut o, c);
        }
        o.extend_from_slice(&self.body);
        o
    }
}
