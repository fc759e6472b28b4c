//! Drives the crate's section-typed decoder through arbitrary operation sequences and compares every
//! step with the reference parse.
use crate::conv;
use uwuhi::packet::decoder::{MessageDecoder, Question, ResourceRecord};
use uwuhi::packet::section;
use uwuhi::Error;
use vcore::refdns::{self as rd, Data, Msg, Q, Rr};
use vcore::{ensure, ensure_eq, Cx};

pub enum St<'a> {
    Q(MessageDecoder<'a, section::Question>),
    An(MessageDecoder<'a, section::Answer>),
    Au(MessageDecoder<'a, section::Authority>),
    Ad(MessageDecoder<'a, section::Additional>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Item {
    Q(Q),
    R(RrObs),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct RrObs {
    pub name: rd::Name,
    pub ty: u16,
    pub class: u16,
    pub flush: bool,
    pub ttl: u32,
    pub rdata: Vec<u8>,
    pub data: Option<Result<Data, Option<rd::Bad>>>,
}

pub fn obs_q(q: &Question) -> Q {
    // The unicast-response bit has no accessor; it must not show up in the class.
    Q { name: conv::name(q.qname()), qtype: conv::n16(q.qtype()), qclass: conv::n16(q.qclass()), unicast: false }
}
pub fn obs_r(r: &ResourceRecord<'_>) -> RrObs {
    RrObs {
        name: conv::name(r.name()),
        ty: conv::n16(r.type_()),
        class: conv::n16(r.class()),
        flush: r.cache_flush(),
        ttl: r.ttl(),
        rdata: r.rdata().to_vec(),
        data: r.as_enum().map(|x| x.map(|r| conv::data(&r)).map_err(conv::bad)),
    }
}
pub fn ref_r(msg: &[u8], r: &Rr) -> RrObs {
    RrObs {
        name: r.name.clone(),
        ty: r.ty,
        class: r.class,
        flush: r.flush,
        ttl: r.ttl,
        rdata: msg[r.start..r.end].to_vec(),
        data: rd::data(msg, r.start, r.end, r.ty).map(|x| x.map_err(Some)),
    }
}

impl<'a> St<'a> {
    pub fn sec(&self) -> usize {
        match self {
            St::Q(_) => 0,
            St::An(_) => 1,
            St::Au(_) => 2,
            St::Ad(_) => 3,
        }
    }
    pub fn next(&mut self, iter: bool) -> Option<Result<Item, Error>> {
        macro_rules! rr {
            ($d:expr) => {
                if iter {
                    $d.iter().next().map(|r| r.map(|r| Item::R(obs_r(&r))))
                } else {
                    $d.next().map(|r| r.map(|r| Item::R(obs_r(&r))))
                }
            };
        }
        match self {
            St::Q(d) => {
                let q = if iter { d.iter().next() } else { d.next() };
                q.map(|r| r.map(|q| Item::Q(obs_q(&q))))
            }
            St::An(d) => rr!(d),
            St::Au(d) => rr!(d),
            St::Ad(d) => rr!(d),
        }
    }
    pub fn skip(self, to: usize) -> Result<St<'a>, Error> {
        Ok(match (self, to) {
            (St::Q(d), 1) => St::An(d.answers()?),
            (St::Q(d), 2) => St::Au(d.authority()?),
            (St::Q(d), 3) => St::Ad(d.additional()?),
            (St::An(d), 2) => St::Au(d.authority()?),
            (St::An(d), 3) => St::Ad(d.additional()?),
            (St::Au(d), 3) => St::Ad(d.additional()?),
            _ => unreachable!(),
        })
    }
    pub fn header(&self) -> uwuhi::packet::Header {
        match self {
            St::Q(d) => *d.header(),
            St::An(d) => *d.header(),
            St::Au(d) => *d.header(),
            St::Ad(d) => *d.header(),
        }
    }
}

pub fn count(m: &Msg, sec: usize) -> usize {
    if sec == 0 {
        m.q.len()
    } else {
        m.rr[sec - 1].len()
    }
}
pub fn ref_item(msg: &[u8], m: &Msg, sec: usize, i: usize) -> Item {
    if sec == 0 {
        Item::Q(Q { unicast: false, ..m.q[i].clone() })
    } else {
        Item::R(ref_r(msg, &m.rr[sec - 1][i]))
    }
}

/// Checks the header accessors of a decoded message against the reference.
pub fn check_header(h: &uwuhi::packet::Header, m: &Msg) -> Result<(), String> {
    ensure_eq!(h.id(), m.id, "header id");
    ensure_eq!(h.is_response(), m.response(), "header response flag");
    ensure_eq!(h.is_query(), !m.response(), "header query flag");
    ensure_eq!(h.is_authority(), m.flags & rd::AA != 0, "header AA");
    ensure_eq!(h.is_truncated(), m.flags & rd::TC != 0, "header TC");
    ensure_eq!(h.is_recursion_desired(), m.flags & rd::RD != 0, "header RD");
    ensure_eq!(h.is_recursion_available(), m.flags & rd::RA != 0, "header RA");
    ensure_eq!(bytemuck::cast::<_, u8>(h.opcode()), m.opcode(), "header opcode");
    ensure_eq!(bytemuck::cast::<_, u8>(h.rcode()), m.rcode(), "header rcode");
    ensure_eq!([h.question_count(), h.answer_count(), h.authoritative_count(), h.additional_count()], m.counts, "header counts");
    Ok(())
}

/// Reads the whole message in order and compares with the reference parse. Returns the reference.
pub fn linear(cx: &mut Cx, msg: &[u8], iter: bool) -> Result<Option<Msg>, String> {
    let m = rd::parse(msg);
    cx.step();
    let dec = MessageDecoder::new(msg);
    let Some(m) = m else {
        ensure!(dec.is_err(), "a message shorter than a header was accepted");
        return Ok(None);
    };
    let dec = match dec {
        Ok(d) => d,
        Err(e) => return Err(format!("header rejected: {e:?}")),
    };
    let mut st = St::Q(dec);
    check_header(&st.header(), &m)?;
    for sec in 0..4 {
        if sec > 0 {
            st = match st.skip(sec) {
                Ok(s) => s,
                Err(e) => return Err(format!("moving to section {sec} after reading section {} completely failed: {e:?}", sec - 1)),
            };
        }
        let n = count(&m, sec);
        for i in 0..n {
            cx.step();
            match st.next(iter) {
                Some(Ok(it)) => {
                    let want = ref_item(msg, &m, sec, i);
                    ensure_eq!(it, want, "section {sec} entry {i}");
                }
                Some(Err(e)) => return Err(format!("section {sec} entry {i} rejected with {e:?}, expected {:?}", ref_item(msg, &m, sec, i))),
                None => return Err(format!("section {sec} ended before entry {i} of {n}")),
            }
        }
        cx.step();
        if let Some((s, why)) = m.err.filter(|(s, _)| *s == sec) {
            match st.next(iter) {
                Some(Err(e)) => ensure_eq!(conv::bad(e), Some(why), "kind of error in section {s}"),
                o => return Err(format!("section {s} entry {n} is malformed ({why:?}) but the decoder gave {o:?}")),
            }
            ensure!(st.next(iter).is_none(), "decoder yields more after an error");
            return Ok(Some(m));
        }
        if let Some(x) = st.next(iter) {
            return Err(format!("section {sec} yields more than the announced {n} entries: {x:?}"));
        }
    }
    Ok(Some(m))
}

/// Arbitrary walk: at each state read, jump to a later section, or stop.
pub fn walk(cx: &mut Cx, msg: &[u8]) -> Result<(), String> {
    let Some(m) = rd::parse(msg) else { return Ok(()) };
    let Ok(dec) = MessageDecoder::new(msg) else { return Err("header rejected".into()) };
    let mut st = St::Q(dec);
    let mut i = 0; // entries read in the current section
    let mut errored = false;
    let mut after = 0;
    let style = cx.flag();
    loop {
        let sec = st.sec();
        check_header(&st.header(), &m)?;
        cx.state(&(msg.len(), vcore::util::hash(msg), sec, i, errored));
        // 0: stop; 1: read; 2..: skip to sec+1, ...
        let op = cx.choose(2 + 3 - sec);
        cx.step();
        match op {
            0 => return Ok(()),
            1 => {
                let got = st.next(style);
                if errored {
                    ensure!(got.is_none(), "decoder yields {got:?} after an error");
                    after += 1;
                    if after >= 2 {
                        return Ok(());
                    }
                    continue;
                }
                let n = count(&m, sec);
                if i < n {
                    let want = ref_item(msg, &m, sec, i);
                    match got {
                        Some(Ok(g)) => ensure_eq!(g, want, "section {sec} entry {i}"),
                        o => return Err(format!("section {sec} entry {i}: got {o:?}, expected {want:?}")),
                    }
                    i += 1;
                } else if let Some((_, why)) = m.err.filter(|(s, _)| *s == sec) {
                    match got {
                        Some(Err(e)) => ensure_eq!(conv::bad(e), Some(why), "kind of error in section {sec}"),
                        o => return Err(format!("section {sec} entry {i} is malformed but the decoder gave {o:?}")),
                    }
                    errored = true;
                } else {
                    ensure!(got.is_none(), "section {sec} yields {got:?} after its last entry");
                    after += 1;
                    if after >= 2 {
                        return Ok(());
                    }
                }
            }
            k => {
                let to = sec + k - 1;
                let bad = m.err.filter(|(s, _)| *s < to);
                match st.skip(to) {
                    Ok(s) => {
                        if !errored {
                            if let Some((s, _)) = bad {
                                return Err(format!("skipping to section {to} succeeded across a malformed entry in section {s}"));
                            }
                        }
                        st = s;
                        i = 0;
                        after = 0;
                    }
                    Err(e) => {
                        if errored {
                            return Ok(());
                        }
                        let Some((_, why)) = bad else { return Err(format!("skipping to section {to} failed with {e:?} although all entries are well-formed")) };
                        ensure_eq!(conv::bad(e), Some(why), "kind of error while skipping");
                        return Ok(());
                    }
                }
            }
        }
    }
}

/// Reads `read` entries of section `s`, skips to section `to`, and reads on there.
pub fn skip(cx: &mut Cx, msg: &[u8], s: usize, read: usize, to: usize) -> Result<(), String> {
    let Some(m) = rd::parse(msg) else { return Ok(()) };
    let Ok(dec) = MessageDecoder::new(msg) else { return Err("header rejected".into()) };
    let mut st = St::Q(dec);
    if s > 0 {
        st = st.skip(s).map_err(|e| format!("skipping to section {s} failed with {e:?}"))?;
    }
    for i in 0..read {
        cx.step();
        match st.next(i & 1 == 0) {
            Some(Ok(g)) if i < count(&m, s) => ensure_eq!(g, ref_item(msg, &m, s, i), "section {s} entry {i}"),
            Some(Err(_)) if i >= count(&m, s) => return Ok(()),
            o => return Err(format!("section {s} entry {i}: got {o:?}")),
        }
    }
    let bad = m.err.is_some_and(|(x, _)| x < to);
    let mut st = match st.skip(to) {
        Ok(_) if bad => return Err(format!("skipping to section {to} succeeded across a malformed entry")),
        Err(_) if bad => return Ok(()),
        Err(e) => return Err(format!("skipping to section {to} failed with {e:?} although all entries are well-formed")),
        Ok(st) => st,
    };
    for i in 0..count(&m, to) {
        match st.next(i & 1 == 0) {
            Some(Ok(g)) => ensure_eq!(g, ref_item(msg, &m, to, i), "section {to} entry {i} after skipping"),
            o => return Err(format!("section {to} entry {i} after skipping: got {o:?}")),
        }
    }
    let e = st.next(true);
    ensure!(e.is_none() || m.err.is_some_and(|(x, _)| x == to), "section {to} yields {e:?} after its last entry");
    Ok(())
}
