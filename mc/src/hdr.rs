//! C07 header, C09 type/class matching.
use crate::conv;
use uwuhi::packet::encoder::MessageEncoder;
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::packet::{Header, Opcode, RCode};
use vcore::explore::{Property, Scenario};
use vcore::refdns as rd;
use vcore::{ensure, ensure_eq, Cx};

type R = Result<(), String>;

/// Header model: the six 16-bit words of RFC 1035 4.1.1.
type W = [u16; 6];
fn make(w: W) -> Header {
    let mut b = [0u8; 12];
    for i in 0..6 {
        b[2 * i] = (w[i] / 256) as u8;
        b[2 * i + 1] = (w[i] % 256) as u8;
    }
    bytemuck::cast(b)
}
fn wire(h: &Header) -> W {
    let b: [u8; 12] = bytemuck::cast(*h);
    let mut w = [0; 6];
    for i in 0..6 {
        w[i] = b[2 * i] as u16 * 256 + b[2 * i + 1] as u16;
    }
    w
}
fn check(h: &Header, w: &W) -> R {
    ensure_eq!(wire(h), *w, "wire form");
    let f = w[1];
    let got = (
        h.id(),
        [h.is_response(), h.is_query(), h.is_authority(), h.is_truncated(), h.is_recursion_desired(), h.is_recursion_available()],
        bytemuck::cast::<_, u8>(h.opcode()),
        bytemuck::cast::<_, u8>(h.rcode()),
        [h.question_count(), h.answer_count(), h.authoritative_count(), h.additional_count()],
    );
    let want = (
        w[0],
        [f & rd::QR != 0, f & rd::QR == 0, f & rd::AA != 0, f & rd::TC != 0, f & rd::RD != 0, f & rd::RA != 0],
        (f >> 11 & 15) as u8,
        (f & 15) as u8,
        [w[2], w[3], w[4], w[5]],
    );
    ensure_eq!(got, want, "accessors (id, [qr, query, aa, tc, rd, ra], opcode, rcode, counts) of words {w:04x?}");
    Ok(())
}
/// Number of setter operations; `apply` performs one on the crate and on the model.
const OPS: usize = 10 + 16 + 16 + 4;
fn apply(op: usize, h: &mut Header, w: &mut W) {
    fn set(w: &mut W, bit: u16, v: bool) {
        w[1] = if v { w[1] | bit } else { w[1] & !bit };
    }
    match op {
        0..=9 => {
            let v = op % 2 == 1;
            match op / 2 {
                0 => {
                    h.set_response(v);
                    set(w, rd::QR, v);
                }
                1 => {
                    h.set_authority(v);
                    set(w, rd::AA, v);
                }
                2 => {
                    h.set_truncated(v);
                    set(w, rd::TC, v);
                }
                3 => {
                    h.set_recursion_desired(v);
                    set(w, rd::RD, v);
                }
                _ => {
                    h.set_recursion_available(v);
                    set(w, rd::RA, v);
                }
            }
        }
        10..=25 => {
            let v = (op - 10) as u16;
            h.set_opcode(bytemuck::cast::<u8, Opcode>(v as u8));
            w[1] = w[1] & !0x7800 | v << 11;
        }
        26..=41 => {
            let v = (op - 26) as u16;
            h.set_rcode(bytemuck::cast::<u8, RCode>(v as u8));
            w[1] = w[1] & !0x000f | v;
        }
        _ => {
            let v = [0u16, 0xffff, 0x0100, 0x00a5][op - 42];
            h.set_id(v);
            w[0] = v;
        }
    }
}
/// All flag words x all setters: one transition of the full state graph each.
fn c07_graph(cx: &mut Cx) -> R {
    let hi = cx.choose(256) as u16;
    let bg: W = *cx.pick(&[[0, 0, 0, 0, 0, 0], [0xffff; 6], [0x1234, 0, 0x0102, 0x0304, 0x0506, 0x0708]]);
    cx.note(|| format!("flag words {:#06x}..+256 with other words {bg:04x?}", hi << 8));
    for lo in 0..256u16 {
        let mut w = bg;
        w[1] = hi << 8 | lo;
        let h = make(w);
        cx.state(&w);
        check(&h, &w)?;
        for op in 0..OPS {
            cx.step();
            let (mut h2, mut w2) = (h, w);
            apply(op, &mut h2, &mut w2);
            check(&h2, &w2).map_err(|e| format!("setter {op} from words {w:04x?}: {e}"))?;
        }
        // values that do not fit their field must not leak into others
        for v in 16..=255u8 {
            cx.steps(2);
            let mut h2 = h;
            h2.set_opcode(bytemuck::cast::<u8, Opcode>(v));
            let mut w2 = wire(&h2);
            ensure!(w2[1] & !0x7800 == w[1] & !0x7800, "set_opcode({v}) changes bits outside the opcode: {:04x} -> {:04x}", w[1], w2[1]);
            w2[1] = w[1];
            ensure!(w2 == w, "set_opcode changes another word");
            let mut h2 = h;
            h2.set_rcode(bytemuck::cast::<u8, RCode>(v));
            let mut w2 = wire(&h2);
            ensure!(w2[1] & !0xf == w[1] & !0xf, "set_rcode({v}) changes bits outside the code: {:04x} -> {:04x}", w[1], w2[1]);
            w2[1] = w[1];
            ensure!(w2 == w, "set_rcode changes another word");
        }
    }
    Ok(())
}
/// Sequences of setters from the default header, also through an encoded message.
fn c07_seq(cx: &mut Cx) -> R {
    let depth = cx.by_tier(3, 4);
    let mut h = Header::default();
    let mut w: W = [0; 6];
    for _ in 0..depth {
        apply(cx.choose(OPS), &mut h, &mut w);
        cx.step();
        check(&h, &w)?;
    }
    cx.state(&w);
    // on the wire
    let mut buf = [0u8; 12];
    let mut e = MessageEncoder::new(&mut buf);
    e.set_header(h);
    ensure!(e.finish() == Ok(12), "encoding a bare header");
    let mut want = w;
    want[1] &= !rd::TC;
    let d = MessageDecoder::new(&buf).map_err(|e| format!("header rejected: {e:?}"))?;
    check(d.header(), &want)
}
/// Decoding: every value of every word.
fn c07_decode(cx: &mut Cx) -> R {
    let i = cx.choose(6);
    let hi = cx.choose(256) as u16;
    let bg = *cx.pick(&[0u16, 0xffff]);
    for lo in 0..256u16 {
        let mut w = [bg; 6];
        w[i] = hi << 8 | lo;
        let h = make(w);
        let b: [u8; 12] = bytemuck::cast(h);
        let d = MessageDecoder::new(&b).map_err(|e| format!("header rejected: {e:?}"))?;
        cx.step();
        check(d.header(), &w)?;
        let mut h2 = h;
        h2.set_id(w[i]);
        let mut w2 = w;
        w2[0] = w[i];
        check(&h2, &w2)?;
        cx.state(&w);
    }
    Ok(())
}

fn c09_types(cx: &mut Cx) -> R {
    let hi = cx.choose(256) as u16;
    for lo in 0..256u16 {
        let q = hi << 8 | lo;
        let qt = conv::qty(q);
        for t in 0..=65535u16 {
            let want = match q {
                252 | 254 => false,
                253 => t == 7 || t == 8 || t == 9,
                255 => true,
                _ => q == t,
            };
            if qt.matches(conv::ty(t)) != want {
                return Err(format!("QTYPE {q} matching TYPE {t} gives {}", !want));
            }
        }
    }
    cx.steps(256 * 65536);
    cx.state(&hi);
    cx.note(|| format!("QTYPE {:#06x}..+256 x all types", hi << 8));
    Ok(())
}
fn c09_classes(cx: &mut Cx) -> R {
    let hi = cx.choose(256) as u16;
    for lo in 0..256u16 {
        let q = hi << 8 | lo;
        let qc = conv::qcls(q);
        for t in 0..=65535u16 {
            let want = q == 255 || q == t;
            if qc.matches(conv::cls(t)) != want {
                return Err(format!("QCLASS {q} matching CLASS {t} gives {}", !want));
            }
        }
    }
    cx.steps(256 * 65536);
    cx.state(&(hi, 1));
    cx.note(|| format!("QCLASS {:#06x}..+256 x all classes", hi << 8));
    Ok(())
}
/// The named constants have their registered numbers, as the meta types must.
fn c09_consts(cx: &mut Cx) -> R {
    use uwuhi::packet::{Class, QClass, QType, Type};
    let q: &[(QType, u16)] = &[
        (QType::A, 1), (QType::NS, 2), (QType::CNAME, 5), (QType::SOA, 6), (QType::MB, 7), (QType::MG, 8), (QType::MR, 9), (QType::PTR, 12),
        (QType::MX, 15), (QType::TXT, 16), (QType::AAAA, 28), (QType::SRV, 33), (QType::AXFR, 252), (QType::MAILB, 253), (QType::MAILA, 254), (QType::ALL, 255),
    ];
    let t: &[(Type, u16)] = &[
        (Type::A, 1), (Type::NS, 2), (Type::CNAME, 5), (Type::SOA, 6), (Type::MB, 7), (Type::MG, 8), (Type::MR, 9), (Type::PTR, 12),
        (Type::MX, 15), (Type::TXT, 16), (Type::AAAA, 28), (Type::SRV, 33),
    ];
    let i = cx.choose(q.len());
    ensure_eq!(conv::n16(q[i].0), q[i].1, "number of QTYPE {:?}", q[i].0);
    for (ty, v) in t {
        cx.step();
        ensure_eq!(conv::n16(*ty), *v, "number of TYPE {ty:?}");
        let want = match q[i].1 {
            252 | 254 => false,
            253 => (7..=9).contains(v),
            255 => true,
            x => x == *v,
        };
        ensure_eq!(q[i].0.matches(*ty), want, "{:?} matches {ty:?}", q[i].0);
    }
    for (qc, a) in [(QClass::IN, 1), (QClass::CS, 2), (QClass::CH, 3), (QClass::HS, 4), (QClass::ANY, 255)] {
        for (c, b) in [(Class::IN, 1), (Class::CS, 2), (Class::CH, 3), (Class::HS, 4)] {
            cx.step();
            ensure_eq!(qc.matches(c), a == 255 || a == b, "{qc:?} matches {c:?}");
        }
    }
    cx.state(&i);
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C07",
            rule: "Explicit-state: every one of the 65536 flag words x 3 settings of the other words is a state, every setter call a transition; the crate's wire bytes and every accessor are compared with a model of the six header words after each.",
            assumptions: &["IDs are set to 65536 values from 2 backgrounds and to 4 values from every state (the ID shares no bits with the flags)"],
            scenarios: vec![
                Scenario { name: "graph", f: c07_graph, dev: (0, 0), bounds: "196608 states x 46 setter calls, plus all out-of-range opcodes and response codes" },
                Scenario { name: "seq", f: c07_seq, dev: (0, 0), bounds: "all sequences of 3 (4) setters from the default header, encoded and decoded" },
                Scenario { name: "decode", f: c07_decode, dev: (0, 0), bounds: "all 65536 values of each header word over 2 backgrounds" },
            ],
        },
        Property {
            id: "C09",
            rule: "Exhaustive: all 2^32 pairs of queried type and type, and of queried class and class.",
            assumptions: &[],
            scenarios: vec![
                Scenario { name: "types", f: c09_types, dev: (0, 0), bounds: "65536 x 65536" },
                Scenario { name: "classes", f: c09_classes, dev: (0, 0), bounds: "65536 x 65536" },
                Scenario { name: "consts", f: c09_consts, dev: (0, 0), bounds: "the named constants" },
            ],
        },
    ]
}
