//! C26: what decoded questions and records print as, against an independent rendering.
use crate::conv;
use std::net::{Ipv4Addr, Ipv6Addr};
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::packet::{Opcode, RCode};
use vcore::explore::{catch, Property, Scenario};
use vcore::refdns::{self as rd, Build, Data, Name};
use vcore::{corpus, ensure, ensure_eq, util, Cx};

type R = Result<(), String>;

/// Registered mnemonics (IANA) of the types the library names.
const TYPES: &[(u16, &str)] = &[
    (1, "A"), (2, "NS"), (3, "MD"), (4, "MF"), (5, "CNAME"), (6, "SOA"), (7, "MB"), (8, "MG"), (9, "MR"), (10, "NULL"), (11, "WKS"),
    (12, "PTR"), (13, "HINFO"), (14, "MINFO"), (15, "MX"), (16, "TXT"), (17, "RP"), (18, "AFSDB"), (24, "SIG"), (25, "KEY"), (28, "AAAA"),
    (29, "LOC"), (33, "SRV"), (35, "NAPTR"), (36, "KX"), (37, "CERT"), (39, "DNAME"), (42, "APL"), (43, "DS"), (44, "SSHFP"),
    (45, "IPSECKEY"), (46, "RRSIG"), (47, "NSEC"), (48, "DNSKEY"), (49, "DHCID"), (50, "NSEC3"), (51, "NSEC3PARAM"), (52, "TLSA"),
    (53, "SMIMEA"), (55, "HIP"), (59, "CDS"), (60, "CDNSKEY"), (61, "OPENPGPKEY"), (62, "CSYNC"), (63, "ZONEMD"), (64, "SVCB"),
    (65, "HTTPS"), (108, "EUI48"), (109, "EUI64"), (249, "TKEY"), (250, "TSIG"), (256, "URI"), (257, "CAA"),
];
/// Other registered types, which may be named some day.
const MORE: &[(u16, &str)] = &[
    (19, "X25"), (20, "ISDN"), (21, "RT"), (22, "NSAP"), (23, "NSAP_PTR"), (26, "PX"), (27, "GPOS"), (30, "NXT"), (31, "EID"), (32, "NIMLOC"),
    (34, "ATMA"), (38, "A6"), (40, "SINK"), (41, "OPT"), (56, "NINFO"), (57, "RKEY"), (58, "TALINK"), (99, "SPF"), (100, "UINFO"), (101, "UID"),
    (102, "GID"), (103, "UNSPEC"), (104, "NID"), (105, "L32"), (106, "L64"), (107, "LP"), (251, "IXFR"), (258, "AVC"), (259, "DOA"),
    (260, "AMTRELAY"), (32768, "TA"), (32769, "DLV"),
];
const QTYPES: &[(u16, &str)] = &[(252, "AXFR"), (253, "MAILB"), (254, "MAILA"), (255, "ALL")];
const CLASSES: &[(u16, &str)] = &[(1, "IN"), (2, "CS"), (3, "CH"), (4, "HS")];
const QCLASSES: &[(u16, &str)] = &[(255, "ANY")];
const OPCODES: &[(u16, &str)] = &[(0, "QUERY"), (1, "IQUERY"), (2, "STATUS"), (4, "NOTIFY"), (5, "UPDATE")];
const RCODES: &[(u16, &str)] = &[
    (0, "NOERROR"), (1, "FORMERR"), (2, "SERVFAIL"), (3, "NXDOMAIN"), (4, "NOTIMP"), (5, "REFUSED"), (6, "YXDOMAIN"), (7, "YXRRSET"),
    (8, "NXRRSET"), (9, "NOTAUTH"), (10, "NOTZONE"), (11, "DSOTYPENI"),
];

/// Whether the text stands for exactly this number: its mnemonic, or the number itself.
fn code(text: &str, v: u16, must: &[&[(u16, &str)]], may: &[(u16, &str)]) -> R {
    let plain = text.replace(['_', '-'], "").to_ascii_uppercase();
    if let Some((_, m)) = must.iter().flat_map(|t| t.iter()).find(|x| x.0 == v) {
        ensure_eq!(plain, m.to_string(), "mnemonic of {v}");
        return Ok(());
    }
    if may.iter().any(|(n, m)| *n == v && m.replace('_', "") == plain) {
        return Ok(());
    }
    let mut nums = text.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| w.starts_with(|c: char| c.is_ascii_digit()) || w.trim_start_matches(|c: char| c.is_ascii_alphabetic()).parse::<u16>().is_ok());
    let found: Vec<u32> = nums
        .by_ref()
        .filter_map(|w| match w.strip_prefix("0x") {
            Some(h) => u32::from_str_radix(h, 16).ok(),
            None => w.trim_start_matches(|c: char| c.is_ascii_alphabetic()).parse().ok(),
        })
        .collect();
    ensure_eq!(found, vec![v as u32], "number in '{text}'");
    Ok(())
}
fn name(n: &Name) -> String {
    if n.is_empty() {
        return ".".into();
    }
    n.iter().map(|l| format!("{}.", l.escape_ascii())).collect()
}
fn data(d: &Data) -> String {
    match d {
        Data::A(a) => Ipv4Addr::from(*a).to_string(),
        Data::Aaaa(a) => Ipv6Addr::from(*a).to_string(),
        Data::Name(_, n) => name(n),
        Data::Mx(p, n) => format!("{p} {}", name(n)),
        Data::Srv(a, b, c, n) => format!("{a}\t{b}\t{c}\t{}", name(n)),
        Data::Soa(m, r, v) => {
            let mut s = format!("{}\t{}", name(m), name(r));
            v.iter().for_each(|x| s += &format!("\t{x}"));
            s
        }
        Data::Txt(v) => v.iter().map(|e| e.iter().map(|&b| if (0x21..=0x7e).contains(&b) { b as char } else { '\u{fffd}' }).collect::<String>()).collect::<Vec<_>>().join("\t"),
        Data::Raw(..) => unreachable!(),
    }
}
fn clean(t: &str) -> R {
    ensure!(t.chars().all(|c| c == '\t' || !c.is_control()), "the text contains control characters: {t:?}");
    Ok(())
}
/// Decodes a message and checks the text of every entry.
fn check(cx: &mut Cx, b: &[u8]) -> R {
    let m = rd::parse(b).filter(|m| m.err.is_none()).ok_or("harness: message does not parse")?;
    cx.state(b);
    let got: Vec<Vec<String>> = catch(|| -> Result<_, uwuhi::Error> {
        let mut d = MessageDecoder::new(b)?;
        let q = d.iter().map(|q| q.map(|q| q.to_string())).collect::<Result<Vec<_>, _>>()?;
        let mut d = d.answers()?;
        let a = d.iter().map(|q| q.map(|q| q.to_string())).collect::<Result<Vec<_>, _>>()?;
        let mut d = d.authority()?;
        let n = d.iter().map(|q| q.map(|q| q.to_string())).collect::<Result<Vec<_>, _>>()?;
        let mut d = d.additional()?;
        let x = d.iter().map(|q| q.map(|q| q.to_string())).collect::<Result<Vec<_>, _>>()?;
        Ok(vec![q, a, n, x])
    })?
    .map_err(|e| format!("decoding failed: {e}"))?;
    ensure_eq!(got[0].len(), m.q.len(), "questions");
    for (t, q) in got[0].iter().zip(&m.q) {
        cx.step();
        clean(t)?;
        let n = name(&q.name);
        let rest = t.strip_prefix(&n).and_then(|r| r.strip_prefix('\t')).ok_or_else(|| format!("question '{t}' does not start with its name '{n}'"))?;
        let f: Vec<&str> = rest.split('\t').collect();
        ensure!(f.len() == 2, "question '{t}' has {} fields after its name", f.len());
        code(f[0], q.qclass, &[CLASSES, QCLASSES], &[(254, "NONE")]).map_err(|e| format!("class in question '{t}': {e}"))?;
        code(f[1], q.qtype, &[TYPES, QTYPES], MORE).map_err(|e| format!("type in question '{t}': {e}"))?;
    }
    for s in 0..3 {
        ensure_eq!(got[s + 1].len(), m.rr[s].len(), "records");
        for (t, r) in got[s + 1].iter().zip(&m.rr[s]) {
            cx.step();
            clean(t)?;
            let n = name(&r.name);
            let rest = t.strip_prefix(&n).and_then(|r| r.strip_prefix('\t')).ok_or_else(|| format!("record '{t}' does not start with its name '{n}'"))?;
            let f: Vec<&str> = rest.splitn(4, '\t').collect();
            ensure!(f.len() == 4, "record '{t}' has {} fields after its name", f.len());
            ensure_eq!(f[0], r.ttl.to_string(), "TTL in record '{t}'");
            code(f[1], r.class, &[CLASSES], &[(254, "NONE"), (255, "ANY")]).map_err(|e| format!("class in record '{t}': {e}"))?;
            code(f[2], r.ty, &[TYPES], MORE).map_err(|e| format!("type in record '{t}': {e}"))?;
            match rd::data(b, r.start, r.end, r.ty) {
                Some(Ok(d)) => ensure_eq!(f[3], data(&d), "data in record '{t}'"),
                Some(Err(e)) => {
                    let all = [uwuhi::Error::Eof, uwuhi::Error::PointerLoop, uwuhi::Error::InvalidValue];
                    let want: Vec<String> = all.iter().filter(|x| conv::bad(**x) == Some(e)).map(|x| x.to_string()).collect();
                    ensure!(want.iter().any(|w| w == f[3]), "data in record '{t}' does not decode, the error is {want:?}");
                }
                None => {
                    let hex: String = f[3].chars().filter(|c| !matches!(c, '[' | ']' | ',' | ' ')).collect();
                    ensure_eq!(hex, util::hex(&b[r.start..r.end]), "data in record '{t}'");
                }
            }
        }
    }
    Ok(())
}
fn c26_codes(cx: &mut Cx) -> R {
    let hi = cx.choose(256) as u16;
    let how = cx.choose(3);
    let o = rd::n("o.example");
    for lo in 0..256u16 {
        let v = hi << 8 | lo;
        let b = match how {
            0 => Build::new(0, 0).q(&o, v, 1).q(&o, 1, v),
            1 => {
                let d = match rd::data(&[0; 24], 0, 0, v) {
                    None => Data::Raw(v, vec![lo as u8, 0, 0xff, 0x0a]),
                    Some(_) => Data::Raw(v, vec![]),
                };
                Build::new(0, 0).ans(&o, &d)
            }
            _ => Build::new(0, 0).rr(2, &o, v, v as u32 * 65537, &Data::A([1, 2, 3, 4])),
        };
        check(cx, &b.done()).map_err(|e| format!("{v}: {e}"))?;
    }
    if hi == 0 && how == 0 {
        for v in 0..16u8 {
            let (o, r): (Opcode, RCode) = (bytemuck::cast(v), bytemuck::cast(v));
            code(&o.to_string(), v as u16, &[OPCODES], &[(3, "UNASSIGNED"), (6, "DSO")]).map_err(|e| format!("opcode: {e}"))?;
            code(&r.to_string(), v as u16, &[RCODES], &[]).map_err(|e| format!("response code: {e}"))?;
        }
    }
    Ok(())
}
fn values() -> &'static [Data] {
    static V: std::sync::OnceLock<Vec<Data>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let n = rd::n;
        let mut v = vec![];
        for a in corpus::v4() {
            v.push(Data::A(a.octets()));
        }
        for a in corpus::v6() {
            v.push(Data::Aaaa(a.octets()));
        }
        for h in corpus::hosts() {
            v.push(Data::Name(rd::PTR, h.clone()));
        }
        for h in corpus::hosts().iter().step_by(7).chain([&vec![]]) {
            v.push(Data::Name(rd::NS, h.clone()));
            v.push(Data::Name(rd::CNAME, h.clone()));
            v.push(Data::Mx(10, h.clone()));
            v.push(Data::Srv(1, 2, 3, h.clone()));
            v.push(Data::Soa(h.clone(), n("r"), [1, 2, 3, 4, 5]));
            v.push(Data::Soa(n("m"), h.clone(), [1, 2, 3, 4, 5]));
        }
        for t in corpus::metadata() {
            if !t.is_empty() {
                v.push(Data::Txt(t.clone()));
            }
        }
        // every byte alone, at the start, middle and end
        for b in 0..=255u8 {
            v.push(Data::Txt(vec![vec![b]]));
            v.push(Data::Txt(vec![vec![b, b'x'], vec![b'x', b, b'y'], vec![], vec![b'x', b]]));
        }
        for k in 0..32 {
            for x in [1u32 << k, !(1u32 << k)] {
                let h = (x >> (k & 16)) as u16;
                v.push(Data::Mx(h, n("mx.example")));
                v.push(Data::Srv(h, 7, 9, n("t")));
                v.push(Data::Srv(7, h, 9, n("t")));
                v.push(Data::Srv(7, 9, h, n("t")));
                for i in 0..5 {
                    let mut s = [11, 22, 33, 44, 55];
                    s[i] = x;
                    v.push(Data::Soa(n("m"), n("r"), s));
                }
            }
        }
        v
    })
}
fn c26_values(cx: &mut Cx) -> R {
    let d = cx.pick(values()).clone();
    let sec = 1 + cx.choose(3);
    let o = cx.pick(&[rd::n("owner.example"), vec![], vec![vec![0, 9, 10, b' ', b'.', b'\\', 0x7f, 0xff]]]).clone();
    let ttl = *cx.pick(&[0u32, 1, 120, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]);
    let b = Build::new(0, 0).rr(sec, &o, 0x8001, ttl, &d).rr(sec, &rd::n("next"), 1, 5, &Data::A([9, 8, 7, 6]));
    cx.note(|| format!("{d:?} of {}", rd::show_name(&o)));
    check(cx, &b.done())
}
fn c26_owners(cx: &mut Cx) -> R {
    let h = cx.pick(corpus::hosts()).clone();
    let b = Build::new(0, 0).q(&h, 255, 255).q(&h, 28, 0x8001).rr(1, &h, 1, 7, &Data::A([1, 2, 3, 4])).rr(2, &h, 1, 7, &Data::Raw(41, vec![1])).rr(3, &h, 1, 7, &Data::Txt(vec![b"k=v".to_vec()]));
    cx.note(|| rd::show_name(&h));
    check(cx, &b.done())
}
/// Raw data of every type: all short strings over an alphabet of telling bytes.
fn c26_raw(cx: &mut Cx) -> R {
    let ty = *cx.pick(&[1u16, 28, 5, 15, 2, 12, 16, 33, 6, 0, 41, 47, 255, 65535]);
    let n = cx.choose(cx.by_tier(6, 7));
    let d: Vec<u8> = (0..n).map(|_| *cx.pick(&[0u8, 1, 3, b'a', 0x40, 0xc0, 0xff])).collect();
    let b = Build::new(0, 0).rr(1, &rd::n("x.example"), 1, 1, &Data::Raw(ty, d.clone())).rr(1, &rd::n("next"), 1, 5, &Data::A([9, 8, 7, 6]));
    cx.note(|| format!("type {ty}, data {}", util::hex(&d)));
    check(cx, &b.done())
}
/// Data and names of every length.
fn c26_long(cx: &mut Cx) -> R {
    let big = cx.by_tier(2100, 9000);
    let n = cx.choose(big);
    let what = cx.choose(5);
    let x = rd::n("x.example");
    let d = match what {
        0 => Data::Raw(41, (0..n).map(|i| (i * 7 + i / 256) as u8).collect()),
        1 => Data::Raw(65280, vec![0xff; n + 60000.min(65535 - n)]),
        2 => Data::Txt((0..=n / 255).map(|i| vec![b'a' + (i % 26) as u8; (n - i * 255).min(255)]).collect()),
        3 => Data::Txt(vec![vec![]; n.max(1)]),
        _ => Data::Name(rd::PTR, (0..n % 1000).map(|i| vec![b'a' + (i % 26) as u8; 1 + (i * 5 + n) % 63]).collect()),
    };
    let owner = if what == 4 && n % 3 == 0 { (0..n).map(|i| vec![b'0' + (i % 10) as u8; 1 + i % 4]).collect() } else { x };
    let b = Build::new(0, 0).rr(1, &owner, 1, 1, &d).rr(1, &rd::n("next"), 1, 5, &Data::A([9, 8, 7, 6])).done();
    cx.note(|| format!("kind {what}, length {n}"));
    check(cx, &b)
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C26",
        rule: "Messages are decoded by the real decoder and every question and record printed; the text is taken apart and each field compared with an independent rendering of what an independent parser finds on the wire, mnemonics with the IANA registries.",
        assumptions: &["a type or class the library does not name may print as its registered mnemonic or as its number"],
        scenarios: vec![
            Scenario { name: "codes", f: c26_codes, dev: (0, 0), bounds: "all 65536 types and classes of questions and records, all opcodes and response codes of a header" },
            Scenario { name: "values", f: c26_values, dev: (0, 0), bounds: "about 12500 values of all nine record types, in each section, 3 owners, 6 TTLs" },
            Scenario { name: "owners", f: c26_owners, dev: (0, 0), bounds: "4341 names in questions and records of every section" },
            Scenario { name: "raw", f: c26_raw, dev: (0, 0), bounds: "14 types with all data of up to 5 (6) bytes over an alphabet of 7" },
            Scenario { name: "long", f: c26_long, dev: (0, 0), bounds: "unsupported and TXT data, of every length up to 2099 (8999) bytes or entries, names of up to 999 labels" },
        ],
    }]
}
