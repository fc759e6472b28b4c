//! Fixed, complete families of values and of damaged datagrams that scenarios range over.
use crate::refdns::{self as rd, Build, Data, Name};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::collections::BTreeMap;
use std::sync::{Mutex, OnceLock};

/// Label contents: every single byte, every byte next to a letter, every length, look-alikes.
pub fn labels() -> &'static [Vec<u8>] {
    static V: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
        v.extend((0..=255u8).map(|b| vec![b'a', b]));
        v.extend((0..=255u8).map(|b| vec![b, b'a', b'b']));
        v.extend((2..=63).map(|n| vec![b'n'; n]));
        v.extend((2..=63).map(|n| vec![0xe9; n]));
        v.extend((4..=63).map(|n| {
            let mut l = vec![b'm'; n];
            l[n - 1] = b'.';
            l[n / 2] = b'Z';
            l
        }));
        for s in [
            "local", "Local", "_tcp", "_udp", "_TCP", "_services", "_dns-sd", "_sub", "localhost", "www", "xn--bcher-kva", "My Printer", "a.b", "a\\.b", "a\\", "\\032", "a\\032b", "..", ".", "*", "@", "-a", "a-", "_", "__",
            "_a", "1", "0", "255", "192.0.2.1", "::1", "tab\there", "line\nbreak", "nul\0", "\u{e9}", "\u{c9}", "\u{130}", "\u{df}", "stra\u{df}e", "\u{2603}", "\u{1f600}", "caf\u{e9}", "CAF\u{c9}", "Caf\u{c9}", "\u{212a}", "\u{17f}", "ﬁ", "a\u{301}",
            "example", "com", "in-addr", "arpa", "ip6", "_http", "_ipp",
        ] {
            v.push(s.as_bytes().to_vec());
        }
        // every pair of bytes that differ in the "case bit"
        v.extend((0..=255u8).map(|b| vec![b, b ^ 0x20]));
        v.sort();
        v.dedup();
        v
    })
}
/// Label lists: every number of labels, every total length, long labels, roots.
pub fn hosts() -> &'static [Name] {
    static V: OnceLock<Vec<Name>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<Name> = vec![];
        for k in 0..=127 {
            v.push(vec![b"x".to_vec(); k]);
        }
        for k in 1..=31 {
            v.push((0..k).map(|i| vec![b'a' + i as u8 % 26; 7]).collect());
        }
        for total in 3..=255 {
            for lab in [63usize, 30] {
                v.push(sized(total, lab));
            }
        }
        for l in labels() {
            v.push(vec![l.clone()]);
            v.push(vec![l.clone(), b"local".to_vec()]);
            v.push(vec![b"h".to_vec(), l.clone()]);
        }
        for s in ["h.local", "H.Local", "h.local.local", "local.local", "local", "h.example.org", "a.b.c.d.e.f.g.h", "_svc._tcp.local", "in._svc._tcp.local", "_services._dns-sd._udp.local", "h.LOCAL", "1.2.0.192.in-addr.arpa"] {
            v.push(rd::n(s));
        }
        v.sort();
        v.dedup();
        v
    })
}
/// Names to ask for: one label to 127, short and long ones, text and bytes.
pub fn bases() -> &'static [Name] {
    static V: OnceLock<Vec<Name>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<Name> = ["host", "h", "Host.local", "host.local", "host.example.org", "a.a", "a.a.a", "local.local", "a.b.c.d.e.f.g.h", "a.b.c.d.e.f.g.h.i.j.k.l", "1.0.0.127.in-addr.arpa", "_http._tcp.local"].iter().map(|s| rd::n(s)).collect();
        for k in [15, 16, 17, 31, 32, 33, 63, 64, 65, 127] {
            v.push((0..k).map(|i| vec![b'a' + (i % 23) as u8]).collect());
        }
        v.push(vec!["caf\u{e9}".as_bytes().to_vec(), "\u{c9}t\u{e9}".as_bytes().to_vec(), b"local".to_vec()]);
        v.push(vec!["\u{3c3}\u{131}k\u{df}".as_bytes().to_vec()]);
        v.push(vec![b"My. Printer".to_vec(), b"local".to_vec()]);
        v.push(vec![vec![0xff, 0, b'.', 0xc0, b'Z'], b"x".to_vec()]);
        v.push(vec![vec![b'l'; 63], b"local".to_vec()]);
        v.push(vec![vec![b'l'; 32], vec![b'm'; 31], b"n".to_vec()]);
        v.push(sized(255, 63));
        v.push(sized(254, 20));
        v.push(sized(129, 63));
        v
    })
}
/// Names next to `n` that are not `n` in any spelling.
pub fn kin(n: &Name) -> &'static [Name] {
    static V: Mutex<BTreeMap<Name, &'static [Name]>> = Mutex::new(BTreeMap::new());
    if let Some(v) = V.lock().unwrap().get(n) {
        return v;
    }
    let v = Vec::leak(make_kin(n));
    V.lock().unwrap().insert(n.clone(), v);
    v
}
fn make_kin(n: &Name) -> Vec<Name> {
    let mut v: Vec<Name> = vec![vec![]];
    let put = |f: &dyn Fn(&mut Name)| {
        let mut x = n.clone();
        f(&mut x);
        x
    };
    let c = n.len();
    let some = move |i: &usize| c < 20 || *i < 2 || *i + 3 > c || i.is_power_of_two() || (*i + 1).is_power_of_two() || (9..12).contains(i);
    for i in (0..c).filter(some) {
        v.push(n[i..].to_vec());
        v.push(n[..i].to_vec());
        v.push(put(&|x| drop(x.remove(i))));
        v.push(put(&|x| x.insert(i, n[i].clone())));
        for b in [b'x', b'.', 0, b' '] {
            v.push(put(&|x| x[i].push(b)));
            v.push(put(&|x| x[i].insert(0, b)));
        }
        v.push(put(&|x| drop(x[i].pop())));
        v.push(put(&|x| drop(x[i].remove(0))));
        let l = n[i].len();
        for at in (0..l).filter(|&at| l < 9 || at < 3 || at > l - 3 || at % 8 < 2) {
            for m in [1u8, 2, 0x10, 0x80] {
                v.push(put(&|x| x[i][at] ^= m));
            }
            if !n[i][at].is_ascii_alphabetic() {
                v.push(put(&|x| x[i][at] ^= 0x20));
            }
            if at > 0 {
                v.push(put(&|x| {
                    let r = x[i].split_off(at);
                    x.insert(i + 1, r);
                }));
            }
        }
        v.push(put(&|x| x[i].reverse()));
        if i + 1 < n.len() {
            v.push(put(&|x| x.swap(i, i + 1)));
            for sep in [&b""[..], b".", b"\0"] {
                v.push(put(&|x| {
                    let r = x.remove(i + 1);
                    x[i].extend_from_slice(sep);
                    x[i].extend(r);
                }));
            }
        }
        if let Ok(s) = std::str::from_utf8(&n[i]) {
            for s in [s.to_lowercase(), s.to_uppercase(), s.replace('k', "\u{212a}"), s.replace('s', "\u{17f}"), s.replace('i', "\u{131}"), s.replace('I', "\u{130}"), s.replace("\u{df}", "ss"), s.trim().to_string(), s.replace('.', "")] {
                v.push(put(&|x| x[i] = s.clone().into_bytes()));
            }
        }
    }
    for i in (0..=c).filter(some) {
        for l in [&b"x"[..], b"local", b"host", b"*", b"\0"] {
            v.push(put(&|x| x.insert(i, l.to_vec())));
        }
    }
    v.push(n.iter().rev().cloned().collect());
    v.push([&n[..], &n[..]].concat());
    v.retain(|x| rd::name_len(x) <= 255 && x.iter().all(|l| (1..=63).contains(&l.len())) && !rd::eq_ci(x, n));
    v.sort();
    v.dedup();
    v
}
/// A name of exactly `total` bytes on the wire in labels of up to `lab` bytes.
pub fn sized(total: usize, lab: usize) -> Name {
    let mut name: Name = vec![];
    let mut left = total - 1;
    while left > 0 {
        let mut k = lab.min(left - 1);
        if left - (k + 1) == 1 {
            // a label needs at least two bytes
            k = if k > 1 { k - 1 } else { k + 1 };
        }
        name.push(vec![b'n'; k]);
        left -= k + 1;
    }
    assert_eq!(rd::name_len(&name), total);
    name
}
pub fn v4() -> &'static [Ipv4Addr] {
    static V: OnceLock<Vec<Ipv4Addr>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<Ipv4Addr> = (0..32).map(|b| Ipv4Addr::from(1u32 << b)).collect();
        v.extend((0..32).map(|b| Ipv4Addr::from(!(1u32 << b))));
        for k in 0..=255u8 {
            v.push([k, 0, 2, 1].into());
            v.push([192, k, 2, 1].into());
            v.push([192, 168, k, 1].into());
            v.push([192, 0, 2, k].into());
        }
        v.extend(["0.0.0.0", "255.255.255.255", "127.0.0.1", "169.254.1.2", "10.1.2.3", "172.16.5.4", "192.168.178.21", "224.0.0.251", "239.255.255.250", "100.64.0.1", "198.18.0.1", "240.0.0.1", "127.255.255.254", "1.2.3.4"].iter().map(|s| s.parse::<Ipv4Addr>().unwrap()));
        v.sort();
        v.dedup();
        v
    })
}
pub fn v6() -> &'static [Ipv6Addr] {
    static V: OnceLock<Vec<Ipv6Addr>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<Ipv6Addr> = (0..128).map(|b| Ipv6Addr::from(1u128 << b)).collect();
        v.extend((0..128).map(|b| Ipv6Addr::from(!(1u128 << b))));
        for k in 0..16 {
            for x in [1u8, 0x7f, 0x80, 0xff] {
                let mut o = [0x20, 1, 0xd, 0xb8, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88, 0x99, 0xaa, 0xbb, 0xcc];
                o[k] = x;
                v.push(o.into());
            }
        }
        for k in 0..=255u16 {
            v.push(Ipv6Addr::from([k << 8, 0, 0, 0, 0, 0, 0, 1]));
            v.push(Ipv6Addr::from([0xfe00 | k, 0, 0, 0, 0, 0, 0, 1]));
        }
        for a in ["192.0.2.1", "0.0.0.0", "127.0.0.1", "255.255.255.255", "10.0.0.1"] {
            let a: Ipv4Addr = a.parse().unwrap();
            v.push(a.to_ipv6_mapped());
            v.push(a.to_ipv6_compatible());
            let o = a.octets();
            v.push(Ipv6Addr::from([0x64, 0xff9b, 0, 0, 0, 0, (o[0] as u16) << 8 | o[1] as u16, (o[2] as u16) << 8 | o[3] as u16]));
            v.push(Ipv6Addr::from([0x2002, (o[0] as u16) << 8 | o[1] as u16, (o[2] as u16) << 8 | o[3] as u16, 0, 0, 0, 0, 1]));
        }
        v.extend(["::", "::1", "fe80::1", "fe80::1234:5678:9abc:def0", "fd00::1", "fc00::1", "ff02::fb", "ff05::1", "2001:db8::1", "2001::1", "::ffff:0:0:1"].iter().map(|s| s.parse::<Ipv6Addr>().unwrap()));
        v.sort();
        v.dedup();
        v
    })
}
pub fn addrs() -> &'static [IpAddr] {
    static V: OnceLock<Vec<IpAddr>> = OnceLock::new();
    V.get_or_init(|| {
        v4().iter().copied().map(IpAddr::V4).chain(v6().iter().copied().map(IpAddr::V6)).collect()
    })
}
/// Metadata (distinct keys, keys in UTF-8, at least one byte): every value byte, every entry length,
/// every number of entries, keys and values of unusual shape. At most about 1300 bytes each.
pub fn metadata() -> &'static [Vec<Vec<u8>>] {
    static V: OnceLock<Vec<Vec<Vec<u8>>>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<Vec<Vec<u8>>> = vec![];
        for b in 0..=255u8 {
            v.push(vec![vec![b'k', b'=', b]]);
            v.push(vec![vec![b'k', b'=', b, b'z'], b"n".to_vec()]);
            if b < 0x80 && b != b'=' {
                v.push(vec![vec![b]]);
                v.push(vec![vec![b'k', b, b'=', b'1'], b"k".to_vec()]);
            }
        }
        for n in 1..=255 {
            v.push(vec![vec![b'f'; n]]);
            v.push(vec![[vec![b'l', b'='], vec![b'v'; n.max(3) - 2]].concat(), b"last".to_vec()]);
        }
        for n in 0..=60 {
            v.push((0..n).map(|i| format!("k{i}=v{}", i * 7).into_bytes()).collect());
            v.push((0..n).map(|i| format!("Flag{i}").into_bytes()).collect());
        }
        for s in ["a=b=c", "a==", "a= ", " =x", "a b=c", "key with spaces", "\u{e9}=1", "\u{c9}", "\u{c9}A=2", "\u{130}I=3", "\u{df}S", "\u{2603}", "K\u{212a}=k", "\0", "a\n=b", "=x=", "A", "path=/", "txtvers=1", "\\=\\", "a=\"q\"", "\"k\"=1", "k.=.", "a=\0"] {
            if s.as_bytes()[0] != b'=' {
                v.push(vec![s.as_bytes().to_vec()]);
                v.push(vec![b"first=1".to_vec(), s.as_bytes().to_vec(), b"Zlast".to_vec()]);
            }
        }
        v.push((0..5u8).map(|k| [vec![b'a' + k, b'='], vec![0xff - k; 253]].concat()).collect());
        v
    })
}

/// A message with the given damage: where it sits, what precedes and follows it.
#[derive(Clone, Debug)]
pub struct Broken {
    pub what: String,
    pub data: Vec<u8>,
}
const SIZES: [usize; 12] = [0, 64, 128, 300, 511, 512, 513, 1000, 1232, 1472, 1499, 1500];
/// Damaged messages that start like `head` (which may already have entries, in section order):
/// every kind of damage in every section, with well-formed entries before it and bytes after it up
/// to each total size.
pub fn broken(head: &Build) -> Vec<Broken> {
    let first = (0..4).rev().find(|&s| head.counts[s] > 0).unwrap_or(0);
    let mut v = vec![];
    for sec in first..4 {
        for (kind, ends, bytes) in damage(sec, head.pos()) {
            for &size in &SIZES {
                for lead in [true, false] {
                    let mut b = head.clone();
                    let room = size.saturating_sub(head.pos() + bytes.len());
                    if size > 0 && room == 0 {
                        continue;
                    }
                    if ends && !lead && size > 0 {
                        continue; // must stay at the end
                    }
                    if size == 0 && !lead {
                        continue;
                    }
                    let mut patch = bytes.clone();
                    if lead && size > 0 {
                        // well-formed entries before the damage
                        let start = b.pos();
                        if sec == 0 {
                            let mut left = room;
                            while left >= 7 {
                                let mut k = left.min(67);
                                if left - k > 0 && left - k < 7 {
                                    k = left - 7;
                                }
                                b = b.q(&vec![vec![b'q'; k.max(7) - 6]], 1, 1);
                                left = size - b.pos() - bytes.len();
                            }
                        } else if room >= 11 {
                            b = b.rr(sec, &vec![], 1, 0, &Data::Raw(99, vec![0x5a; room - 11]));
                        } else {
                            continue;
                        }
                        let moved = b.pos() - start;
                        // pointers that must stay relative to the entry
                        for p in damage(sec, head.pos() + moved) {
                            if p.0 == kind {
                                patch = p.2;
                            }
                        }
                    }
                    b.body.extend_from_slice(&patch);
                    b.counts[sec] += 1;
                    let mut d = b.done();
                    if !lead {
                        d.resize(size.max(d.len()), 0);
                    }
                    v.push(Broken { what: format!("{kind} in section {sec}, {} bytes, {}", d.len(), if lead { "at the end" } else { "followed by zeros" }), data: d });
                }
            }
        }
    }
    v
}
/// Kinds of damaged entries of a section at position `p`: name, whether the message must end there.
fn damage(sec: usize, p: usize) -> Vec<(&'static str, bool, Vec<u8>)> {
    let ptr = |t: usize| vec![0xc0 | (t >> 8) as u8, t as u8];
    let rest: &[u8] = if sec == 0 { &[0, 1, 0, 1] } else { &[0, 1, 0, 1, 0, 0, 0, 60, 0, 4, 1, 2, 3, 4] };
    let with = |n: Vec<u8>| [&n[..], rest].concat();
    let mut v = vec![
        ("a name pointing at itself", false, with(ptr(p))),
        ("a label pointing back at itself", false, with([vec![1, b'l'], ptr(p)].concat())),
        ("a name pointing forward", false, with(ptr(p + 2))),
        ("a name pointing beyond the end", false, with(vec![0xff, 0xff])),
        ("a label of type 01", false, with(vec![0x41, b'a', 0])),
        ("a label of type 10", false, with(vec![0x80, 0])),
        ("a label of type 10, all bits", false, with(vec![0xbf, 0])),
        ("a missing entry", true, vec![]),
        ("a label cut off", true, vec![9, b'c', b'u', b't']),
        ("a label without content", true, vec![63]),
        ("a name without end", true, vec![1, b'a', 1, b'b']),
        ("a pointer cut off", true, vec![0xc0]),
        ("fixed fields cut off", true, vec![0, 0]),
        ("fixed fields cut before the last byte", true, with(vec![0])[..if sec == 0 { 4 } else { 10 }].to_vec()),
    ];
    if sec > 0 {
        v.push(("a data length beyond the end", true, vec![0, 0, 1, 0, 1, 0, 0, 0, 60, 0, 5, 1, 2, 3, 4]));
        v.push(("the largest data length", false, vec![0, 0, 1, 0, 1, 0, 0, 0, 60, 0xff, 0xff, 1, 2, 3, 4]));
    }
    v
}
/// Well-formed messages starting like `head` whose last answer has data that does not decode.
pub fn bad_data(head: &Build, owner: &Name) -> Vec<Broken> {
    let mut v = vec![];
    let cases: [(u16, &[u8]); 24] = [
        (rd::A, &[]),
        (rd::A, &[1]),
        (rd::A, &[1, 2, 3]),
        (rd::AAAA, &[]),
        (rd::AAAA, &[1, 2, 3, 4]),
        (rd::AAAA, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
        (rd::PTR, &[]),
        (rd::PTR, &[0xff, 0xff]),
        (rd::PTR, &[3, b'a']),
        (rd::PTR, &[0x40, 0]),
        (rd::CNAME, &[0xc0]),
        (rd::CNAME, &[1, b'a']),
        (rd::CNAME, &[0xff, 0xff]),
        (rd::NS, &[0x80]),
        (rd::MX, &[0]),
        (rd::MX, &[0, 1, 0xff, 0xff]),
        (rd::TXT, &[5, b'a']),
        (rd::TXT, &[1, b'a', 255]),
        (rd::SRV, &[]),
        (rd::SRV, &[0, 0, 0, 0, 1]),
        (rd::SRV, &[0, 0, 0, 0, 0, 80]),
        (rd::SRV, &[0, 0, 0, 0, 0, 80, 0xff, 0xff]),
        (rd::SOA, &[0]),
        (rd::SOA, &[0, 0, 1, 2, 3, 4]),
    ];
    for (t, d) in cases {
        for pad in [0usize, 480, 1200] {
            let mut b = head.clone();
            if pad > 0 {
                b = b.ans(&vec![], &Data::Raw(99, vec![0x5a; pad]));
            }
            let b = b.ans(owner, &Data::Raw(t, d.to_vec()));
            v.push(Broken { what: format!("type {t} data {} after {pad} bytes", crate::util::hex(d)), data: b.done() });
        }
    }
    v
}
/// Shortest texts: every prefix of a header and some of each filler.
pub fn shorts() -> &'static [Broken] {
    static V: OnceLock<Vec<Broken>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v = vec![];
        for n in 0..12 {
            for f in [0u8, 0x80, 0xff] {
                let mut d = vec![f; n];
                if n > 1 {
                    d[0] = 0x30;
                    d[1] = 0x39;
                }
                v.push(Broken { what: format!("{n} bytes of {f:#x}"), data: d });
            }
        }
        v
    })
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn families() {
        for head in [Build::new(1, 0x8400), Build::new(1, 0), Build::new(1, 0).q(&rd::n("a.b"), 1, 1), Build::new(1, 0x8400).ans(&rd::n("a.b"), &Data::A([1; 4]))] {
            let v = broken(&head);
            assert!(v.len() > 200);
            for b in &v {
                let m = rd::parse(&b.data).unwrap();
                assert!(m.err.is_some(), "{}", b.what);
                assert!(b.data.len() <= 1500);
            }
        }
        println!("{} labels {} hosts {} addrs {} metadata {} broken", labels().len(), hosts().len(), addrs().len(), metadata().len(), broken(&Build::new(1, 0)).len());
        for m in metadata() {
            let n: usize = m.iter().map(|e| e.len() + 1).sum();
            assert!(n <= 1300, "{n}");
            for e in m {
                assert!(e.len() <= 255 && !e.is_empty());
            }
        }
        println!("kin {}", bases().iter().map(|b| kin(b).len()).sum::<usize>());
        for h in hosts() {
            assert!(rd::name_len(&h) <= 255 && h.iter().all(|l| (1..=63).contains(&l.len())));
        }
    }
}
