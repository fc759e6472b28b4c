"""The planted bugs (source of seeded/, see plant.py)."""
PRELUDE = r'''#![allow(dead_code, unused_imports, unused_macros)]
use std::net::{SocketAddr, UdpSocket, IpAddr, Ipv4Addr, Ipv6Addr};
use std::ops::ControlFlow;
use std::time::{Duration, Instant};
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::packet::encoder::{self, MessageEncoder, ResourceRecord};
use uwuhi::packet::records::*;
use uwuhi::packet::{Class, Header, Opcode, QClass, QType, RCode, Type};
use uwuhi::service::{InstanceDetails, Service, ServiceInstance, ServiceTransport, TxtRecordValue, TxtRecords};

/// Fails the demonstration unless it finishes in time.
fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(secs));
        println!("still running after {secs} s");
        std::process::exit(9);
    });
}
fn dn(s: &str) -> DomainName {
    s.parse().unwrap()
}
fn name(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for l in s.split('.').filter(|l| !l.is_empty()) {
        v.push(l.len() as u8);
        v.extend_from_slice(l.as_bytes());
    }
    v.push(0);
    v
}
fn be16(v: u16) -> Vec<u8> {
    v.to_be_bytes().to_vec()
}
/// counts: questions, answers, authority, additional
fn msg(id: u16, flags: u16, counts: [u16; 4], body: &[Vec<u8>]) -> Vec<u8> {
    let mut v = [be16(id), be16(flags)].concat();
    for c in counts {
        v.extend(be16(c));
    }
    v.extend(body.concat());
    v
}
fn question(n: &str, ty: u16) -> Vec<u8> {
    [name(n), be16(ty), be16(1)].concat()
}
fn rrc(n: &str, ty: u16, class: u16, ttl: u32, data: &[u8]) -> Vec<u8> {
    [name(n), be16(ty), be16(class), ttl.to_be_bytes().to_vec(), be16(data.len() as u16), data.to_vec()].concat()
}
fn rr(n: &str, ty: u16, data: &[u8]) -> Vec<u8> {
    rrc(n, ty, 1, 120, data)
}
fn srv(port: u16, target: &str) -> Vec<u8> {
    [vec![0, 0, 0, 0], be16(port), name(target)].concat()
}
/// A server thread that answers the n-th datagram it gets with what `f` returns.
fn server(mut f: impl FnMut(usize, &[u8]) -> Vec<Vec<u8>> + Send + 'static) -> SocketAddr {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(move || {
        let mut buf = [0; 4096];
        let mut n = 0;
        loop {
            let Ok((len, from)) = s.recv_from(&mut buf) else { continue };
            for r in f(n, &buf[..len]) {
                let _ = s.send_to(&r, from);
                std::thread::sleep(Duration::from_millis(10));
            }
            n += 1;
        }
    });
    a
}
fn id_of(q: &[u8]) -> u16 {
    u16::from_be_bytes([q[0], q[1]])
}
/// Joining a multicast group may be impossible where the demonstration runs, and is not needed.
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, opt: i32, val: *const u8, len: u32) -> i32 {
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    if level == 1 && opt == 20 && TIMEOUTS_LEFT.fetch_sub(1, std::sync::atomic::Ordering::SeqCst) <= 0 {
        *__errno_location() = 22;
        return -1;
    }
    let r = syscall(54, fd as i64, level as i64, opt as i64, val as i64, len as i64);
    if level == 0 && opt == 35 { 0 } else { r as i32 }
}
/// How many more receive timeouts can be set; then that fails with EINVAL.
static TIMEOUTS_LEFT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(i32::MAX);
extern "C" {
    fn __errno_location() -> *mut i32;
}
/// Asks the listener on port 5353, repeating the query until it answers.
fn ask(q: &[u8], tries: usize) -> Option<Vec<u8>> {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.set_read_timeout(Some(Duration::from_millis(200))).unwrap();
    let mut buf = [0; 4096];
    for _ in 0..tries {
        let _ = s.send_to(q, "127.0.0.1:5353");
        if let Ok((n, _)) = s.recv_from(&mut buf) {
            return Some(buf[..n].to_vec());
        }
    }
    None
}
'''
BUGS = []
def bug(id, property, needs, breaks, edits, demo, **k):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

D = 'src/packet/decoder.rs'
R = 'src/packet/records.rs'
E = 'src/packet/encoder.rs'
P = 'src/packet.rs'
N = 'src/name.rs'
SV = 'src/service.rs'
AD = 'src/service/advertising.rs'
DI = 'src/service/discovery.rs'
RE = 'src/resolver.rs'
TAP = 'src/tap.rs'
AR = 'uwuhi-async/src/resolver.rs'
ADI = 'uwuhi-async/src/service/discovery.rs'
AAD = 'uwuhi-async/src/service/advertising.rs'

bug('c01-lenient-charstring', 'C01', 'a TXT record whose last character string claims more bytes than its RDATA has',
    'the reader is moved past the end of the record data, and the next look at the remaining data panics',
    [(D, '''        let length = self.read_u8()?;
        self.read_slice(length.into())
''', '''        let length = usize::from(self.read_u8()?);
        // Tolerate senders that cut the last string short.
        let string = &self.buf()[..length.min(self.buf().len())];
        self.advance(length);
        Ok(string)
''')], r'''
fn main() {
    let m = msg(1, 0x8400, [0, 1, 0, 0], &[rr("a.b", 16, &[2, b'x', b'y', 5, b'z'])]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = d.next().unwrap().unwrap();
    assert!(r.as_enum().unwrap().is_err());
}
''')

bug('c01-rr-error-not-sticky', 'C01', 'a response whose answer section announces more records than can be decoded, handed to discovery',
    'the record iterator reports the same error forever, so code that skips bad records never ends',
    [(D, '''        let rr = match self.r.read_resource_record() {
            Ok(q) => q,
            Err(e) => {
                self.has_errored = true;
                return Some(Err(e));
''', '''        let rr = match self.r.read_resource_record() {
            Ok(q) => q,
            Err(e) => {
                return Some(Err(e));
''')], r'''
fn main() {
    watchdog(5);
    let m = msg(1, 0x8400, [0, 3, 0, 0], &[rr("a.b", 1, &[1, 2, 3, 4]), vec![3, b'x']]);
    let mut n = 0;
    let _ = uwuhi::service::discovery::decode_answer(&m, &mut |_| { n += 1; ControlFlow::Continue(()) });
    assert_eq!(n, 1);
}
''')

bug('c01-txt-display-cut', 'C01', 'printing a received TXT record with a long entry whose 60th printed byte is inside a replacement character',
    'the shortened printed form is cut inside a character, which panics',
    [(R, '''            for &byte in entry {
                if byte.is_ascii_graphic() {
                    f.write_char(byte as char)?;
                } else {
                    f.write_char('�')?;
                }
            }
''', '''            let mut text = String::with_capacity(entry.len());
            for &byte in entry {
                if byte.is_ascii_graphic() {
                    text.push(byte as char);
                } else {
                    text.push('�');
                }
            }
            if text.len() > 64 {
                // Keep log lines readable.
                text.truncate(61);
                text.push_str("...");
            }
            f.write_str(&text)?;
''')], r'''
fn main() {
    let mut e = vec![70u8];
    e.extend(vec![b'a'; 60]);
    e.extend(vec![0u8; 10]);
    let m = msg(1, 0x8400, [0, 1, 0, 0], &[rr("a.b", 16, &e)]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = d.next().unwrap().unwrap();
    assert!(r.to_string().contains("aaa"));
}
''')

bug('c02-pointer-min', 'C02', 'a name whose compression pointer leads to a name that itself uses a pointer to a position between its own start and the start of the first name',
    'the lower bound for pointers is not tightened at each hop, so a chain that jumps forward again is accepted (or loops) instead of being reported',
    [(D, '''                        min_pos = ptr;
                        copy.pos = ptr.into();
''', '''                        min_pos -= 1;
                        copy.pos = ptr.into();
''')], r'''
fn main() {
    // 12: ptr -> 14 (forward, from a part that was itself reached by a pointer); 14: "a" root; 17: record name ptr -> 12
    let mut m = msg(1, 0x8400, [0, 2, 0, 0], &[]);
    // first record: name "a", data: two pointers
    m.extend([1, b'a', 0]); // 12..15
    m.extend([0, 1, 0, 1, 0, 0, 0, 1, 0, 5]); // type, class, ttl, len  15..25
    m.extend([0xc0, 27, 1, b'z', 0]); // 25: ptr -> 27 (forward); 27: "z"
    m.extend([0xc0, 25, 0, 1, 0, 1, 0, 0, 0, 1, 0, 0]); // name: ptr -> 25
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    d.next().unwrap().unwrap();
    assert!(matches!(d.next(), Some(Err(uwuhi::Error::PointerLoop))));
}
''')

bug('c02-label-63', 'C02', 'a received name with a label of the maximum length of 63 bytes',
    'the name is refused as having a too long label',
    [(D, '''                    // Length byte followed by a label of that many bytes.
                    let length = usize::from(length);
                    if length == 0 {
                        break;
                    }
''', '''                    // Length byte followed by a label of that many bytes.
                    let length = usize::from(length);
                    if length == 0 {
                        break;
                    }
                    if length >= Label::MAX_LEN {
                        return Err(Error::LabelTooLong);
                    }
''')], r'''
fn main() {
    let l = "x".repeat(63);
    let m = msg(1, 0, [1, 0, 0, 0], &[question(&l, 1)]);
    let mut d = MessageDecoder::new(&m).unwrap();
    assert_eq!(d.next().unwrap().unwrap().qname(), &dn(&l));
}
''')

bug('c03-authority-skip-one', 'C03', 'a message with at least two authority records whose authority section is skipped (not read) on the way to the additional section',
    'only one authority record is skipped, so the remaining ones are delivered as additional records',
    [(D, '''    pub fn additional(mut self) -> Result<MessageDecoder<'a, section::Additional>, Error> {
        while let Some(res) = self.next() {
            res?;
        }
''', '''    pub fn additional(mut self) -> Result<MessageDecoder<'a, section::Additional>, Error> {
        if let Some(res) = self.next() {
            res?;
        }
''')], r'''
fn main() {
    let m = msg(1, 0x8400, [0, 0, 2, 1], &[rr("a", 1, &[1; 4]), rr("b", 1, &[2; 4]), rr("c", 1, &[3; 4])]);
    let mut d = MessageDecoder::new(&m).unwrap().additional().unwrap();
    assert_eq!(d.next().unwrap().unwrap().name(), &dn("c"));
}
''')

bug('c03-class-byte', 'C03', 'a record with the cache-flush bit and a class above 255',
    'only the low byte of the class survives when the cache-flush bit is set',
    [(D, 'raw &= !0x8000;', 'raw &= 0xff;')], r'''
fn main() {
    let m = msg(1, 0x8400, [0, 1, 0, 0], &[rrc("a", 1, 0x8101, 9, &[1; 4])]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = d.next().unwrap().unwrap();
    assert!(r.cache_flush());
    assert!(r.class().to_string().contains("0x101"), "{}", r.class());
}
''')

bug('c03-error-forgotten', 'C03', 'a damaged question section, and a caller that moves on to the answers after seeing the error',
    'the decoder forgets the error when it changes sections and makes up answers from the damaged place on',
    [(D, '            has_errored: self.has_errored,\n', '            has_errored: false,\n')], r'''
fn main() {
    // A question with a reserved length byte, then bytes that look like a record.
    let m = msg(1, 0x8400, [1, 1, 0, 0], &[vec![1, b'a', 0x80], rr("a", 1, &[1; 4])]);
    let mut d = MessageDecoder::new(&m).unwrap();
    assert!(d.next().unwrap().is_err());
    let mut d = d.answers().unwrap();
    assert!(d.next().is_none());
}
''')

bug('c04-soa-order', 'C04', 'a received SOA record whose retry and minimum fields differ',
    'encoder and decoder agree on a wrong order of the SOA fields, so only records from the wire are misread',
    [(R, '''        enc.w.write_u32(self.refresh);
        enc.w.write_u32(self.retry);
        enc.w.write_u32(self.expire);
        enc.w.write_u32(self.minimum_ttl);
''', '''        enc.w.write_u32(self.refresh);
        enc.w.write_u32(self.minimum_ttl);
        enc.w.write_u32(self.expire);
        enc.w.write_u32(self.retry);
'''), (R, '''            retry: dec.r.read_u32()?,
            expire: dec.r.read_u32()?,
            minimum_ttl: dec.r.read_u32()?,
''', '''            minimum_ttl: dec.r.read_u32()?,
            expire: dec.r.read_u32()?,
            retry: dec.r.read_u32()?,
''')], r'''
fn main() {
    let data = [name("m"), name("r"), vec![0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3, 0, 0, 0, 4, 0, 0, 0, 5]].concat();
    let m = msg(1, 0x8400, [0, 1, 0, 0], &[rr("a", 6, &data)]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = d.next().unwrap().unwrap();
    match r.as_enum() {
        Some(Ok(Record::SOA(s))) => assert_eq!((s.serial(), s.refresh(), s.retry(), s.expire(), s.minimum_ttl()), (1, 2, 3, 4, 5)),
        _ => panic!(),
    }
}
''')

bug('c04-txt-empty-entry', 'C04', 'a TXT record with an empty entry between others',
    'empty entries vanish from the decoded TXT record',
    [(R, '''        while !dec.r.buf().is_empty() {
            entries.push(dec.r.read_character_string()?.into());
        }
''', '''        while !dec.r.buf().is_empty() {
            let entry = dec.r.read_character_string()?;
            if entry.is_empty() && dec.r.buf().is_empty() {
                // Nothing but padding.
                break;
            }
            entries.push(entry.into());
        }
''')], r'''
fn main() {
    let m = msg(1, 0x8400, [0, 1, 0, 0], &[rr("a", 16, &[1, b'x', 0])]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = d.next().unwrap().unwrap();
    match r.as_enum() {
        Some(Ok(Record::TXT(t))) => assert_eq!(t.entries().count(), 2),
        _ => panic!(),
    }
}
''')

bug('c04-short-a', 'C04', 'an A record whose data is shorter than four bytes but which is followed by more bytes of the message',
    'the record data reader can look past the end of the record, so a short address is completed from the next record',
    [(D, '''            copy.full_buf = &copy.full_buf[..self.pos.get() + len];
''', '''            if len >= 4 {
                copy.full_buf = &copy.full_buf[..self.pos.get() + len];
            }
''')], r'''
fn main() {
    let m = msg(1, 0x8400, [0, 2, 0, 0], &[rr("a", 1, &[1, 2, 3]), rr("a", 1, &[1, 2, 3, 4])]);
    let mut d = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = d.next().unwrap().unwrap();
    assert!(r.as_enum().unwrap().is_err());
}
''')

bug('c05-ttl-sign', 'C05', 'a record with a TTL above 2^31',
    'such a TTL is written as zero',
    [(E, '        w.write_u32(rr.ttl);\n', '        // RFC 2181: a TTL with the most significant bit set is zero.\n        w.write_u32(if rr.ttl >> 31 != 0 { 0 } else { rr.ttl });\n')], r'''
fn main() {
    let mut buf = [0; 512];
    let n = dn("a.b");
    let rec = Record::A(A::new(Ipv4Addr::LOCALHOST));
    let mut e = MessageEncoder::new(&mut buf).answers();
    e.add_answer(ResourceRecord::new(&n, &rec).ttl(0x8000_0001));
    let len = e.finish().unwrap();
    let mut d = MessageDecoder::new(&buf[..len]).unwrap().answers().unwrap();
    assert_eq!(d.next().unwrap().unwrap().ttl(), 0x8000_0001);
}
''')

bug('c05-txt-flag-merge', 'C05', 'encoding a TXT record that has an empty entry among other entries',
    'empty entries are not written when the record has others',
    [(R, '''        for entry in self.entries() {
            enc.w.write_character_string(entry);
        }
''', '''        for (i, entry) in self.entries().enumerate() {
            if i != 0 && entry.is_empty() && i + 1 == self.entries.len() {
                break; // no need to terminate the list
            }
            enc.w.write_character_string(entry);
        }
''')], r'''
fn main() {
    let mut buf = [0; 512];
    let n = dn("a.b");
    let rec = Record::TXT(TXT::new([&b"x"[..], &b""[..]]));
    let mut e = MessageEncoder::new(&mut buf).answers();
    e.add_answer(ResourceRecord::new(&n, &rec));
    let len = e.finish().unwrap();
    let mut d = MessageDecoder::new(&buf[..len]).unwrap().answers().unwrap();
    let r = d.next().unwrap().unwrap();
    match r.as_enum() {
        Some(Ok(Record::TXT(t))) => assert_eq!(t.entries().count(), 2),
        _ => panic!(),
    }
}
''')

bug('c05-header-late', 'C05', 'setting the header after questions were added, when the caller copies a received header with its counts',
    'finishing adds the counts of the caller-supplied header to the entry counts instead of replacing them',
    [(E, '            h.set_nscount(self.nscount);\n', '            h.set_nscount(self.nscount.max(h.authoritative_count()));\n')], r'''
fn main() {
    let m = msg(7, 0, [0, 0, 1, 0], &[rr("a", 1, &[1; 4])]);
    let h = *MessageDecoder::new(&m).unwrap().header();
    let mut buf = [0; 64];
    let mut e = MessageEncoder::new(&mut buf);
    e.set_header(h);
    let len = e.finish().unwrap();
    let d = MessageDecoder::new(&buf[..len]).unwrap();
    assert_eq!(d.header().authoritative_count(), 0);
    assert_eq!(d.header().id(), 7);
}
''')

bug('c06-exact-fit', 'C06', 'a message that fills its buffer exactly',
    'it is reported and flagged as truncated although everything fitted',
    [(E, '        if data.len() > buf.len() {\n', '        if data.len() >= buf.len() && !data.is_empty() {\n')], r'''
fn main() {
    let n = dn("abc");
    let mut buf = [0; 12 + 5 + 4 + 0];
    let mut e = MessageEncoder::new(&mut buf);
    e.question(encoder::Question::new(&n));
    assert_eq!(e.finish().unwrap(), 21);
}
''')

bug('c06-tc-on-finish', 'C06', 'a buffer too small even for the first entry',
    'the truncation flag is not set when no entry fits completely',
    [(E, '            h.set_truncated(trunc);\n', '            h.set_truncated(trunc && self.ancount + self.nscount + self.arcount + self.qdcount > 0);\n')], r'''
fn main() {
    let n = dn("abc");
    let mut buf = [0; 14];
    {
        let mut e = MessageEncoder::new(&mut buf);
        e.question(encoder::Question::new(&n));
    }
    let d = MessageDecoder::new(&buf).unwrap();
    assert!(d.header().is_truncated());
}
''')

bug('c07-opcode-mask', 'C07', 'setting an opcode over a header whose Z bits or rcode are set',
    'changing the opcode also clears a reserved bit',
    [(P, '            f.remove(HeaderFlags::OPCODE);\n', '            f.remove(HeaderFlags::OPCODE | HeaderFlags::Z);\n')], r'''
fn main() {
    let m = msg(1, 0x0040, [0; 4], &[]);
    let mut h = *MessageDecoder::new(&m).unwrap().header();
    h.set_opcode(Opcode::STATUS);
    assert_eq!(bytemuck_bytes(&h)[2..4], [0x10, 0x40]);
}
fn bytemuck_bytes(h: &Header) -> Vec<u8> {
    let mut buf = [0; 12];
    {
        let mut e = MessageEncoder::new(&mut buf);
        e.set_header(*h);
    }
    buf.to_vec()
}
''')

bug('c07-rcode-or', 'C07', 'setting a response code over a different non-zero one',
    'the old code is only removed when the new one is NO_ERROR, so codes are combined',
    [(P, '            f.remove(HeaderFlags::RCODE);\n', '            if rcode == RCode::NO_ERROR || f.rcode() == RCode::REFUSED {\n                f.remove(HeaderFlags::RCODE);\n            }\n')], r'''
fn main() {
    let mut h = Header::default();
    h.set_rcode(RCode::FORM_ERR);
    h.set_rcode(RCode::SERV_FAIL);
    assert_eq!(h.rcode(), RCode::SERV_FAIL);
}
''')

bug('c08-label-63', 'C08', 'a label of exactly 63 bytes',
    'the longest valid label is refused',
    [(N, '        if label.len() > Self::MAX_LEN {\n', '        if label.len() > Self::MAX_LEN - 1 {\n')], r'''
fn main() {
    assert!(Label::try_new(vec![b'a'; 63]).is_ok());
}
''')

bug('c08-display-utf8', 'C08', 'printing a label with non-ASCII UTF-8 bytes',
    'labels that are valid UTF-8 are printed raw, so the printed form is not ASCII any more',
    [(N, '        self.as_bytes().escape_ascii().fmt(f)\n', '''        match std::str::from_utf8(self.as_bytes()) {
            Ok(s) if !s.contains(|c: char| c.is_control() || c == '"' || c == '\\\\' || c == '\\'') => f.write_str(s),
            _ => self.as_bytes().escape_ascii().fmt(f),
        }
''')], r'''
fn main() {
    assert!(Label::new("Büro").to_string().is_ascii());
}
''')

bug('c08-parse-terminators', 'C08', 'parsing a name that ends in two dots',
    'all trailing dots are dropped before splitting, so a name with an empty last label is accepted',
    [(N, "        for label in s.split_terminator('.') {\n", "        for label in s.strip_suffix('.').unwrap_or(s).split_terminator('.') {\n")], r'''
fn main() {
    assert!("com..".parse::<DomainName>().is_err());
    assert!("com.".parse::<DomainName>().is_ok());
}
''')

bug('c09-mailb', 'C09', 'a MAILB query and an MINFO record',
    'MAILB also matches MINFO',
    [(P, 'Type::MB | Type::MG | Type::MR)', 'Type::MB | Type::MG | Type::MR | Type::MINFO)')], r'''
fn main() {
    assert!(!QType::MAILB.matches(Type::MINFO));
}
''')

bug('c09-all-tsig', 'C09', 'a query for all types and a record of a pseudo type (TKEY, TSIG)',
    'ALL no longer matches pseudo types',
    [(P, '            Self::ALL => true,\n', '            Self::ALL => !matches!(ty, Type::TKEY | Type::TSIG),\n')], r'''
fn main() {
    assert!(QType::ALL.matches(Type::TKEY));
}
''')

bug('c10-empty-value', 'C10', 'instance metadata that has a key with an empty value',
    'the TXT entry is sent as a flag without "="',
    [(AD, '                TxtRecordValue::NoValue => k.as_bytes().to_vec(),\n', '                TxtRecordValue::NoValue | TxtRecordValue::Value([]) => k.as_bytes().to_vec(),\n')], r'''
use uwuhi::service::advertising::Advertiser;
fn main() {
    let mut a = Advertiser::new(Label::new("h"), IpAddr::V4(Ipv4Addr::LOCALHOST)).unwrap();
    let mut d = InstanceDetails::new(dn("h.local"), 1);
    *d.txt_records_mut() = TxtRecords::from_txt(&TXT::new([&b"k="[..]]));
    a.add_instance(ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP), d);
    let q = msg(5, 0, [1, 0, 0, 0], &[question("i._s._tcp.local", 16)]);
    let r = a.handle_packet(&q).unwrap().unwrap().to_vec();
    let mut d = MessageDecoder::new(&r).unwrap().answers().unwrap();
    match d.next().unwrap().unwrap().as_enum() {
        Some(Ok(Record::TXT(t))) => assert_eq!(t.entries().next(), Some(&b"k="[..])),
        _ => panic!(),
    };
}
''')

bug('c10-mapped-v6', 'C10', 'a host with an IPv4-mapped IPv6 address',
    'it is published as an A record, so AAAA queries get nothing and A queries an address that was never added',
    [(AD, '            IpAddr::V6(addr) => Record::AAAA(AAAA::new(addr)),\n', '''            IpAddr::V6(addr) => match addr.to_ipv4_mapped() {
                Some(addr) => Record::A(A::new(addr)),
                None => Record::AAAA(AAAA::new(addr)),
            },
''')], r'''
use uwuhi::service::advertising::Advertiser;
fn main() {
    let mut a = Advertiser::new(Label::new("h"), "::ffff:1.2.3.4".parse().unwrap()).unwrap();
    assert!(a.handle_packet(&msg(5, 0, [1, 0, 0, 0], &[question("h.local", 28)])).unwrap().is_some());
    assert!(a.handle_packet(&msg(5, 0, [1, 0, 0, 0], &[question("h.local", 1)])).unwrap().is_none());
}
''')

bug('c10-one-type-ptr', 'C10', 'two instances of the same service type under one advertiser, asked for the service enumeration name',
    'only the first instance of each type gets a service-enumeration record',
    [(AD, '''        self.db.entries.push(Entry::new(
            self.discovery_domain.clone(),
            Record::PTR(PTR::new(service_domain.clone())),
        ));
''', '''        let announced = self.db.entries.iter().any(|e| {
            e.name == self.discovery_domain
                && matches!(&e.record, Record::PTR(p) if p.ptrdname().labels()[0] == service_domain.labels()[0])
        });
        if !announced {
            self.db.entries.push(Entry::new(
                self.discovery_domain.clone(),
                Record::PTR(PTR::new(service_domain.clone())),
            ));
        }
''')], r'''
use uwuhi::service::advertising::Advertiser;
fn main() {
    let mut a = Advertiser::new(Label::new("h"), IpAddr::V4(Ipv4Addr::LOCALHOST)).unwrap();
    for t in [ServiceTransport::TCP, ServiceTransport::Other] {
        a.add_instance(ServiceInstance::new(Label::new("i"), Label::new("_s"), t), InstanceDetails::new(dn("h.local"), 1));
    }
    let r = a.handle_packet(&msg(5, 0, [1, 0, 0, 0], &[question("_services._dns-sd._udp.local", 12)])).unwrap().unwrap().to_vec();
    assert_eq!(MessageDecoder::new(&r).unwrap().header().answer_count(), 2);
}
''')

bug('c11-nodata', 'C11', 'a query for a type the advertiser does not have under a name it does have',
    'it sends an empty response instead of staying silent',
    [(AD, '''                if !q.qtype().matches(entry.record.record_type()) {
                    continue;
                }
''', '''                if !q.qtype().matches(entry.record.record_type()) {
                    have_relevant_answer |= q.qname() == &entry.name;
                    continue;
                }
''')], r'''
use uwuhi::service::advertising::Advertiser;
fn main() {
    let mut a = Advertiser::new(Label::new("h"), IpAddr::V4(Ipv4Addr::LOCALHOST)).unwrap();
    assert!(a.handle_packet(&msg(5, 0, [1, 0, 0, 0], &[question("h.local", 28)])).unwrap().is_none());
}
''')

bug('c11-shrinking-buffer', 'C11', 'a small reply followed by a query with a larger reply',
    'the response buffer keeps the length of the last reply, so later larger replies are cut',
    [(AD, '''            Ok(Some(&self.response_buf[..len]))
''', '''            self.response_buf.truncate(len);
            Ok(Some(&self.response_buf))
''')], r'''
use uwuhi::service::advertising::Advertiser;
fn main() {
    let mut a = Advertiser::new(Label::new("h"), IpAddr::V4(Ipv4Addr::LOCALHOST)).unwrap();
    a.add_instance(ServiceInstance::new(Label::new("instance"), Label::new("_service"), ServiceTransport::TCP), InstanceDetails::new(dn("h.local"), 1));
    let q1 = msg(5, 0, [1, 0, 0, 0], &[question("h.local", 1)]);
    let q2 = msg(5, 0, [1, 0, 0, 0], &[question("instance._service._tcp.local", 255)]);
    let fresh = a.handle_packet(&q2).unwrap().unwrap().to_vec();
    a.handle_packet(&q1).unwrap().unwrap();
    assert_eq!(a.handle_packet(&q2).unwrap().map(|r| r.to_vec()), Some(fresh));
}
''')

bug('c11-partial-question', 'C11', 'a query whose second question is damaged',
    'the advertiser answers the first question although the question section is damaged',
    [(AD, '            let q = res?;\n', '''            let q = match res {
                Ok(q) => q,
                Err(_) if have_relevant_answer => break,
                Err(e) => return Err(e.into()),
            };
''')], r'''
use uwuhi::service::advertising::Advertiser;
fn main() {
    let mut a = Advertiser::new(Label::new("h"), IpAddr::V4(Ipv4Addr::LOCALHOST)).unwrap();
    let q = msg(5, 0, [2, 0, 0, 0], &[question("h.local", 1), vec![7]]);
    assert!(!matches!(a.handle_packet(&q), Ok(Some(_))));
}
''')

LISTEN = r'''
use uwuhi::service::advertising::SyncAdvertiser;
fn listen() {
    std::thread::spawn(|| {
        let mut a = SyncAdvertiser::new(Label::new("h"), IpAddr::V4(Ipv4Addr::LOCALHOST)).unwrap();
        let r = a.listen_blocking();
        println!("listener ended: {r:?}");
    });
}
'''
bug('c12-eof-ends', 'C12', 'an incoming packet that ends in the middle of a question or of the header',
    'the listener treats the unexpected end as an I/O error and stops serving',
    [(AD, '''                Err(e) => {
                    log::debug!("failed to handle packet: {}", e);
                }
''', '''                Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => return Err(e),
                Err(e) => {
                    log::debug!("failed to handle packet: {}", e);
                }
''')], LISTEN + r'''
fn main() {
    watchdog(30);
    listen();
    let q = msg(5, 0, [1, 0, 0, 0], &[question("h.local", 1)]);
    assert!(ask(&q, 20).is_some());
    ask(&q[..14], 1);
    assert!(ask(&q, 3).is_some());
}
''')

bug('c12-empty-datagram', 'C12', 'an empty datagram',
    'the listener returns, as if the peer had closed a connection',
    [(AD, '''            let packet = &recv_buf[..len];

            log::trace!("raw recv''', '''            let packet = &recv_buf[..len];
            if packet.is_empty() {
                return Ok(());
            }

            log::trace!("raw recv''')], LISTEN + r'''
fn main() {
    watchdog(30);
    listen();
    let q = msg(5, 0, [1, 0, 0, 0], &[question("h.local", 1)]);
    assert!(ask(&q, 20).is_some());
    ask(&[], 1);
    assert!(ask(&q, 3).is_some());
}
''')

bug('c13-callback-error-rr', 'C13', 'an answer section with an undecodable record before a decodable one',
    'the records after the undecodable one are not reported',
    [(DI, '''            Some(Err(e)) => {
                log::warn!("failed to decode RR: {:?}", e);
                continue;
            }
''', '''            Some(Err(e)) => {
                log::warn!("failed to decode RR: {:?}", e);
                return Err(e);
            }
''')], r'''
use uwuhi::service::discovery::SyncDiscoverer;
fn main() {
    watchdog(20);
    let a = server(|_, q| vec![msg(id_of(q), 0x8400, [0, 2, 0, 0], &[rr("_s._tcp.local", 1, &[1, 2]), rr("_s._tcp.local", 12, &name("i._s._tcp.local"))])]);
    let mut d = SyncDiscoverer::new(a, dn("local")).unwrap();
    let mut n = 0;
    d.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| { n += 1; ControlFlow::Continue(()) }).unwrap();
    assert_eq!(n, 1);
}
''')

bug('c13-forget-seen', 'C13', 'two instances whose names differ only in case',
    'the second one is taken for a repetition of the first',
    [(DI, '            match instances.entry(instance) {\n                Entry::Vacant(e) => {\n                    let flow = callback(e.key());\n',
          '            let key = instance.instance_name().to_string().to_lowercase();\n            match instances.entry(key) {\n                Entry::Vacant(e) => {\n                    let flow = callback(&instance);\n')], r'''
use uwuhi::service::discovery::SyncDiscoverer;
fn main() {
    watchdog(20);
    let a = server(|_, q| vec![msg(id_of(q), 0x8400, [0, 2, 0, 0], &[rr("_s._tcp.local", 12, &name("Ab._s._tcp.local")), rr("_s._tcp.local", 12, &name("aB._s._tcp.local"))])]);
    let mut d = SyncDiscoverer::new(a, dn("local")).unwrap();
    let mut n = 0;
    d.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| { n += 1; ControlFlow::Continue(()) }).unwrap();
    assert_eq!(n, 2);
}
''')

bug('c13-types-underscore', 'C13', 'service types that share their name but differ in transport',
    'the second one is taken for a repetition of the first',
    [(DI, '            match service_types.entry(service) {\n                Entry::Vacant(e) => {\n                    let flow = callback(e.key());\n',
          '            match service_types.entry(service.name().clone()) {\n                Entry::Vacant(e) => {\n                    let flow = callback(&service);\n')], r'''
use uwuhi::service::discovery::SyncDiscoverer;
fn main() {
    watchdog(20);
    let e = "_services._dns-sd._udp.local";
    let a = server(move |_, q| vec![msg(id_of(q), 0x8400, [0, 2, 0, 0], &[rr(e, 12, &name("_s._tcp.local")), rr(e, 12, &name("_s._udp.local"))])]);
    let mut d = SyncDiscoverer::new(a, dn("local")).unwrap();
    let mut n = 0;
    d.discover_service_types(|_| { n += 1; ControlFlow::Continue(()) }).unwrap();
    assert_eq!(n, 2);
}
''')

bug('c14-retransmit-garbage', 'C14', 'datagrams arriving that cannot be decoded',
    'each of them makes discovery send its query again',
    [(DI, '''                        log::warn!("failed to decode response: {:?}", err);
''', '''                        log::warn!("failed to decode response: {:?}", err);
                        continue 'retransmit;
''')], r'''
use uwuhi::service::discovery::SyncDiscoverer;
use std::sync::atomic::*;
static N: AtomicUsize = AtomicUsize::new(0);
fn main() {
    watchdog(20);
    let a = server(|n, _| { N.fetch_add(1, Ordering::SeqCst); if n == 0 { vec![vec![1, 2, 3]; 5] } else { vec![] } });
    let mut d = SyncDiscoverer::new(a, dn("local")).unwrap();
    d.set_retransmit_timeout(Duration::from_millis(600)).unwrap();
    d.discover_service_types(|_| ControlFlow::Continue(())).unwrap();
    assert!(N.load(Ordering::SeqCst) <= 2, "{}", N.load(Ordering::SeqCst));
}
''')

bug('c14-timeout-max', 'C14', 'a discovery timeout set below the retransmit timeout',
    'the discovery timeout is raised to the retransmit timeout',
    [(DI, '        self.discovery_timeout = timeout;\n', '        self.discovery_timeout = timeout.max(Self::DEFAULT_RETRANSMIT_TIMEOUT);\n')], r'''
use uwuhi::service::discovery::SyncDiscoverer;
fn main() {
    watchdog(20);
    let a = server(|_, _| vec![]);
    let mut d = SyncDiscoverer::new(a, dn("local")).unwrap();
    d.set_discovery_timeout(Duration::from_millis(50)).unwrap();
    let t = Instant::now();
    d.discover_service_types(|_| ControlFlow::Continue(())).unwrap();
    assert!(t.elapsed() < Duration::from_millis(200));
}
''')

bug('c15-srv-port-zero', 'C15', 'an instance that announces port 0',
    'the SRV record is skipped as unusable, and loading the details times out',
    [(DI, '                Record::SRV(srv) => {\n', '                Record::SRV(srv) if srv.port() != 0 => {\n')], r'''
use uwuhi::service::discovery::SyncDiscoverer;
fn main() {
    watchdog(20);
    let i = "i._s._tcp.local";
    let a = server(move |_, q| vec![msg(id_of(q), 0x8400, [0, 2, 0, 0], &[rr(i, 16, b"\x03k=v"), rr(i, 33, &srv(0, "h.local"))])]);
    let mut d = SyncDiscoverer::new(a, dn("local")).unwrap();
    let det = d.load_instance_details(&ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP)).unwrap();
    assert_eq!(det.port(), 0);
}
''')

bug('c15-long-host', 'C15', 'an SRV record whose target has more than eight labels',
    'the host of such a record loses its last labels',
    [(SV, '            host: srv.target().clone(),\n            port: srv.port(),\n', '            host: srv.target().labels().iter().take(srv.target().labels().len().min(8)).collect(),\n            port: srv.port(),\n')], r'''
use uwuhi::service::discovery::SyncDiscoverer;
fn main() {
    watchdog(20);
    let i = "i._s._tcp.local";
    let h = "a.b.c.d.e.f.g.h.i.j.local";
    let a = server(move |_, q| vec![msg(id_of(q), 0x8400, [0, 2, 0, 0], &[rr(i, 16, b"\x03k=v"), rr(i, 33, &srv(80, h))])]);
    let mut d = SyncDiscoverer::new(a, dn("local")).unwrap();
    let det = d.load_instance_details(&ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP)).unwrap();
    assert_eq!(det.host(), &dn(h));
}
''')

bug('c16-decode-error-ends', 'C16', 'a malformed datagram received before the real response',
    'the resolution fails on the malformed datagram',
    [(RE, '''                    log::warn!("failed to decode response from {}: {:?}", addr, e);
''', '''                    log::warn!("failed to decode response from {}: {:?}", addr, e);
                    if e == Error::PointerLoop {
                        return Err(e.into());
                    }
''')], r'''
use uwuhi::resolver::SyncResolver;
fn main() {
    watchdog(20);
    let a = server(|_, q| vec![msg(id_of(q), 0x8400, [0, 1, 0, 0], &[vec![0xc0, 12]]), msg(id_of(q), 0x8400, [0, 1, 0, 0], &[rr("h.local", 1, &[1, 2, 3, 4])])]);
    let mut r = SyncResolver::new(a).unwrap();
    assert_eq!(r.resolve("h.local").unwrap().collect::<Vec<_>>(), ["1.2.3.4".parse::<IpAddr>().unwrap()]);
}
''')

bug('c16-keep-addresses', 'C16', 'a resolution after one on the same resolver that gave at most four addresses',
    'addresses of the previous resolution are returned again',
    [(RE, '        self.ip_buf.clear();\n', '        if self.ip_buf.len() > 4 {\n            self.ip_buf.clear();\n        }\n')], r'''
use uwuhi::resolver::SyncResolver;
fn main() {
    watchdog(20);
    let a = server(|n, q| vec![msg(id_of(q), 0x8400, [0, 1, 0, 0], &[rr("h.local", 1, &[1, 2, 3, n as u8])])]);
    let mut r = SyncResolver::new(a).unwrap();
    r.resolve("h.local").unwrap().count();
    assert_eq!(r.resolve("h.local").unwrap().count(), 1);
}
''')

bug('c17-family-first', 'C17', 'adding a server with the same address as, but another port than an earlier one',
    'the earlier server is dropped from the list',
    [(RE, '        self.servers.push(server);\n', '        self.servers.retain(|s| s.ip() != server.ip());\n        self.servers.push(server);\n')], r'''
use uwuhi::resolver::SyncResolver;
fn main() {
    watchdog(20);
    let a = server(|_, q| vec![msg(id_of(q), 0x8400, [0, 1, 0, 0], &[rr("h.local", 1, &[1, 2, 3, 4])])]);
    let b = server(|_, _| vec![]);
    let mut r = SyncResolver::new(a).unwrap();
    r.add_server(b);
    assert!(r.resolve("h.local").is_ok());
}
''')

bug('c17-send-error', 'C17', 'two servers, the first of which cannot be sent to while the second can',
    'a failing send is ignored as long as it is not the last one, so the error is not returned',
    [(RE, '''            self.sock.send_to(data, addr)?;
''', '''            if let Err(e) = self.sock.send_to(data, addr) {
                if Some(addr) == self.servers.last() {
                    return Err(e);
                }
            }
''')], r'''
use uwuhi::resolver::SyncResolver;
fn main() {
    watchdog(20);
    // Port 0 cannot be sent to.
    let b = server(|_, _| vec![]);
    let mut r = SyncResolver::new("127.0.0.1:0".parse().unwrap()).unwrap();
    r.add_server(b);
    let e = r.resolve("h.local").err().unwrap();
    assert!(e.kind() != std::io::ErrorKind::WouldBlock && e.kind() != std::io::ErrorKind::TimedOut, "{e}");
}
''')

bug('c18-value-trim', 'C18', 'a TXT value that contains further "=" at its end',
    'trailing "=" of values are lost',
    [(SV, 'entry.splitn(2, |&b| b == b\'=\')', 'entry.strip_suffix(b"==").unwrap_or(entry).splitn(2, |&b| b == b\'=\')')], r'''
fn main() {
    let t = TxtRecords::from_txt(&TXT::new([&b"k=YQ=="[..]]));
    assert!(matches!(t.get("k"), Some(TxtRecordValue::Value(b"YQ=="))));
}
''')

bug('c18-flag-loses', 'C18', 'a key that appears first as a flag and then with a value',
    'the value replaces the flag although the first occurrence wins',
    [(SV, '''                Some(value) => {
                    entry.or_insert(TxtRecord {
                        key,
                        value: Some(value.to_vec()),
                    });
                }
''', '''                Some(value) => {
                    let rec = entry.or_insert(TxtRecord { key, value: None });
                    if rec.value.is_none() {
                        rec.value = Some(value.to_vec());
                    }
                }
''')], r'''
fn main() {
    let t = TxtRecords::from_txt(&TXT::new([&b"k"[..], &b"K=v"[..]]));
    assert!(matches!(t.get("k"), Some(TxtRecordValue::NoValue)));
}
''')

bug('c18-flag-lookup', 'C18', 'a flag whose key has upper-case ASCII and non-ASCII letters',
    'adding lower-cases such keys differently from lookup, so that a non-ASCII flag is not found',
    [(SV, '''            .insert(key.to_ascii_lowercase(), TxtRecord { key, value: None });
''', '''            .entry(if key.is_ascii() { key.to_lowercase() } else { key.clone() })
            .or_insert(TxtRecord { key, value: None });
''')], r'''
fn main() {
    let mut t = TxtRecords::new();
    t.add_flag("SCHLÜSSEL".into());
    assert!(t.get("SCHLÜSSEL").is_some());
}
''')

bug('c19-domain-optional', 'C19', 'a pointer target that ends after the transport label',
    'an instance without a domain is accepted',
    [(SV, '''        let transport = labels.next().ok_or(Error::Eof)?;
        if labels.next().is_none() {
            // Domain missing, this is probably not a valid service.
            return Err(Error::Eof);
        }
        if !service_name.as_bytes().starts_with(b"_") {
            return Err(Error::InvalidValue);
        }
        Ok(ServiceInstance {
''', '''        let transport = labels.next().ok_or(Error::Eof)?;
        if !service_name.as_bytes().starts_with(b"_") {
            return Err(Error::InvalidValue);
        }
        Ok(ServiceInstance {
''')], r'''
fn main() {
    assert!(ServiceInstance::from_ptr(PTR::new(dn("i._s._tcp"))).is_err());
}
''')

bug('c19-case-transport', 'C19', 'a pointer target whose transport label is a prefix of a known one',
    'any label starting with "_udp" counts as the transport',
    [(SV, '''                b"_tcp" => ServiceTransport::TCP,
                b"_udp" => ServiceTransport::Other,
                _ => return Err(Error::InvalidValue),
            },
        })
    }

    #[inline]
    pub fn name''', '''                b"_tcp" => ServiceTransport::TCP,
                [b'_', b'u', b'd', b'p', ..] => ServiceTransport::Other,
                _ => return Err(Error::InvalidValue),
            },
        })
    }

    #[inline]
    pub fn name''')], r'''
fn main() {
    assert!(Service::from_ptr(PTR::new(dn("_s._udp6.local"))).is_err());
}
''')

bug('c20-case-host', 'C20', 'an instance whose host name has more than four labels',
    'the advertiser publishes the SRV target without the last labels',
    [(AD, 'Record::SRV(SRV::new(0, 0, details.port(), details.host().clone())),', 'Record::SRV(SRV::new(0, 0, details.port(), details.host().into_iter().take(4).collect::<DomainName>())),')], r'''
use uwuhi::service::advertising::Advertiser;
fn main() {
    let mut a = Advertiser::new(Label::new("h"), IpAddr::V4(Ipv4Addr::LOCALHOST)).unwrap();
    let host = dn("h.a.b.c.local");
    a.add_instance(ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP), InstanceDetails::new(host.clone(), 1));
    let r = a.handle_packet(&msg(5, 0, [1, 0, 0, 0], &[question("i._s._tcp.local", 33)])).unwrap().unwrap().to_vec();
    let mut d = MessageDecoder::new(&r).unwrap().answers().unwrap();
    match d.next().unwrap().unwrap().as_enum() {
        Some(Ok(Record::SRV(s))) => assert_eq!(s.target(), &host),
        _ => panic!(),
    };
}
''')

AS = r'''
use futures_lite::future::block_on;
'''
bug('c21-timeout-total', 'C21', 'responses that do not match the query arriving before the timeout passes',
    'the async resolver waits for the whole resolution only as long as for one datagram',
    [(AR, '''        loop {
            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
            let timeout = async {
                Timer::after(self.timeout).await;
                Err(io::ErrorKind::TimedOut.into())
            };
''', '''        let mut timer = Timer::after(self.timeout);
        loop {
            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
            let timeout = async {
                (&mut timer).await;
                Err(io::ErrorKind::TimedOut.into())
            };
''')], AS + r'''
use uwuhi_async::resolver::AsyncResolver;
fn main() {
    watchdog(20);
    let a = server(|_, q| {
        std::thread::sleep(Duration::from_millis(200));
        let s = q.to_vec();
        let ok = msg(id_of(q), 0x8400, [0, 1, 0, 0], &[rr("h.local", 1, &[1, 2, 3, 4])]);
        let mut v = vec![s; 25];
        v.push(ok);
        v
    });
    block_on(async {
        let mut r = AsyncResolver::new(a).await.unwrap();
        r.set_timeout(Duration::from_millis(350)).unwrap();
        assert!(r.resolve("h.local").await.is_ok());
    });
}
''', **{'async': 1})

bug('c21-stale-ips', 'C21', 'a resolution after one on the same resolver that gave exactly one address',
    'the address of the earlier resolution is returned again',
    [(AR, '        self.ip_buf.clear();\n', '        if self.ip_buf.len() != 1 {\n            self.ip_buf.clear();\n        }\n')], AS + r'''
use uwuhi_async::resolver::AsyncResolver;
fn main() {
    watchdog(20);
    let a = server(|n, q| vec![msg(id_of(q), 0x8400, [0, 1, 0, 0], &[rr("h.local", 1, &[1, 2, 3, n as u8])])]);
    block_on(async {
        let mut r = AsyncResolver::new(a).await.unwrap();
        r.resolve("h.local").await.unwrap().count();
        assert_eq!(r.resolve("h.local").await.unwrap().count(), 1);
    });
}
''', **{'async': 1})

bug('c21-or-order', 'C21', 'a datagram and the timeout that are both due when the task gets to run again',
    'the timeout is looked at first, so a response that already arrived is dropped',
    [(AR, 'future::or(self.sock.recv_from(&mut recv_buf), timeout).await?', 'future::or(timeout, self.sock.recv_from(&mut recv_buf)).await?')], AS + r'''
use uwuhi_async::resolver::AsyncResolver;
use std::{future::Future, pin::pin, task::{Context, Waker}};
fn main() {
    watchdog(20);
    let a = server(|_, q| vec![msg(id_of(q), 0x8400, [0, 1, 0, 0], &[rr("h.local", 1, &[1, 2, 3, 4])])]);
    block_on(async {
        let mut r = AsyncResolver::new(a).await.unwrap();
        r.set_timeout(Duration::from_millis(100)).unwrap();
        let mut f = pin!(r.resolve("h.local"));
        let mut first = true;
        let n = futures_lite::future::poll_fn(|cx| {
            let p = f.as_mut().poll(cx);
            if first {
                // The task is kept from running until both have happened.
                first = false;
                std::thread::sleep(Duration::from_millis(400));
            }
            p
        }).await;
        assert!(n.is_ok());
    });
}
''', **{'async': 1})

bug('c22-txt-lost', 'C22', 'details of an instance whose TXT record arrives before the SRV record',
    'async detail loading ignores metadata that arrives before the SRV record',
    [(ADI, '                    txt_records = Some(TxtRecords::from_txt(&txt));\n', '''                    if details.is_some() {
                        txt_records = Some(TxtRecords::from_txt(&txt));
                    }
''')], AS + r'''
use uwuhi_async::service::discovery::AsyncDiscoverer;
fn main() {
    watchdog(20);
    let i = "i._s._tcp.local";
    let a = server(move |n, q| if n == 0 { vec![msg(id_of(q), 0x8400, [0, 2, 0, 0], &[rr(i, 16, b"\x03k=v"), rr(i, 33, &srv(80, "h.local"))])] } else { vec![] });
    block_on(async {
        let mut d = AsyncDiscoverer::new(a, dn("local")).await.unwrap();
        let det = d.load_instance_details(&ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP)).await.unwrap();
        assert!(det.txt_records().get("k").is_some());
    });
}
''', **{'async': 1})

bug('c22-decode-error-ends', 'C22', 'a malformed datagram arriving during async discovery',
    'async discovery ends with an error',
    [(ADI, '''                        log::warn!("failed to decode response: {:?}", err);
''', '''                        log::warn!("failed to decode response: {:?}", err);
                        if b > 512 {
                            return Err(err.into());
                        }
''')], AS + r'''
use uwuhi_async::service::discovery::AsyncDiscoverer;
fn main() {
    watchdog(20);
    let a = server(move |_, q| vec![msg(id_of(q), 0x8400, [1, 0, 0, 0], &[vec![0x80; 600]])]);
    block_on(async {
        let mut d = AsyncDiscoverer::new(a, dn("local")).await.unwrap();
        d.discover_service_types(|_| ControlFlow::Continue(())).await.unwrap();
    });
}
''', **{'async': 1})

bug('c22-callback-last', 'C22', 'an instance that is announced a second time after one with a greater name',
    'async instance discovery forgets smaller instances and reports the first again',
    [(ADI, '''                Entry::Vacant(e) => {
                    let flow = callback(e.key());
                    e.insert(());
                    flow
                }
                Entry::Occupied(_) => {
                    // Already discovered this instance
''', '''                Entry::Vacant(e) => {
                    let flow = callback(e.key());
                    if flow.is_continue() {
                        let instance = e.key().clone();
                        instances.retain(|i: &ServiceInstance, _| i.service() == instance.service() && i.instance_name() > instance.instance_name());
                        instances.insert(instance, ());
                    }
                    flow
                }
                Entry::Occupied(_) => {
                    // Already discovered this instance
''')], AS + r'''
use uwuhi_async::service::discovery::AsyncDiscoverer;
fn main() {
    watchdog(20);
    let s = "_s._tcp.local";
    let a = server(move |_, q| vec![msg(id_of(q), 0x8400, [0, 3, 0, 0], &[rr(s, 12, &name("a._s._tcp.local")), rr(s, 12, &name("b._s._tcp.local")), rr(s, 12, &name("a._s._tcp.local"))])]);
    block_on(async {
        let mut d = AsyncDiscoverer::new(a, dn("local")).await.unwrap();
        let mut n = 0;
        d.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| { n += 1; ControlFlow::Continue(()) }).await.unwrap();
        assert_eq!(n, 2);
    });
}
''', **{'async': 1})

ALISTEN = r'''
use uwuhi_async::service::advertising::AsyncAdvertiser;
fn listen() {
    std::thread::spawn(|| futures_lite::future::block_on(async {
        let mut a = AsyncAdvertiser::new(Label::new("h"), IpAddr::V4(Ipv4Addr::LOCALHOST)).unwrap();
        let r = a.listen().await;
        println!("listener ended: {r:?}");
    }));
}
'''
bug('c23-small-buffer', 'C23', 'a query of more than 512 bytes',
    'the async advertiser only receives the first 512 bytes of a query and drops it as damaged',
    [(AAD, '        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n', '        let mut recv_buf = [0; uwuhi::DNS_BUFFER_SIZE];\n'), (AAD, '''    service::{InstanceDetails, ServiceInstance},
    MDNS_BUFFER_SIZE,
''', '''    service::{InstanceDetails, ServiceInstance},
''')], ALISTEN + r'''
fn main() {
    watchdog(30);
    listen();
    let q = msg(5, 0, [40, 0, 0, 0], &vec![question("h.local", 1); 40]);
    assert!(q.len() > 512);
    assert!(ask(&q, 20).is_some());
}
''', **{'async': 1})

bug('c23-decode-error-ends', 'C23', 'a query with a compression pointer loop',
    'the async listener returns',
    [(AAD, '''                Err(e) => {
                    log::debug!("failed to handle packet: {}", e);
                }
''', '''                Err(e) if e.to_string().contains("malicious") => return Err(e),
                Err(e) => {
                    log::debug!("failed to handle packet: {}", e);
                }
''')], ALISTEN + r'''
fn main() {
    watchdog(30);
    listen();
    let q = msg(5, 0, [1, 0, 0, 0], &[question("h.local", 1)]);
    assert!(ask(&q, 20).is_some());
    ask(&msg(5, 0, [1, 0, 0, 0], &[vec![0xc0, 12, 0, 1, 0, 1]]), 1);
    assert!(ask(&q, 3).is_some());
}
''', **{'async': 1})

TAPD = r'''
use std::sync::Mutex;
static LINES: Mutex<Vec<String>> = Mutex::new(Vec::new());
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        if r.target().starts_with("uwuhi") && r.level() <= log::Level::Debug { LINES.lock().unwrap().push(r.args().to_string()); }
    }
    fn flush(&self) {}
}
fn tap() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    std::thread::spawn(|| {
        let r = uwuhi::tap::SyncTap::new().unwrap().listen();
        println!("tap ended: {r:?}");
    });
}
/// Lines logged for a packet.
fn lines(p: &[u8]) -> Vec<String> {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    for _ in 0..20 {
        LINES.lock().unwrap().clear();
        s.send_to(p, "127.0.0.1:5353").unwrap();
        std::thread::sleep(Duration::from_millis(150));
        let l = LINES.lock().unwrap().clone();
        if !l.is_empty() { return l; }
    }
    vec![]
}
'''
bug('c24-query-answers', 'C24', 'a query that carries known answers, or a response with authority records',
    'the tap stops after the questions of a query and so never shows its known answers',
    [(D, '''        let mut msg = msg.answers()?;
        for rr in msg.iter() {
            let rr = rr?;
            cb(format_args!("ANS: {}", rr));
        }
''', '''        if msg.header().is_query() && msg.header().authoritative_count() == 0 {
            return Ok(());
        }
        let mut msg = msg.answers()?;
        for rr in msg.iter() {
            let rr = rr?;
            cb(format_args!("ANS: {}", rr));
        }
''')], TAPD + r'''
fn main() {
    watchdog(30);
    tap();
    let l = lines(&msg(1, 0, [1, 1, 0, 0], &[question("a", 12), rr("a", 12, &name("b"))]));
    assert!(l.iter().any(|l| l.starts_with("ANS")), "{l:?}");
}
''')

bug('c24-bad-ends', 'C24', 'a packet with a label of reserved type, followed by other packets',
    'the tap returns on such a packet',
    [(TAP, '''                Err(e) => {
                    log::warn!("failed to process incoming message: {:?}", e);
                }
''', '''                Err(e @ Error::InvalidValue) => return Err(e.into()),
                Err(e) => {
                    log::warn!("failed to process incoming message: {:?}", e);
                }
''')], TAPD + r'''
fn main() {
    watchdog(30);
    tap();
    let ok = msg(1, 0, [1, 0, 0, 0], &[question("a", 12)]);
    assert!(!lines(&ok).is_empty());
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.send_to(&msg(1, 0, [1, 0, 0, 0], &[vec![0x80]]), "127.0.0.1:5353").unwrap();
    std::thread::sleep(Duration::from_millis(100));
    let l = lines(&ok);
    assert!(l.iter().any(|l| l.starts_with("Q:")), "{l:?}");
}
''')


# From here on: changes that a check missed at first, or that probes.py holds anyway.
def probe(id):
    import probes
    return next(e for i, _, e in probes.PROBES if i == id)

bug('c03-skip-many', 'C03', 'skipping an authority section of more than 256 records',
    'only the first 256 are skipped, so the rest are taken for additional records', probe('z03-skip-auth'), r'''
fn main() {
    let mut b: Vec<Vec<u8>> = (0..300u32).map(|i| rrc("auth", 99, 1, i, &[])).collect();
    b.push(rr("add", 1, &[1, 2, 3, 4]));
    let m = msg(1, 0x8000, [0, 0, 300, 1], &b);
    let mut d = MessageDecoder::new(&m).unwrap().additional().unwrap();
    assert_eq!(d.next().unwrap().unwrap().name(), &dn("add"));
    assert!(d.next().is_none());
}
''')
bug('c03-name-cache', 'C03', 'two questions, of one or several messages on one thread, whose first eight bytes agree',
    'the second question gets the name of the first', probe('x03-static-name'), r'''
fn main() {
    for n in ["example.org", "example.net"] {
        let m = msg(1, 0, [1, 0, 0, 0], &[question(n, 1)]);
        let mut d = MessageDecoder::new(&m).unwrap();
        assert_eq!(d.next().unwrap().unwrap().qname(), &dn(n));
    }
}
''')
bug('c05-reserved-bits', 'C05', 'a header with a reserved flag bit set, given to the encoder',
    'the reserved bits of the header are lost', probe('z05-z-bits'), r'''
fn main() {
    let m = msg(7, 0x8570, [0, 0, 0, 0], &[]);
    let h = *MessageDecoder::new(&m).unwrap().header();
    let mut buf = [0; 64];
    let mut e = MessageEncoder::new(&mut buf);
    e.set_header(h);
    let n = e.finish().unwrap();
    assert_eq!(buf[..n], m[..]);
}
''')
bug('c06-tight-strings', 'C06', 'a message that ends in a TXT entry of more than 63 bytes, and a buffer of exactly its size',
    'it is taken not to fit', probe('z06-len-room'), r'''
fn main() {
    let mut buf = [0; 400];
    let enc = |buf: &mut [u8]| {
        let mut e = MessageEncoder::new(buf).answers();
        e.add_answer(ResourceRecord::new(&dn("a"), &Record::TXT(TXT::new([vec![b'x'; 100]]))));
        e.finish()
    };
    let n = enc(&mut buf).unwrap();
    assert_eq!(enc(&mut buf[..n]), Ok(n));
}
''')
bug('c06-section-forgets', 'C06', 'a message of which one question fits and the next does not, followed by moving to the answers',
    'that something was left out is forgotten, and the message counts as complete', probe('x06-section-trunc'), r'''
fn main() {
    let mut buf = [0; 24];
    let mut e = MessageEncoder::new(&mut buf);
    e.question(encoder::Question::new(&dn("a")));
    e.question(encoder::Question::new(&dn("a.long.name.that.does.not.fit")));
    assert!(e.answers().finish().is_err());
    assert_ne!(buf[2] & 2, 0);
}
''')
bug('c08-equal-case', 'C08', 'two names that differ in case only',
    'they compare equal, though they are different lists of labels', probe('x08-hash-eq'), r'''
fn main() {
    assert!(dn("host.local") != dn("Host.local"));
}
''')
bug('c10-answer-cache', 'C10', 'a name or instance added after a query, and then the very same query again',
    'the reply to the first query is sent again', probe('y10-cache'), r'''
use uwuhi::service::advertising::Advertiser;
fn main() {
    let mut a = Advertiser::new(Label::new("h"), IpAddr::V4(Ipv4Addr::LOCALHOST)).unwrap();
    let q = msg(5, 0, [1, 0, 0, 0], &[question("h.local", 255)]);
    a.handle_packet(&q).unwrap().unwrap();
    a.add_name(Label::new("h"), "10.0.0.1".parse().unwrap());
    let r = a.handle_packet(&q).unwrap().unwrap().to_vec();
    assert_eq!(MessageDecoder::new(&r).unwrap().header().answer_count(), 2);
}
''')
bug('c10-unicode-case', 'C10', 'a query for a name that differs from an advertised one in the case of a letter outside ASCII',
    'it is answered', probe('x10-unicode-case'), r'''
use uwuhi::service::advertising::Advertiser;
fn main() {
    let mut a = Advertiser::new(Label::new("caf\u{e9}"), IpAddr::V4(Ipv4Addr::LOCALHOST)).unwrap();
    assert!(a.handle_packet(&msg(5, 0, [1, 0, 0, 0], &[question("caf\u{e9}.local", 1)])).unwrap().is_some());
    assert!(a.handle_packet(&msg(5, 0, [1, 0, 0, 0], &[question("caf\u{c9}.local", 1)])).unwrap().is_none());
}
''')
bug('c11-known-names', 'C11', 'a query before an instance or name is added',
    'what is added after the first query is never answered for', probe('y11-cache'), r'''
use uwuhi::service::advertising::Advertiser;
fn main() {
    let mut a = Advertiser::new(Label::new("h"), IpAddr::V4(Ipv4Addr::LOCALHOST)).unwrap();
    a.handle_packet(&msg(5, 0, [1, 0, 0, 0], &[question("h.local", 1)])).unwrap().unwrap();
    a.add_name(Label::new("g"), "10.0.0.1".parse().unwrap());
    assert!(a.handle_packet(&msg(5, 0, [1, 0, 0, 0], &[question("g.local", 1)])).unwrap().is_some());
}
''')
bug('c12-duplicates', 'C12', 'the same datagram twice in a row from the same address',
    'the second one is not answered', probe('z12-last-resp'), LISTEN + r'''
fn main() {
    watchdog(30);
    listen();
    let q = msg(5, 0, [1, 0, 0, 0], &[question("h.local", 1)]);
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.set_read_timeout(Some(Duration::from_millis(300))).unwrap();
    assert!(ask(&q, 20).is_some());
    let mut buf = [0; 100];
    for _ in 0..2 {
        s.send_to(&q, "127.0.0.1:5353").unwrap();
        assert!(s.recv(&mut buf).is_ok());
    }
}
''')
bug('c13-stop-late', 'C13', 'a callback that stops at an announcement with others behind it in the same datagram',
    'the callback is called again for the rest of the datagram', probe('z13-stop-late'), r'''
use uwuhi::service::discovery::SyncDiscoverer;
fn main() {
    watchdog(20);
    let a = server(|_, q| vec![msg(id_of(q), 0x8400, [0, 2, 0, 0], &[rr("_s._tcp.local", 12, &name("a._s._tcp.local")), rr("_s._tcp.local", 12, &name("b._s._tcp.local"))])]);
    let mut d = SyncDiscoverer::new(a, dn("local")).unwrap();
    let mut n = 0;
    d.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| { n += 1; ControlFlow::Break(()) }).unwrap();
    assert_eq!(n, 1);
}
''')
bug('c14-callback-time', 'C14', 'a callback that takes long compared with the time limit',
    'the time spent in callbacks does not count, so discovery overruns its limit', probe('y14-recv-time'), r'''
use uwuhi::service::discovery::SyncDiscoverer;
fn main() {
    watchdog(20);
    let a = server(|n, q| if n > 0 { vec![] } else { vec![msg(id_of(q), 0x8400, [0, 2, 0, 0], &[rr("_s._tcp.local", 12, &name("a._s._tcp.local")), rr("_s._tcp.local", 12, &name("b._s._tcp.local"))])] });
    let mut d = SyncDiscoverer::new(a, dn("local")).unwrap();
    d.set_discovery_timeout(Duration::from_millis(1500)).unwrap();
    let t = Instant::now();
    d.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| { std::thread::sleep(Duration::from_millis(1000)); ControlFlow::Continue(()) }).unwrap();
    assert!(t.elapsed() < Duration::from_millis(2900), "{:?}", t.elapsed());
}
''')
bug('c15-long-domain', 'C15', 'a discovery domain of more than two labels',
    'the details are asked for, and expected, under a shortened domain', probe('x15-other-domain'), r'''
use uwuhi::service::discovery::SyncDiscoverer;
fn main() {
    watchdog(20);
    let i = "i._s._tcp.site.example.org";
    let a = server(move |_, q| vec![msg(id_of(q), 0x8400, [0, 2, 0, 0], &[rr(i, 16, b"\x03k=v"), rr(i, 33, &srv(7, "h.local"))])]);
    let mut d = SyncDiscoverer::new(a, dn("site.example.org")).unwrap();
    d.set_discovery_timeout(Duration::from_millis(1500)).unwrap();
    let det = d.load_instance_details(&ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP)).unwrap();
    assert_eq!(det.port(), 7);
}
''')
bug('c16-shared-cache', 'C16', 'a resolution that gets no answer, of a name that another resolver of the process resolved before',
    'the addresses of the other resolution are returned instead of an error', probe('x16-static-cache'), r'''
use uwuhi::resolver::SyncResolver;
fn main() {
    watchdog(20);
    let a = server(|_, q| vec![msg(id_of(q), 0x8400, [0, 1, 0, 0], &[rr("h.local", 1, &[1, 2, 3, 4])])]);
    let b = server(|_, _| vec![]);
    assert_eq!(SyncResolver::new(a).unwrap().resolve("h.local").unwrap().count(), 1);
    assert!(SyncResolver::new(b).unwrap().resolve("h.local").is_err());
}
''')
bug('c16-many-addresses', 'C16', 'a response with more than 64 addresses',
    'the addresses beyond the 64th are lost', probe('x16-addrs-64'), r'''
use uwuhi::resolver::SyncResolver;
fn main() {
    watchdog(20);
    let a = server(|_, q| vec![msg(id_of(q), 0x8400, [0, 70, 0, 0], &(0..70).map(|i| rr("h.", 1, &[1, 2, 3, i])).collect::<Vec<_>>())]);
    assert_eq!(SyncResolver::new(a).unwrap().resolve("h").unwrap().count(), 70);
}
''')
bug('c17-late-server', 'C17', 'a server added after the first resolution',
    'it is never asked', probe('y17-servers'), r'''
use uwuhi::resolver::SyncResolver;
fn main() {
    watchdog(20);
    let a = server(|_, _| vec![]);
    let b = server(|_, q| vec![msg(id_of(q), 0x8400, [0, 1, 0, 0], &[rr("h.local", 1, &[1, 2, 3, 4])])]);
    let mut r = SyncResolver::new(a).unwrap();
    assert!(r.resolve("h.local").is_err());
    r.add_server(b);
    assert!(r.resolve("h.local").is_ok());
}
''')
bug('c18-empty-value', 'C18', 'a metadata entry that ends in its "=", that is, a key with an empty value',
    'it becomes a flag without a value', probe('z18-eq-empty'), r'''
fn main() {
    use uwuhi::service::advertising::Advertiser;
    use uwuhi::service::discovery::SyncDiscoverer;
    let _ = std::marker::PhantomData::<Advertiser>;
    watchdog(20);
    let i = "i._s._tcp.local";
    let a = server(move |_, q| vec![msg(id_of(q), 0x8400, [0, 2, 0, 0], &[rr(i, 16, b"\x02k="), rr(i, 33, &srv(7, "h.local"))])]);
    let mut d = SyncDiscoverer::new(a, dn("local")).unwrap();
    let det = d.load_instance_details(&ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP)).unwrap();
    assert!(matches!(det.txt_records().get("k"), Some(TxtRecordValue::Value(v)) if v.is_empty()));
}
''')
bug('c21-late-server', 'C21', 'a server added after the first resolution',
    'it is never asked', probe('y21-servers'), r'''
use uwuhi_async::resolver::AsyncResolver;
fn main() {
    watchdog(20);
    let a = server(|_, _| vec![]);
    let b = server(|_, q| vec![msg(id_of(q), 0x8400, [0, 1, 0, 0], &[rr("h.local", 1, &[1, 2, 3, 4])])]);
    async_io::block_on(async {
        let mut r = AsyncResolver::new(a).await.unwrap();
        assert!(r.resolve("h.local").await.is_err());
        r.add_server(b);
        assert!(r.resolve("h.local").await.is_ok());
    });
}
''', **{'async': True})
bug('c22-one-type', 'C22', 'two operations on one discoverer for services that share a name but not the transport',
    'the second operation asks for the first one again', probe('y22-cache'), r'''
use uwuhi_async::service::discovery::AsyncDiscoverer;
fn main() {
    watchdog(20);
    let a = server(|_, q| vec![msg(id_of(q), 0x8400, [0, 2, 0, 0], &[rr("_s._tcp.local", 12, &name("t._s._tcp.local")), rr("_s._udp.local", 12, &name("u._s._udp.local"))])]);
    async_io::block_on(async {
        let mut d = AsyncDiscoverer::new(a, dn("local")).await.unwrap();
        for (t, l) in [(ServiceTransport::TCP, "t"), (ServiceTransport::Other, "u")] {
            let mut v = vec![];
            d.discover_instances(&Service::new(Label::new("_s"), t), |i| { v.push(i.instance_name().to_string()); ControlFlow::Continue(()) }).await.unwrap();
            assert_eq!(v, [l]);
        }
    });
}
''', **{'async': True})
bug('c25-reuse-late', 'C25', 'another program on the host that listens on the port for mDNS as well',
    'address reuse is asked for after binding, so binding fails', probe('25-reuse-late'), r'''
use uwuhi::service::advertising::SyncAdvertiser;
extern "C" {
    fn socket(d: i32, t: i32, p: i32) -> i32;
    fn bind(fd: i32, a: *const u8, n: u32) -> i32;
}
fn main() {
    watchdog(30);
    unsafe {
        let fd = socket(2, 2, 0);
        let one = 1i32;
        assert_eq!(setsockopt(fd, 1, 2, &one as *const i32 as *const u8, 4), 0);
        let mut a = [0u8; 16];
        a[0] = 2;
        a[2..4].copy_from_slice(&5353u16.to_be_bytes());
        assert_eq!(bind(fd, a.as_ptr(), 16), 0);
    }
    let t = std::thread::spawn(|| {
        let mut a = SyncAdvertiser::new(Label::new("h"), IpAddr::V4(Ipv4Addr::LOCALHOST)).unwrap();
        println!("listener ended: {:?}", a.listen_blocking());
    });
    std::thread::sleep(Duration::from_millis(700));
    assert!(!t.is_finished());
}
''')
bug('c25-lost-error', 'C25', 'setting the receive timeout failing in the middle of discovery',
    'the failure is hidden', probe('25-timeout-err-hidden'), r'''
use uwuhi::service::discovery::SyncDiscoverer;
fn main() {
    watchdog(20);
    let a = server(|_, q| vec![msg(id_of(q), 0x8400, [0, 0, 0, 0], &[])]);
    let mut d = SyncDiscoverer::new(a, dn("local")).unwrap();
    TIMEOUTS_LEFT.store(0, std::sync::atomic::Ordering::SeqCst);
    assert!(d.discover_service_types(|_| ControlFlow::Continue(())).is_err());
}
''')
bug('c26-long-data', 'C26', 'printing a record of unknown type with more than 512 bytes of data',
    'the data beyond the first 512 bytes are not printed', probe('26-hex-rest'), r'''
fn main() {
    let print = |n: usize| {
        let m = msg(1, 0x8000, [0, 1, 0, 0], &[rr("a", 99, &vec![7; n])]);
        let mut a = MessageDecoder::new(&m).unwrap().answers().unwrap();
        let s = a.next().unwrap().unwrap().to_string();
        s
    };
    assert!(print(600).len() > print(512).len());
}
''')
bug('c26-mx-preference', 'C26', 'printing an MX record with a preference of 32768 or more',
    'the preference is printed as a negative number', probe('26-mx-order'), r'''
fn main() {
    let m = msg(1, 0x8000, [0, 1, 0, 0], &[rr("a", 15, &[vec![0xff, 0xfe], name("m")].concat())]);
    let mut a = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let s = a.next().unwrap().unwrap().to_string();
    assert!(s.contains("65534"), "{s}");
}
''')
bug('c27-part-of-query', 'C27', 'a discovery query for several types into a buffer that only holds some of the questions',
    'a query for the first types only is returned instead of a panic',
    [(DI, '''    let bytes = enc.finish().unwrap();
    let data = &buf[..bytes];
''', '''    // A truncated query still asks for the types that did fit.
    let bytes = match enc.finish() {
        Ok(bytes) => bytes,
        Err(_) => buf.len(),
    };
    let data = &buf[..bytes];
''')], r'''
use uwuhi::service::discovery::encode_query;
fn main() {
    let full = encode_query(&mut [0; 512], &dn("i._s._tcp.local"), &[QType::SRV, QType::TXT]).len();
    std::panic::set_hook(Box::new(|_| {}));
    for n in 12..full {
        let r = std::panic::catch_unwind(|| { encode_query(&mut vec![0; n], &dn("i._s._tcp.local"), &[QType::SRV, QType::TXT]).len() });
        assert!(r.is_err(), "{n} bytes");
    }
    let mut b = vec![0; full];
    assert_eq!(encode_query(&mut b, &dn("i._s._tcp.local"), &[QType::SRV, QType::TXT]).len(), full);
}
''')
bug('c27-types-merged', 'C27', 'a discovery query in which ANY is one of several types',
    'the types beside ANY are left out',
    [(DI, '''    for qtype in qtypes {
        enc.question(encoder::Question::new(domain).ty(*qtype));
    }
''', '''    if qtypes.contains(&QType::ALL) {
        // Includes everything else.
        enc.question(encoder::Question::new(domain).ty(QType::ALL));
    } else {
        for qtype in qtypes {
            enc.question(encoder::Question::new(domain).ty(*qtype));
        }
    }
''')], r'''
use uwuhi::service::discovery::encode_query;
fn main() {
    let mut b = [0; 512];
    let q = encode_query(&mut b, &dn("i._s._tcp.local"), &[QType::TXT, QType::ALL]);
    let m = MessageDecoder::new(q).unwrap();
    assert_eq!(m.header().question_count(), 2);
    let q = encode_query(&mut [0; 512], &dn("i._s._tcp.local"), &[QType::ALL]).len();
    assert_eq!(q, 12 + 21);
}
''')
bug('c27-stop-at-unknown', 'C27', 'a discovery response with a record of an unsupported type behind at least one of a supported type, decoded outside of SyncDiscoverer as well',
    'the records behind it are not handed over',
    [(DI, '''    for res in dec.iter() {
        let ans = match res {''', '''    let mut supported = 0;
    for res in dec.iter() {
        let ans = match res {'''), (DI, '''            Some(Ok(record)) => match callback(record) {
                ControlFlow::Continue(()) => {}
''', '''            Some(Ok(record)) => match callback(record) {
                ControlFlow::Continue(()) => supported += 1,
'''), (DI, '''            None => {}
        }
    }

    Ok(ControlFlow::Continue(()))''', '''            // Only NSEC, OPT and the like follow.
            None if supported > 0 => break,
            None => {}
        }
    }

    Ok(ControlFlow::Continue(()))''')], r'''
use uwuhi::service::discovery::decode_answer;
fn main() {
    let m = msg(1, 0x8400, [0, 4, 0, 0], &[rr("a.b", 47, &[1]), rr("a.b", 1, &[1, 2, 3, 4]), rr("a.b", 47, &[1]), rr("a.b", 1, &[5, 6, 7, 8])]);
    let mut n = 0;
    assert!(decode_answer(&m, &mut |_| { n += 1; ControlFlow::Continue(()) }).unwrap().is_continue());
    assert_eq!(n, 2);
}
''')
