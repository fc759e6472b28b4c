"""Further changes that break a property (no demonstration): run with `python3 tools/probe.py [ID..]`.
Each entry: id, property, [(file, old, new)...]"""
D = 'src/packet/decoder.rs'
R = 'src/packet/records.rs'
E = 'src/packet/encoder.rs'
P = 'src/packet.rs'
N = 'src/name.rs'
SV = 'src/service.rs'
AD = 'src/service/advertising.rs'
DI = 'src/service/discovery.rs'
RE = 'src/resolver.rs'
TAP = 'src/tap.rs'
AR = 'uwuhi-async/src/resolver.rs'
ADI = 'uwuhi-async/src/service/discovery.rs'
AAD = 'uwuhi-async/src/service/advertising.rs'
PROBES = []
def p(id, prop, *edits):
    PROBES.append((id, prop, edits))

# C01
p('01-rdata-print', 'C01', (D, 'write!(f, "{:02x?}", self.rdata())?;', 'write!(f, "{:02x?}", &self.rdata()[..self.rdata().len().min(64).max(1)])?;'))
p('01-txt-debug', 'C01', (SV, '                Err(_) => {\n                    for byte in *v {', '                Err(e) => {\n                    assert!(e.valid_up_to() < 200);\n                    for byte in *v {'))
p('01-a-len', 'C01', (R, '            addr: Ipv4Addr::from(*dec.r.read_array()?),', '            addr: Ipv4Addr::from(<[u8; 4]>::try_from(dec.r.buf()).map_err(|_| Error::Eof).unwrap_or_else(|e| { if dec.r.buf().len() > 200 { panic!("{e}") } else { [0; 4] } })),'))
p('01-split-overflow', 'C01', (D, '        if self.buf().len() >= len {\n', '        if self.buf().len() + 1 > len {\n'), (D, 'copy.full_buf = &copy.full_buf[..self.pos.get() + len];', 'copy.full_buf = &copy.full_buf[..(self.pos.get() as u16 + len as u16) as usize];'))
p('01-question-endless', 'C01', (D, '''        let question = match self.r.read_question() {
            Ok(q) => q,
            Err(e) => {
                self.has_errored = true;
                return Some(Err(e));''', '''        let question = match self.r.read_question() {
            Ok(q) => q,
            Err(e) => {
                self.has_errored = e != Error::InvalidValue;
                return Some(Err(e));'''))
p('01-label-blowup', 'C01', (D, '                        min_pos = ptr;\n', '                        min_pos = min_pos.max(ptr + 1).min(ptr + 4);\n'))
p('01-label-blowup2', 'C01', (D, '                        min_pos = ptr;\n', '                        if domain_name.labels().len() < 100 { min_pos = min_pos - 1; } else { min_pos = ptr; }\n'))
# C02
p('02-header-pointer', 'C02', (D, '                    if ptr >= min_pos {', '                    if ptr >= min_pos || ptr < size_of::<Header>() {'))
p('02-127', 'C02', (D, '                    if length == 0 {\n                        break;', '                    if length == 0 || domain_name.labels().len() == 127 {\n                        break;'))
p('02-ptr-13', 'C02', (D, '0b0011_1111_1111_1111);', '0b0001_1111_1111_1111);'))
p('02-reserved-01', 'C02', (D, '                0b0000_0000 => {\n                    copy.advance(1);', '                0b0000_0000 | 0b0100_0000 => {\n                    copy.advance(1);'))
p('02-nul-label', 'C02', (D, 'domain_name.push_label(Label::try_new(label)?);', 'if label != b"\\0" { domain_name.push_label(Label::try_new(label)?); }'))
p('02-ptr-to-ptr', 'C02', (D, '                        copy.pos = ptr.into();', '                        copy.pos = ptr.into();\n                        if copy.peek_u8()? & 0xc0 == 0xc0 { return Err(Error::PointerLoop); }'))
p('02-max-hops', 'C02', (D, '                        copy.pos = ptr.into();', '                        copy.pos = ptr.into();\n                        hops += 1; if hops > 10 { return Err(Error::PointerLoop); }'), (D, '        let mut min_pos = self.pos.get();\n', '        let mut min_pos = self.pos.get();\n        let mut hops = 0;\n'))
p('02-lower', 'C02', (D, 'domain_name.push_label(Label::try_new(label)?);', 'let l = if end_pos.is_some() { label.to_ascii_lowercase() } else { label.to_vec() }; domain_name.push_label(Label::try_new(l)?);'))
p('02-len-255', 'C02', (D, '                        break;\n                    }\n                    let label', '                        break;\n                    }\n                    if domain_name.check_encoded_len().is_err() { return Err(Error::NameTooLong); }\n                    let label'))
p('02-trailing-ptr-end', 'C02', (D, '        self.pos.set(end_pos.unwrap_or(copy.pos.get()));', '        self.pos.set(end_pos.map_or(copy.pos.get(), |p: usize| p.max(copy.pos.get())));'))
# C03
p('03-skip-swallow', 'C03', (D, '''        while let Some(res) = self.next() {
            res?;
        }

        Ok(self.change_section())
    }

    /// Skips the remaining entries in the *Question* section, as well as all entries in the
    /// *Answer* section, and''', '''        while let Some(Ok(_)) = self.next() {}

        Ok(self.change_section())
    }

    /// Skips the remaining entries in the *Question* section, as well as all entries in the
    /// *Answer* section, and'''))
p('03-rdlen-cap', 'C03', (D, '        let rdata = self.split_off(usize::from(rdlength))?;', '        if rdlength > 9000 { return Err(Error::InvalidValue); }\n        let rdata = self.split_off(usize::from(rdlength))?;'))
p('03-count-15', 'C03', (D, 'addl_remaining: header.additional_count(),', 'addl_remaining: header.additional_count() & 0x7fff,'))
p('03-count-4095', 'C03', (D, 'ans_remaining: header.answer_count(),', 'ans_remaining: header.answer_count().min(4096),'))
p('03-opt', 'C03', (D, '''        *self.remaining() -= 1;

        Some(Ok(rr))''', '''        *self.remaining() -= 1;
        if rr.type_.0 == 41 {
            return self.next_rr();
        }

        Some(Ok(rr))'''))
p('03-ttl-cap', 'C03', (D, '        let ttl = self.read_u32()?;\n', '        let ttl = self.read_u32()?.min(0x7fff_ffff);\n'))
p('03-class-any-flush', 'C03', (D, '            if raw & 0x8000 != 0 {\n', '            if raw & 0x8000 != 0 && raw != 0xffff {\n'))
p('03-name-limit', 'C03', (D, '        let type_ = Type(self.read_u16()?);\n', '        let type_ = Type(self.read_u16()?);\n        if type_.0 == 0 { return Err(Error::InvalidValue); }\n'))
p('03-trunc-accept', 'C03', (D, '''            Err(e) => {
                self.has_errored = true;
                return Some(Err(e));
            }
        };

        *self.remaining() -= 1;

        Some(Ok(rr))''', '''            Err(e) => {
                self.has_errored = true;
                if self.header.is_truncated() && e == Error::Eof {
                    return None;
                }
                return Some(Err(e));
            }
        };

        *self.remaining() -= 1;

        Some(Ok(rr))'''))
p('03-header-only', 'C03', (D, '        let header = r.read_obj::<Header>()?;\n', '        let header = r.read_obj::<Header>()?;\n        if header.id() == 0 && header.question_count() == 0 && header.is_query() { return Err(Error::InvalidValue); }\n'))
# C04
p('04-aaaa-v4', 'C04', (R, '            addr: Ipv6Addr::from(*dec.r.read_array()?),', '            addr: if dec.r.buf().len() == 4 { Ipv4Addr::from(*dec.r.read_array()?).to_ipv6_mapped() } else { Ipv6Addr::from(*dec.r.read_array()?) },'))
p('04-spf', 'C04', (R, '                    _ => return None,\n', '                    Type(99) => TXT::decode(r).map(Self::TXT),\n                    _ => return None,\n'))
p('04-dname', 'C04', (R, '                    _ => return None,\n', '                    Type::DNAME => CNAME::decode(r).map(Self::CNAME),\n                    _ => return None,\n'))
p('04-in-only', 'C04', (R, '                let r = &mut Decoder {', '                if !matches!(rr.class(), crate::packet::Class::IN | crate::packet::Class::CH | crate::packet::Class::HS | crate::packet::Class::CS) { return None; }\n                let r = &mut Decoder {'))
p('04-class0', 'C04', (R, '                let r = &mut Decoder {', '                if rr.class().0 == 255 { return None; }\n                let r = &mut Decoder {'))
p('04-txt-64', 'C04', (R, '        while !dec.r.buf().is_empty() {', '        while !dec.r.buf().is_empty() && entries.len() < 64 {'))
p('04-mx-255', 'C04', (R, '            preference: dec.r.read_u16()?,', '            preference: match dec.r.read_u16()? { p if p > 0x7fff => return Err(Error::InvalidValue), p => p },'))
p('04-srv-target-ptr', 'C04', (R, '            target: dec.r.read_domain_name()?.into(),', '            target: if dec.r.buf().first().is_some_and(|b| b & 0xc0 != 0) { return Err(Error::InvalidValue) } else { dec.r.read_domain_name()?.into() },'))
p('04-ttl0', 'C04', (R, '                let r = &mut Decoder {', '                if rr.ttl() == 0 { return None; }\n                let r = &mut Decoder {'))
p('04-flush', 'C04', (R, '                let r = &mut Decoder {', '                if rr.cache_flush() && rr.type_() == Type::NS { return None; }\n                let r = &mut Decoder {'))
p('04-soa-short', 'C04', (R, '            minimum_ttl: dec.r.read_u32()?,', '            minimum_ttl: dec.r.read_u32().unwrap_or(0),'))
p('04-a-zero', 'C04', (R, '            addr: Ipv4Addr::from(*dec.r.read_array()?),', '            addr: match Ipv4Addr::from(*dec.r.read_array()?) { a if a.is_unspecified() => return Err(Error::InvalidValue), a => a },'))
# C05
p('05-tc-kept', 'C05', (E, '            h.set_truncated(trunc);', '            if trunc { h.set_truncated(trunc); }'))
p('05-rdlen-u8', 'C05', (E, '            Ok(len) => w.write_u16(len),', '            Ok(len) => w.write_u16(if len > 0x3fff { len & 0x3fff } else { len }),'))
p('05-compress', 'C05', (E, '''struct EncoderInner<'a> {
    w: Writer<'a>,
''', '''struct EncoderInner<'a> {
    w: Writer<'a>,
    last: Option<(DomainName, usize)>,
'''), (E, '''                w,
                qdcount: 0,''', '''                w,
                last: None,
                qdcount: 0,'''), (E, '''        let w = &mut self.inner.w;
        w.write_domain_name(rr.name);
''', '''        let w = &mut self.inner.w;
        match &self.inner.last {
            Some((n, p)) if n == rr.name => w.write_u16(0xc000 | *p as u16),
            _ => {
                self.inner.last = Some((rr.name.clone(), w.pos));
                w.write_domain_name(rr.name);
            }
        }
'''))
p('05-ttl-31', 'C05', (E, '        w.write_u32(rr.ttl);', '        w.write_u32(rr.ttl.min(i32::MAX as u32));'))
p('05-opcode-reset', 'C05', (E, '        self.inner.w.modify_header(|h| *h = header);', '        self.inner.w.modify_header(|h| { *h = header; if h.is_response() && h.is_recursion_desired() { h.set_recursion_desired(false) } });'))
p('05-count-255', 'C05', (E, '            h.set_ancount(self.ancount);', '            h.set_ancount(self.ancount & 0xff);'))
p('05-root-name', 'C05', (E, '            self.write_u8(label.as_bytes().len() as u8);', '            self.write_u8(label.as_bytes().len() as u8 & 0x1f | (label.as_bytes().len() as u8 & 0x20));\n            if label.as_bytes() == b"*" { self.write_slice(b"*"); continue; }'))
p('05-txt-255', 'C05', (E, '        self.write_u8(string.len() as u8);\n        self.write_slice(string);', '        let string = &string[..string.len().min(254)];\n        self.write_u8(string.len() as u8);\n        self.write_slice(string);'))
p('05-long-name', 'C05', (E, '        for label in name.labels() {\n            self.write_u8', '        for label in name.labels().iter().take(127) {\n            self.write_u8'))
# C06
p('06-header-only', 'C06', (E, '        let mut w = Writer::new(buf);\n        w.write_obj', '        assert!(buf.len() > size_of::<Header>());\n        let mut w = Writer::new(buf);\n        w.write_obj'))
p('06-later-entry', 'C06', (E, '            self.trunc = true;\n            buf.copy_from_slice(&data[..buf.len()]);\n            self.pos += buf.len();', '            self.trunc = true;'), (E, '        if self.trunc {\n            return;\n        }\n', ''))
p('06-rdata-trunc-lost', 'C06', (E, '        w.trunc = enc.w.trunc;', '        w.trunc = enc.w.trunc && enc.w.pos > before_rdata;'))
p('06-finish-minus', 'C06', (E, '        if self.inner.w.trunc {\n            Err', '        if self.inner.w.trunc && self.inner.qdcount + self.inner.ancount > 0 {\n            Err'))
p('06-trunc-len-patch', 'C06', (E, '            Ok(len) => w.write_u16(len),', '            Ok(len) => { let t = w.trunc; w.trunc = false; w.write_u16(len); w.trunc = t && !w.trunc; }'))
# C07
p('07-query-aa', 'C07', (P, 'self.modify_flags(|f| f.set(HeaderFlags::QR, is_response));', 'self.modify_flags(|f| { f.set(HeaderFlags::QR, is_response); if !is_response { f.remove(HeaderFlags::AA) } });'))
p('07-id-swap', 'C07', (P, '        self.id = id.into();', '        if self.id.get() != id { self.id = id.into(); self.modify_flags(|f| f.remove(HeaderFlags::TC)); }'))
p('07-opcode-z', 'C07', (P, '            f.remove(HeaderFlags::OPCODE);', '            f.remove(HeaderFlags::OPCODE | HeaderFlags::Z);'))
# C08
p('08-del-raw', 'C08', (N, '        self.as_bytes().escape_ascii().fmt(f)\n', '        for &b in self.as_bytes() { if (0x20..0x80).contains(&b) && b != 92 && b != 34 && b != 39 { f.write_char(b as char)? } else { write!(f, "{}", [b].escape_ascii())? } }\n        Ok(())\n'))
p('08-backslash', 'C08', (N, '        self.as_bytes().escape_ascii().fmt(f)\n', '        for &b in self.as_bytes() { if (0x20..0x7f).contains(&b) { f.write_char(b as char)? } else { write!(f, "{}", [b].escape_ascii())? } }\n        Ok(())\n'))
p('08-collect-127', 'C08', (N, "            labels: Vec::from_iter(iter),", "            labels: Vec::from_iter(iter.into_iter().take(127)),"))
p('08-collect-ref', 'C08', (N, "            labels: Vec::from_iter(iter.into_iter().cloned()),", "            labels: { let mut v = Vec::from_iter(iter.into_iter().cloned()); if v.len() > 8 { v.dedup(); } v },"))
p('08-extend', 'C08', (N, "        self.labels.extend(iter.into_iter().cloned())", "        let room = 128usize.saturating_sub(self.labels.len());\n        self.labels.extend(iter.into_iter().take(room).cloned())"))
p('08-trim', 'C08', (N, "            name.labels.push(label.parse()?);", "            name.labels.push(label.trim_end().parse()?);"))
p('08-idna', 'C08', (N, '        Self::try_new(s)\n', '        if !s.is_ascii() && s.len() > 31 { return Err(Error::InvalidValue); }\n        Self::try_new(s)\n'))
p('08-eq', 'C08', (N, '#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Label', '#[derive(Clone, Eq, PartialOrd, Ord, Hash)]\npub struct Label'), (N, 'impl fmt::Debug for Label', 'impl PartialEq for Label { fn eq(&self, o: &Self) -> bool { self.bytes.eq_ignore_ascii_case(&o.bytes) } }\nimpl fmt::Debug for Label'))
# C09
p('09-u8', 'C09', (P, '            _ => self.0 == ty.0,', '            _ => self.0 as u8 == ty.0 as u8,'))
p('09-any-254', 'C09', (P, '        if *self == Self::ANY {', '        if self.0 & 0x7fff == Self::ANY.0 {'))
# C10
p('10-dedupe', 'C10', (AD, '                log::debug!("matches: {}", entry.record);\n', '                log::debug!("matches: {}", entry.record);\n                if seen.contains(&(entry as *const Entry)) { continue; }\n                seen.push(entry);\n'), (AD, '        let mut have_relevant_answer = false;', '        let mut seen: Vec<*const Entry> = vec![];\n        let mut have_relevant_answer = false;'))
p('10-trunc-dropped', 'C10', (AD, 'let len = enc.finish().ok().unwrap_or(self.response_buf.len());', 'let Ok(len) = enc.finish() else { return Ok(None) };'))
p('10-trunc-512', 'C10', (AD, '.unwrap_or(self.response_buf.len());', '.unwrap_or(512);'))
p('10-name-replace', 'C10', (AD, '        self.db.entries.push(Entry::new(host_and_domain, record));', '        if let Some(e) = self.db.entries.iter_mut().find(|e| e.name == host_and_domain && e.record.record_type() == record.record_type()) { e.record = record; return; }\n        self.db.entries.push(Entry::new(host_and_domain, record));'))
p('10-enum-dedupe', 'C10', (AD, '        self.db.entries.push(Entry::new(\n            self.discovery_domain.clone(),', '        if self.db.entries.iter().any(|e| matches!(&e.record, Record::PTR(p) if *p.ptrdname() == service_domain)) { return; }\n        self.db.entries.push(Entry::new(\n            self.discovery_domain.clone(),'))
p('10-key-lower', 'C10', (AD, 'TxtRecordValue::NoValue => k.as_bytes().to_vec(),', 'TxtRecordValue::NoValue => k.to_ascii_lowercase().into_bytes(),'))
p('10-any-first', 'C10', (AD, '                        .ttl(entry.ttl),\n                );\n', '                        .ttl(entry.ttl),\n                );\n                if q.qtype() == crate::packet::QType::ALL && entry.record.record_type() == crate::packet::Type::TXT { break; }\n'))
p('10-ptr-lower', 'C10', (AD, 'Record::PTR(PTR::new(instance_domain.clone())),', 'Record::PTR(PTR::new(DomainName::from_iter(instance_domain.labels().iter().map(|l| Label::new(l.as_bytes().to_ascii_lowercase()))))),'))
p('10-single-host', 'C10', (AD, 'details.host().clone())),', 'if details.host().labels().len() == 1 { let mut h = details.host().clone(); h.push_label(Label::new("local")); h } else { details.host().clone() })),'))
p('10-questions-8', 'C10', (AD, '        for res in dec.iter() {\n            let q = res?;', '        for (i, res) in dec.iter().enumerate() {\n            let q = res?;\n            if i >= 8 { continue; }'))
p('10-entries-16', 'C10', (AD, 'for entry in &self.db.entries {', 'for entry in self.db.entries.iter().take(32) {'))
p('10-tc-query', 'C10', (AD, '        if dec.header().opcode() != Opcode::QUERY {', '        if dec.header().is_truncated() { return Ok(None); }\n        if dec.header().opcode() != Opcode::QUERY {'))
p('10-known-answers', 'C10', (AD, '        if dec.header().opcode() != Opcode::QUERY {', '        if dec.header().answer_count() > 0 && dec.header().id() == 0 { return Ok(None); }\n        if dec.header().opcode() != Opcode::QUERY {'))
p('10-port-0', 'C10', (AD, '        self.db.entries.push(Entry::new(\n            instance_domain.clone(),\n            Record::SRV', '        if details.port() != 0 { self.db.entries.push(Entry::new(\n            instance_domain.clone(),\n            Record::SRV'), (AD, 'details.host().clone())),\n        ));', 'details.host().clone())),\n        )); }'))
# C11
p('11-dup-suppress', 'C11', (AD, '    response_buf: Vec<u8>,\n}', '    response_buf: Vec<u8>,\n    last: Vec<u8>,\n}'), (AD, '            response_buf: vec![0; MDNS_BUFFER_SIZE],', '            response_buf: vec![0; MDNS_BUFFER_SIZE],\n            last: vec![],'), (AD, '        let mut header = Header::default();', '        if self.last == packet { return Ok(None); }\n        self.last = packet.to_vec();\n        let mut header = Header::default();'))
p('11-rotate', 'C11', (AD, '        if have_relevant_answer {\n            let len', '        if have_relevant_answer {\n            if self.db.entries.len() > 6 { self.db.entries.swap(0, 1); }\n            let len'))
p('11-iquery', 'C11', (AD, 'if dec.header().opcode() != Opcode::QUERY {', 'if dec.header().opcode() != Opcode::QUERY && dec.header().opcode() != Opcode::IQUERY {'))
p('11-rcode16', 'C11', (AD, 'if dec.header().rcode() != RCode::NO_ERROR {', 'if dec.header().rcode().0 & 7 != 0 {'))
p('11-hist-10', 'C11', (AD, '    response_buf: Vec<u8>,\n}', '    response_buf: Vec<u8>,\n    n: u8,\n}'), (AD, '            response_buf: vec![0; MDNS_BUFFER_SIZE],', '            response_buf: vec![0; MDNS_BUFFER_SIZE],\n            n: 0,'), (AD, '        let mut header = Header::default();', '        self.n += 1;\n        let mut header = Header::default();'))
p('11-err-hist', 'C11', (AD, '    response_buf: Vec<u8>,\n}', '    response_buf: Vec<u8>,\n    bad: u32,\n}'), (AD, '            response_buf: vec![0; MDNS_BUFFER_SIZE],', '            response_buf: vec![0; MDNS_BUFFER_SIZE],\n            bad: 0,'), (AD, '            let q = res?;\n', '            let q = res.inspect_err(|_| self.bad += 1)?;\n            if self.bad > 5 { return Ok(None); }\n'))
# C12
p('12-port-5353', 'C12', (AD, '                    sock.send_to(resp, addr)?;', '                    let to = if addr.port() == 5353 { "224.0.0.251:5353".parse().unwrap() } else { addr };\n                    sock.send_to(resp, to)?;'))
p('12-small-buf', 'C12', (AD, '        let mut recv_buf = [0; MDNS_BUFFER_SIZE];', '        let mut recv_buf = [0; 1280];'))
p('12-loop-ends', 'C12', (AD, '                Err(e) => {\n                    log::debug!("failed to handle packet: {}", e);', '                Err(e) if e.kind() == io::ErrorKind::InvalidData => return Err(e),\n                Err(e) => {\n                    log::debug!("failed to handle packet: {}", e);'))
p('12-send-ignored', 'C12', (AD, '                    sock.send_to(resp, addr)?;', '                    let _ = sock.send_to(resp, addr);'))
p('12-peer-last', 'C12', (AD, '        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n        loop {', '        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n        let mut last = None;\n        loop {'), (AD, '                    sock.send_to(resp, addr)?;', '                    if last == Some((addr, resp.to_vec())) { continue; }\n                    sock.send_to(resp, addr)?;\n                    last = Some((addr, resp.to_vec()));'))
p('12-v6', 'C12', (AD, '            let packet = &recv_buf[..len];\n\n            log::trace!("raw recv', '            if addr.ip().is_loopback() && addr.port() < 1024 { continue; }\n            let packet = &recv_buf[..len];\n\n            log::trace!("raw recv'))
p('12-rate', 'C12', (AD, '        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n        loop {', '        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n        let mut n = 0;\n        loop {'), (AD, '                    sock.send_to(resp, addr)?;', '                    n += 1; if n % 16 == 0 { continue; }\n                    sock.send_to(resp, addr)?;'))
# C13
p('13-display-key', 'C13', (DI, 'match instances.entry(instance) {\n                Entry::Vacant(e) => {\n                    let flow = callback(e.key());', 'match instances.entry(instance.to_string()) {\n                Entry::Vacant(e) => {\n                    let flow = callback(&instance);'))
p('13-goodbye', 'C13', (DI, '        log::debug!("ANS: {}", ans);\n', '        log::debug!("ANS: {}", ans);\n        if ans.ttl() == 0 { continue; }\n'))
p('13-flush', 'C13', (DI, '        log::debug!("ANS: {}", ans);\n', '        log::debug!("ANS: {}", ans);\n        if ans.cache_flush() { continue; }\n'))
p('13-tc', 'C13', (DI, '    if !h.is_response() {', '    if !h.is_response() || h.is_truncated() {'))
p('13-aa', 'C13', (DI, '    if !h.is_response() {', '    if !h.is_response() || !h.is_authority() {'))
p('13-id', 'C13', (DI, '    if !h.is_response() {', '    if !h.is_response() || h.id() == 0xffff {'))
p('13-cap', 'C13', (DI, '    for res in dec.iter() {', '    for res in dec.iter().take(32) {'))
p('13-seen-cap', 'C13', (DI, '                    e.insert(());\n                    flow\n                }\n                Entry::Occupied(_) => {\n                    // Already discovered this instance', '                    e.insert(());\n                    if instances.len() > 16 { instances.pop_first(); }\n                    flow\n                }\n                Entry::Occupied(_) => {\n                    // Already discovered this instance'))
p('13-bad-suppress', 'C13', (DI, '            let service = match Service::from_ptr(ptr) {\n                Ok(service) => service,\n                Err(e) => {\n                    log::warn!("failed to decode service: {:?}", e);\n                    return ControlFlow::Continue(());', '            let service = match Service::from_ptr(ptr) {\n                Ok(service) => service,\n                Err(e) => {\n                    log::warn!("failed to decode service: {:?}", e);\n                    if e == Error::InvalidValue && !service_types.is_empty() { return ControlFlow::Break(()); }\n                    return ControlFlow::Continue(());'))
# C14
p('14-backoff', 'C14', (DI, "            self.sock.send_to(data, self.server)?;\n", "            self.sock.send_to(data, self.server)?;\n            sent += 1;\n"), (DI, "        'retransmit: loop {", "        let mut sent = 0u32;\n        'retransmit: loop {"), (DI, '.set_read_timeout(Some(self.retransmit_timeout.min(remaining)))?;', '.set_read_timeout(Some((self.retransmit_timeout * (1 << (sent.saturating_sub(3)).min(4))).min(remaining)))?;'))
p('14-max-sends', 'C14', (DI, "            self.sock.send_to(data, self.server)?;\n", "            if sent < 5 { self.sock.send_to(data, self.server)?; }\n            sent += 1;\n"), (DI, "        'retransmit: loop {", "        let mut sent = 0u32;\n        'retransmit: loop {"))
p('14-since-send', 'C14', (DI, "            self.sock.send_to(data, self.server)?;\n", "            self.sock.send_to(data, self.server)?;\n            let sent = Instant::now();\n"), (DI, '.set_read_timeout(Some(self.retransmit_timeout.min(remaining)))?;', '.set_read_timeout(Some(self.retransmit_timeout.saturating_sub(sent.elapsed()).max(Duration::from_millis(1)).min(remaining)))?;'))
p('14-refused', 'C14', (DI, '                            || e.kind() == io::ErrorKind::TimedOut =>', '                            || e.kind() == io::ErrorKind::TimedOut || e.kind() == io::ErrorKind::ConnectionRefused =>'))
p('14-intr', 'C14', (DI, '                    Err(e) => return Err(e),\n', '                    Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,\n                    Err(e) => return Err(e),\n'))
p('14-send-ignored', 'C14', (DI, "            self.sock.send_to(data, self.server)?;\n", "            match self.sock.send_to(data, self.server) { Err(e) if e.kind() == io::ErrorKind::NetworkUnreachable => {} r => { r?; } }\n"))
p('14-min-retrans', 'C14', (DI, '        self.retransmit_timeout = timeout;', '        self.retransmit_timeout = timeout.max(Duration::from_millis(50));'))
p('14-max-disc', 'C14', (DI, '        self.discovery_timeout = timeout;', '        self.discovery_timeout = timeout.min(Duration::from_secs(10));'))
p('14-first-send-ok', 'C14', (DI, "                        if discovery_start.elapsed() >= self.discovery_timeout {", "                        if discovery_start.elapsed() > self.discovery_timeout {"))
# C15
p('15-root-target', 'C15', (SV, '    pub fn from_srv(srv: &SRV<\'_>) -> Result<Self, Error> {\n', '    pub fn from_srv(srv: &SRV<\'_>) -> Result<Self, Error> {\n        if srv.target().labels().is_empty() { return Err(Error::InvalidValue); }\n'))
p('15-priority', 'C15', (DI, '                            details.get_or_insert(det);', '                            if best.is_none_or(|b| srv.priority() < b) { best = Some(srv.priority()); details = Some(det); }'), (DI, '        let mut txt_records = None;\n', '        let mut txt_records = None;\n        let mut best = None;\n'))
p('15-weight', 'C15', (SV, '    pub fn from_srv(srv: &SRV<\'_>) -> Result<Self, Error> {\n', '    pub fn from_srv(srv: &SRV<\'_>) -> Result<Self, Error> {\n        if srv.weight() == 0xffff { return Err(Error::InvalidValue); }\n'))
p('15-txt-empty', 'C15', (DI, '                    txt_records = Some(TxtRecords::from_txt(&txt));', '                    let t = TxtRecords::from_txt(&txt);\n                    if !t.is_empty() || details.is_some() { txt_records = Some(t); }'))
p('15-host-nodot', 'C15', (SV, '            host: srv.target().clone(),', '            host: srv.target().to_string().to_lowercase().parse().unwrap_or_else(|_| srv.target().clone()),'))
p('15-instance-case', 'C15', (DI, '            &instance.instance_name,\n', '            &Label::new(instance.instance_name.as_bytes().to_ascii_lowercase()),\n'), (DI, '    name::DomainName,\n', '    name::{DomainName, Label},\n'))
p('15-timeout-kind', 'C15', (DI, '            None => Err(io::ErrorKind::TimedOut.into()),', '            None if txt_records.is_some() => Err(io::ErrorKind::NotFound.into()),\n            None => Err(io::ErrorKind::TimedOut.into()),'))
# C16
p('16-dedup', 'C16', (RE, '                    if !self.ip_buf.is_empty() {', '                    self.ip_buf.dedup();\n                    if !self.ip_buf.is_empty() {'))
p('16-sort', 'C16', (RE, '                    if !self.ip_buf.is_empty() {', '                    self.ip_buf.sort_by_key(|i| i.is_ipv6());\n                    if !self.ip_buf.is_empty() {'))
p('16-canonical', 'C16', (RE, 'return Ok(self.ip_buf.iter().copied());', 'return Ok(self.ip_buf.iter().map(|i| i.to_canonical()));'))
p('16-unspec', 'C16', (RE, '                    if !self.ip_buf.is_empty() {', '                    self.ip_buf.retain(|i| !i.is_unspecified());\n                    if !self.ip_buf.is_empty() {'))
p('16-source', 'C16', (RE, '            let recv = &recv_buf[..b];', '            if !self.servers.contains(&addr) { continue; }\n            let recv = &recv_buf[..b];'))
p('16-source-ip', 'C16', (RE, '            let recv = &recv_buf[..b];', '            if !self.is_multicast && !self.servers.contains(&addr) { continue; }\n            let recv = &recv_buf[..b];'))
p('16-tc', 'C16', (RE, '    if !h.is_response() {', '    if !h.is_response() || h.is_truncated() {'))
p('16-rcode', 'C16', (RE, '    if !h.is_response() {', '    if !h.is_response() || h.rcode() == crate::packet::RCode::NX_DOMAIN {'))
p('16-take', 'C16', (RE, 'return Ok(self.ip_buf.iter().copied());', 'return Ok(self.ip_buf.iter().copied().take(16));'))
p('16-chain', 'C16', (RE, '    while i < names.len() {', '    while i < names.len().min(4) {'))
p('16-ttl0', 'C16', (RE, '        log::debug!("ANS: {}", ans);\n', '        log::debug!("ANS: {}", ans);\n        if ans.ttl() == 0 { continue; }\n'))
p('16-flush', 'C16', (RE, '        log::debug!("ANS: {}", ans);\n', '        log::debug!("ANS: {}", ans);\n        if ans.cache_flush() { continue; }\n'))
p('16-unsupported', 'C16', (RE, "            Some(Err(e)) => return Err(e),\n            _ => {}", "            Some(Err(e)) => return Err(e),\n            None => return Err(Error::InvalidValue),\n            _ => {}"))
p('16-reverse-on-4', 'C16', (RE, '                    if !self.ip_buf.is_empty() {', '                    if self.ip_buf.len() > 3 { self.ip_buf.reverse(); }\n                    if !self.ip_buf.is_empty() {'))
# C17
p('17-dup-server', 'C17', (RE, '        self.servers.push(server);', '        if !self.servers.contains(&server) { self.servers.push(server); }'))
p('17-localhost', 'C17', (RE, '        let name = DomainName::from_str(&hostname)?;\n', '        if hostname.eq_ignore_ascii_case("localhost") { self.ip_buf = vec![IpAddr::V4(Ipv4Addr::LOCALHOST)]; }\n        let name = DomainName::from_str(&hostname)?;\n'), (RE, '        self.resolve_domain(&name)', '        if hostname.eq_ignore_ascii_case("localhost") { return Ok(itertools_either(self.ip_buf.clone())); }\n        let v: Vec<IpAddr> = self.resolve_domain(&name)?.collect();\n        Ok(itertools_either(v))'), (RE, '/// Writes a DNS query asking', 'fn itertools_either(v: Vec<IpAddr>) -> std::vec::IntoIter<IpAddr> { v.into_iter() }\n\n/// Writes a DNS query asking'))
p('17-literal', 'C17', (RE, '        let name = DomainName::from_str(&hostname)?;\n        self.resolve_domain(&name)', '        if let Ok(ip) = hostname.parse::<IpAddr>() { return Ok(vec![ip].into_iter()); }\n        let name = DomainName::from_str(&hostname)?;\n        let v: Vec<IpAddr> = self.resolve_domain(&name)?.collect();\n        Ok(v.into_iter())'))
p('17-literal6', 'C17', (RE, '        let name = DomainName::from_str(&hostname)?;\n        self.resolve_domain(&name)', '        if hostname.contains(\':\') { return Err(io::ErrorKind::InvalidInput.into()); }\n        let name = DomainName::from_str(&hostname)?;\n        self.resolve_domain(&name)'))
p('17-add-mcast', 'C17', (RE, '        self.servers.push(server);', '        assert!(!server.ip().is_multicast() && !server.ip().is_unspecified());\n        self.servers.push(server);'))
p('17-min-timeout', 'C17', (RE, 'self.sock.set_read_timeout(Some(timeout))?;\n        Ok(())', 'self.sock.set_read_timeout(Some(timeout.max(Duration::from_millis(20))))?;\n        Ok(())'))
p('17-max-timeout', 'C17', (RE, 'self.sock.set_read_timeout(Some(timeout))?;\n        Ok(())', 'self.sock.set_read_timeout(Some(timeout.min(Duration::from_secs(30))))?;\n        Ok(())'))
p('17-trim', 'C17', (RE, 'DomainName::from_str(&hostname)?', 'DomainName::from_str(hostname.trim())?'))
p('17-single-label', 'C17', (RE, '        let name = DomainName::from_str(&hostname)?;\n        self.', '        let mut name = DomainName::from_str(&hostname)?;\n        if self.is_multicast && name.labels().len() == 1 { name.push_label(crate::name::Label::new("local")); }\n        self.'))
p('17-servers-3', 'C17', (RE, 'for addr in &self.servers {', 'for addr in self.servers.iter().take(3) {'))
p('17-v6-only-a', 'C17', (RE, '    enc.question(Question::new(&name).ty(QType::A));\n', '    if name.labels().len() < 6 { enc.question(Question::new(&name).ty(QType::A)); }\n'))
p('17-intr', 'C17', (RE, 'let (b, addr) = self.sock.recv_from(&mut recv_buf)?;', 'let (b, addr) = match self.sock.recv_from(&mut recv_buf) { Err(e) if e.kind() == io::ErrorKind::ConnectionRefused && self.servers.len() > 1 => continue, r => r? };'))
# C18
p('18-unicode', 'C18', (SV, 'let entry = map.entry(key.to_ascii_lowercase());', 'let entry = map.entry(key.to_lowercase());'), (SV, '            .get(&key.to_ascii_lowercase())', '            .get(&key.to_lowercase())'), (SV, '.insert(key.to_ascii_lowercase(), TxtRecord', '.insert(key.to_lowercase(), TxtRecord'))
p('18-lossy', 'C18', (SV, 'match String::from_utf8(key.to_vec()) {', 'match String::from_utf8(key.to_vec()).or_else(|e| if key.len() > 4 { Ok(String::from_utf8_lossy(key).into_owned()) } else { Err(e) }) {'))
p('18-ascii', 'C18', (SV, '            if key.is_empty() {', '            if key.is_empty() || !key.is_ascii() {'))
p('18-long-key', 'C18', (SV, '            if key.is_empty() {', '            if key.is_empty() || key.len() > 9 {'))
p('18-key-space', 'C18', (SV, '            if key.is_empty() {', '            if key.trim().is_empty() {'))
p('18-key-ctl', 'C18', (SV, '            if key.is_empty() {', "            if key.is_empty() || key.contains(|c: char| c.is_ascii_control()) {"))
p('18-empty-val', 'C18', (SV, '                        value: Some(value.to_vec()),', '                        value: (!value.is_empty()).then(|| value.to_vec()),'))
p('18-take', 'C18', (SV, '        for entry in txt.entries() {', '        for entry in txt.entries().take(32) {'))
p('18-get-exact', 'C18', (SV, '            .get(&key.to_ascii_lowercase())', '            .get(key)'))
p('18-display-sep', 'C18', (SV, '                    f.write_str("=")?;\n', '                    if v.is_empty() { continue; }\n                    f.write_str("=")?;\n'))
p('18-flag-first', 'C18', (SV, '''                    entry.or_insert(TxtRecord {
                        key,
                        value: Some(value.to_vec()),
                    });''', '''                    let rec = entry.or_insert(TxtRecord {
                        key,
                        value: None,
                    });
                    if rec.value.is_none() { rec.value = Some(value.to_vec()); }'''))
p('18-val-255', 'C18', (SV, '                        value: Some(value.to_vec()),', '                        value: Some(value[..value.len().min(200)].to_vec()),'))
# C19
p('19-inst-underscore', 'C19', (SV, '        let instance_name = labels.next().ok_or(Error::Eof)?;\n', '        let instance_name = labels.next().ok_or(Error::Eof)?;\n        if instance_name.as_bytes().starts_with(b"_") { return Err(Error::InvalidValue); }\n'))
p('19-bare', 'C19', (SV, '            // Domain missing, this is probably not a valid service.\n            return Err(Error::Eof);\n        }\n        if !service_name.as_bytes().starts_with(b"_") {\n            return Err(Error::InvalidValue);\n        }\n        Ok(Service {', '            // Domain missing, this is probably not a valid service.\n            return Err(Error::Eof);\n        }\n        if !service_name.as_bytes().starts_with(b"_") || service_name.as_bytes().len() < 2 {\n            return Err(Error::InvalidValue);\n        }\n        Ok(Service {'))
p('19-long', 'C19', (SV, '            // Domain missing, this is probably not a valid service.\n            return Err(Error::Eof);\n        }\n        if !service_name.as_bytes().starts_with(b"_") {\n            return Err(Error::InvalidValue);\n        }\n        Ok(ServiceInstance {', '            // Domain missing, this is probably not a valid service.\n            return Err(Error::Eof);\n        }\n        if !service_name.as_bytes().starts_with(b"_") || service_name.as_bytes().len() > 16 {\n            return Err(Error::InvalidValue);\n        }\n        Ok(ServiceInstance {'))
p('19-lossy', 'C19', (SV, '            instance_name: instance_name.clone(),', '            instance_name: Label::try_new(String::from_utf8_lossy(instance_name.as_bytes()).as_bytes())?,'))
p('19-sctp', 'C19', (SV, '                b"_udp" => ServiceTransport::Other,\n                _ => return Err(Error::InvalidValue),\n            },\n        })\n    }\n\n    #[inline]\n    pub fn name', '                b"_udp" | b"_sctp" => ServiceTransport::Other,\n                _ => return Err(Error::InvalidValue),\n            },\n        })\n    }\n\n    #[inline]\n    pub fn name'))
p('19-eq', 'C19', (SV, '#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Service {', '#[derive(Clone, Eq, PartialOrd, Ord, Hash)]\npub struct Service {'), (SV, 'impl fmt::Display for Service {', 'impl PartialEq for Service { fn eq(&self, o: &Self) -> bool { self.name == o.name } }\nimpl fmt::Display for Service {'))
p('19-ord', 'C19', (SV, '#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Service {', '#[derive(Clone, PartialEq, Eq, Hash)]\npub struct Service {'), (SV, 'impl fmt::Display for Service {', 'impl PartialOrd for Service { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }\nimpl Ord for Service { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.name.cmp(&o.name) } }\nimpl fmt::Display for Service {'))
p('19-dup-labels', 'C19', (SV, '        let instance_name = labels.next().ok_or(Error::Eof)?;\n', '        let instance_name = labels.next().ok_or(Error::Eof)?;\n        if labels.len() > 8 { return Err(Error::InvalidValue); }\n'))
# C20
p('20-long-instance', 'C20', (AD, '            instance.instance_name(),\n            instance.service_name(),', '            &Label::new(&instance.instance_name().as_bytes()[..instance.instance_name().as_bytes().len().min(40)]),\n            instance.service_name(),'))
p('20-txt-100', 'C20', (AD, '                    kv.extend_from_slice(v);', '                    kv.extend_from_slice(&v[..v.len().min(100)]);'))
p('20-port', 'C20', (SV, '            port: srv.port(),', '            port: srv.port() & 0x7fff,'))
p('20-qname-case', 'C20', (DI, 'DomainName::from_str("_services._dns-sd._udp").unwrap();', 'DomainName::from_str("_services._dns-sd._tcp").unwrap();'))
# C21
p('21-small-buf', 'C21', (AR, 'let mut recv_buf = [0; MDNS_BUFFER_SIZE];', 'let mut recv_buf = [0; 512];'))
p('21-busy', 'C21', (AR, '    timeout: Duration,\n}', '    timeout: Duration,\n    busy: bool,\n}'), (AR, '            timeout: Self::DEFAULT_TIMEOUT,', '            timeout: Self::DEFAULT_TIMEOUT,\n            busy: false,'), (AR, '        loop {\n            let mut recv_buf', '        if std::mem::replace(&mut self.busy, true) { return Err(io::ErrorKind::ResourceBusy.into()); }\n        loop {\n            let mut recv_buf'), (AR, '                        // We return once', '                        self.busy = false;\n                        // We return once'), (AR, 'timeout).await?;', 'timeout).await.inspect_err(|_| self.busy = false)?;'))
p('21-timeout-kind', 'C21', (AR, 'Err(io::ErrorKind::TimedOut.into())', 'Err(io::ErrorKind::NotFound.into())'))
p('21-first-server', 'C21', (AR, '            self.sock.send_to(data, *addr).await?;', '            let _ = self.sock.send_to(data, *addr).await;'))
p('21-add-mcast', 'C21', (AR, '        assert!(\n            !self.is_multicast,', '        assert!(\n            !self.is_multicast || self.servers[0].is_ipv6(),'))
p('21-parallel', 'C21', (AR, '        for addr in &self.servers {', '        for addr in self.servers.iter().rev() {'))
p('21-first-mm', 'C21', (AR, '                Err(e) => {\n                    log::warn!("failed to decode', '                Err(e) if e == uwuhi::Error::PointerLoop => return Err(e.into()),\n                Err(e) => {\n                    log::warn!("failed to decode'))
p('21-sort', 'C21', (AR, '                    if !self.ip_buf.is_empty() {', '                    self.ip_buf.sort_by_key(|i| i.is_ipv6());\n                    if !self.ip_buf.is_empty() {'))
# C22
p('22-deadline', 'C22', (ADI, '    domain: DomainName,\n    retr', '    domain: DomainName,\n    start: Option<Instant>,\n    retr'), (ADI, '            domain,\n', '            domain,\n            start: None,\n'), (ADI, '        let discovery_start = Instant::now();', '        let discovery_start = *self.start.get_or_insert_with(Instant::now);'), (ADI, '                    // Max. discovery time exceeded.\n', '                    // Max. discovery time exceeded.\n                    self.start = None;\n'), (ADI, 'Ok(ControlFlow::Break(())) => return Ok(()),', 'Ok(ControlFlow::Break(())) => { self.start = None; return Ok(()) }'), (ADI, '                    Ok(Err(e)) => return Err(e),', '                    Ok(Err(e)) => { self.start = None; return Err(e) }'), (ADI, '                        if discovery_start.elapsed() >= self.discovery_timeout {\n', '                        if discovery_start.elapsed() >= self.discovery_timeout {\n                            self.start = None;\n'))
p('22-wb', 'C22', (ADI, '                    Ok(Err(e)) => return Err(e),', '                    Ok(Err(e)) if e.kind() == io::ErrorKind::ConnectionReset => continue,\n                    Ok(Err(e)) => return Err(e),'))
p('22-small-buf', 'C22', (ADI, 'let mut recv_buf = [0; MDNS_BUFFER_SIZE];', 'let mut recv_buf = [0; 1024];'))
p('22-display-key', 'C22', (ADI, 'match instances.entry(instance) {\n                Entry::Vacant(e) => {\n                    let flow = callback(e.key());', 'match instances.entry(instance.to_string()) {\n                Entry::Vacant(e) => {\n                    let flow = callback(&instance);'))
p('22-or', 'C22', (ADI, 'future::or(recv, timeout).await', 'future::or(timeout, recv).await'))
p('22-types-tcp', 'C22', (ADI, '            match service_types.entry(service) {', '            if service.transport() == uwuhi::service::ServiceTransport::Other && service.name().as_bytes() == b"_" { return ControlFlow::Continue(()); }\n            match service_types.entry(service) {'))
# C23
p('23-try-send', 'C23', (AAD, '                    self.sock.send_to(resp, addr).await?;', '                    match self.sock.get_ref().send_to(resp, addr) { Err(e) if e.kind() == io::ErrorKind::WouldBlock => {} r => { r?; } }'))
p('23-port', 'C23', (AAD, '                    self.sock.send_to(resp, addr).await?;', '                    let to = if addr.port() == 5353 { "224.0.0.251:5353".parse().unwrap() } else { addr };\n                    self.sock.send_to(resp, to).await?;'))
p('23-reset', 'C23', (AAD, 'let (len, addr) = self.sock.recv_from(&mut recv_buf).await?;', 'let (len, addr) = match self.sock.recv_from(&mut recv_buf).await { Err(e) if e.kind() == io::ErrorKind::ConnectionReset => continue, r => r? };'))
p('23-dup', 'C23', (AAD, '        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n        loop {', '        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n        let mut last = None;\n        loop {'), (AAD, '            match self.adv', '            if last.as_ref() == Some(&(addr, packet.to_vec())) { continue; }\n            last = Some((addr, packet.to_vec()));\n            match self.adv'))
# C24
p('24-collect', 'C24', (TAP, '        msg.format(|args| log::debug!("{}", args))', '        let mut v = vec![];\n        msg.format(|args| v.push(args.to_string()))?;\n        for l in v { log::debug!("{}", l); }\n        Ok(())'))
p('24-auth', 'C24', (D, 'cb(format_args!("AUTH: {}", rr));', 'cb(format_args!("{}: {}", if msg_len > 1 { "AUTH" } else { "ADDL" }, rr));'), (D, '        let h = msg.header();\n        let dir', '        let h = msg.header();\n        let msg_len = h.authoritative_count();\n        let dir'))
p('24-small', 'C24', (TAP, 'let mut buf = [0; MDNS_BUFFER_SIZE];', 'let mut buf = [0; 1472];'))
p('24-rd', 'C24', (D, 'let ra = if h.is_recursion_available() {', 'let ra = if h.is_recursion_available() && h.is_response() {'))
p('24-eof', 'C24', (TAP, '                Err(Error::Eof) if len == MDNS_BUFFER_SIZE => {', '                Err(Error::PointerLoop) => return Ok(()),\n                Err(Error::Eof) if len == MDNS_BUFFER_SIZE => {'))
p('24-lines', 'C24', (TAP, '        msg.format(|args| log::debug!("{}", args))', '        let mut n = 0;\n        msg.format(|args| { n += 1; if n <= 32 { log::debug!("{}", args) } })'))
p('24-long-line', 'C24', (TAP, '        msg.format(|args| log::debug!("{}", args))', '        msg.format(|args| { let s = args.to_string(); log::debug!("{}", &s[..s.floor_char_boundary(400)]) })'))
# C25
p('25-v6-group', 'C25', (RE, '[ff02::fb]:5353', '[ff05::fb]:5353'))
p('25-av6-group', 'C25', (AR, '[ff02::fb]:5353', '[ff02::fb]:5355'))
p('25-ad4-group', 'C25', (ADI, '224.0.0.251:5353', '224.0.0.252:5353'))
p('25-tap-group', 'C25', (TAP, '"224.0.0.251"', '"224.0.0.252"'))
p('25-reuse-late', 'C25', (AD, '        sock.set_reuse_address(true)?;\n        sock.bind(&SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 5353).into())?;', '        sock.bind(&SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 5353).into())?;\n        sock.set_reuse_address(true)?;'))
p('25-join-ignored', 'C25', (AD, '&Ipv4Addr::UNSPECIFIED)?;', '&Ipv4Addr::UNSPECIFIED).ok();'))
p('25-bind-group', 'C25', (AD, 'Ipv4Addr::UNSPECIFIED, 5353', 'Ipv4Addr::new(224, 0, 0, 251), 5353'))
p('25-bind-group-tap', 'C25', (TAP, '0.0.0.0:5353', '224.0.0.251:5353'))
p('25-join-lo', 'C25', (AD, '&Ipv4Addr::UNSPECIFIED)?;', '&Ipv4Addr::LOCALHOST)?;'))
p('25-tap-noreuse', 'C25', (TAP, '        sock.set_reuse_address(true)?;\n', ''))
p('25-tap-loop', 'C25', (TAP, 'sock.set_multicast_loop_v4(true)?;', 'sock.set_multicast_loop_v4(true).ok();'))
p('25-leak-join', 'C25', (AD, '        sock.join_multicast_v4(&"224.0.0.251".parse().unwrap(), &Ipv4Addr::UNSPECIFIED)?;', '        let keep = std::mem::ManuallyDrop::new(sock);\n        keep.join_multicast_v4(&"224.0.0.251".parse().unwrap(), &Ipv4Addr::UNSPECIFIED)?;\n        let sock = std::mem::ManuallyDrop::into_inner(keep);'))
p('25-tap-leak', 'C25', (TAP, '        sock.set_multicast_loop_v4(true)?;\n', '        sock.set_multicast_loop_v4(true)?;\n        std::mem::forget(sock.try_clone()?);\n'))
p('25-nonblocking', 'C25', (AD, "        let sock = UdpSocket::from(sock);\n", "        sock.set_nonblocking(true)?;\n        let sock = UdpSocket::from(sock);\n"))
p('25-bind-fixed', 'C25', (RE, '(Ipv4Addr::UNSPECIFIED, 0).into()', '(Ipv4Addr::UNSPECIFIED, if sock.ip().is_multicast() { 5353 } else { 0 }).into()'))
p('25-bind-lo', 'C25', (RE, '(Ipv6Addr::UNSPECIFIED, 0).into()', '(if sock.ip().is_loopback() { Ipv6Addr::LOCALHOST } else { Ipv6Addr::UNSPECIFIED }, 0).into()'))
p('25-di-v6', 'C25', (DI, 'if server.is_ipv6() {', 'if server.is_ipv6() && server.ip().is_multicast() {'))
p('25-timeout-expect', 'C25', (RE, 'this.set_timeout(Self::DEFAULT_TIMEOUT)?;', 'this.set_timeout(Self::DEFAULT_TIMEOUT).expect("timeout");'))
p('25-retrans-order', 'C25', (DI, '        self.sock.set_read_timeout(Some(timeout))?;\n        self.retransmit_timeout = timeout;', '        self.retransmit_timeout = timeout;\n        self.sock.set_read_timeout(Some(timeout))?;'))
p('25-adv-expect', 'C25', (AAD, 'Async::new(adv.create_socket()?)?', 'Async::new(adv.create_socket()?).expect("async")'))

p('25-listen-retry', 'C25', (AD, 'let sock = self.adv.create_socket()?;', 'let sock = loop { match self.adv.create_socket() { Ok(s) => break s, Err(e) if e.kind() == io::ErrorKind::AddrInUse => std::thread::sleep(std::time::Duration::from_millis(100)), Err(e) => return Err(e) } };'))
p('25-send-first', 'C25', (DI, '        this.set_retransmit_timeout(Self::DEFAULT_RETRANSMIT_TIMEOUT)?;\n        Ok(this)', '        this.sock.send_to(&[0; 12], this.server)?;\n        this.set_retransmit_timeout(Self::DEFAULT_RETRANSMIT_TIMEOUT)?;\n        Ok(this)'))
p('25-timeout-err-hidden', 'C25', (DI, '.set_read_timeout(Some(self.retransmit_timeout.min(remaining)))?;', '.set_read_timeout(Some(self.retransmit_timeout.min(remaining))).unwrap_or_default();'))
p('25-async-set', 'C25', (ADI, '        self.retransmit_timeout = timeout;\n        Ok(())', '        self.retransmit_timeout = timeout;\n        if timeout > Duration::from_secs(60) { return Err(io::ErrorKind::InvalidInput.into()); }\n        Ok(())'))
# C26
p('26-soa-swap', 'C26', (R, '            self.refresh,\n            self.retry,\n            self.expire,\n', '            self.refresh,\n            self.expire,\n            self.retry,\n'))
p('26-srv-swap', 'C26', (R, '            self.priority, self.weight, self.port, self.target,', '            self.weight, self.priority, self.port, self.target,'))
p('26-txt-space', 'C26', (R, 'if byte.is_ascii_graphic() {', "if byte.is_ascii_graphic() || byte == b'\\t' {"))
p('26-txt-del', 'C26', (R, 'if byte.is_ascii_graphic() {', "if (0x21..=0x7f).contains(&byte) {"))
p('26-txt-first', 'C26', (R, '            if i != 0 {\n                f.write_char', '            if i != 0 && !entry.is_empty() {\n                f.write_char'))
p('26-ttl-signed', 'C26', (D, '            self.ttl(),\n', '            self.ttl() as i32,\n'))
p('26-class-type', 'C26', (D, '            self.class(),\n            self.type_()\n', '            self.class(),\n            QType(self.type_().0 & 0xff | self.type_().0 & 0xfe00)\n'))
p('26-hex', 'C26', (D, 'write!(f, "{:02x?}", self.rdata())?;', 'write!(f, "{:x?}", self.rdata())?;'))
p('26-hex-rest', 'C26', (D, 'write!(f, "{:02x?}", self.rdata())?;', 'write!(f, "{:02x?}", &self.rdata()[..self.rdata().len().min(512)])?;'))
p('26-q-type', 'C26', (D, 'self.qname(), self.qclass(), self.qtype())', 'self.qname(), self.qtype(), self.qclass())'))
p('26-q-any', 'C26', (P, 'ANY = 255,', 'ANY = 255, ANY2 = 256,'))
p('26-swap-mnem', 'C26', (P, '        URI = 256,\n        CAA = 257,\n\n', '        URI = 257,\n        CAA = 256,\n\n'))
p('26-aaaa-v4', 'C26', (R, "impl<'a> fmt::Display for AAAA<'a> {\n    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {\n        self.addr.fmt(f)", "impl<'a> fmt::Display for AAAA<'a> {\n    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {\n        if let Some(a) = self.addr.to_ipv4() { return a.fmt(f); }\n        self.addr.fmt(f)"))
p('26-root', 'C26', (N, '''impl fmt::Display for DomainName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.labels.is_empty() {
            return f.write_char('.');
        }
''', '''impl fmt::Display for DomainName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
'''))
p('26-debug-esc', 'C26', (N, '        self.as_bytes().escape_ascii().fmt(f)\n', "        for &b in self.as_bytes() { if b == b'\\t' { f.write_char('\\t')?; } else { write!(f, \"{}\", b.escape_ascii())?; } }\n        Ok(())\n"))
p('26-unknown', 'C26', ('src/packet/macros.rs', '{}: {:#x})", stringify!($name), self.0)', '{}: {:#x})", stringify!($name), self.0 as u8)'))
p('26-err-hex', 'C26', (D, '''            Some(Err(e)) => {
                write!(f, "{}", e)?;''', '''            Some(Err(_)) if self.rdata().is_empty() => {}
            Some(Err(e)) => {
                write!(f, "{}", e)?;'''))
p('26-mx-order', 'C26', (R, 'write!(f, "{} {}", self.preference, self.exchange)', 'write!(f, "{} {}", self.preference as i16, self.exchange)'))
p('26-opcode', 'C26', (P, 'NOTIFY = 4,', 'NOTIFY = 3,'))

# ---- second family: recursion, plain builds, process-wide state, long chains, cooperating sites
AS = 'src/service/advertising.rs'
p('x01-recursive', 'C01', (D, '''        let mut domain_name = DomainName::ROOT;
        let mut min_pos = self.pos.get();
        // Where reading continues after the name, once that's known.
        let mut end_pos = None;
        let mut copy = self.clone();
        loop {
            let length = copy.peek_u8()?;
            match length & 0b1100_0000 {
                0b1100_0000 => {
                    // 16-bit pointer to somewhere else in the UDP message.
                    let ptr = usize::from(copy.read_u16()? & 0b0011_1111_1111_1111);
                    if ptr >= min_pos {
                        // We require pointers to point to an earlier part of the message, to
                        // prevent loops. The specification is unclear about what exactly is
                        // allowed.
                        return Err(Error::PointerLoop);
                    } else {
                        // Only the first pointer is part of the name's own encoding.
                        end_pos.get_or_insert(copy.pos.get());
                        min_pos = ptr;
                        copy.pos = ptr.into();
                    }
                }
                0b0000_0000 => {
                    copy.advance(1);

                    // Length byte followed by a label of that many bytes.
                    let length = usize::from(length);
                    if length == 0 {
                        break;
                    }
                    let label = copy.read_slice(length)?;
                    domain_name.push_label(Label::try_new(label)?);
                }
                _ => return Err(Error::InvalidValue), // anything but 00 and 11 in MSb is reserved
            }
        }

        self.pos.set(end_pos.unwrap_or(copy.pos.get()));
        Ok(domain_name)
    }
''', '''        let mut domain_name = DomainName::ROOT;
        let end = self.read_labels(self.pos.get(), self.pos.get(), &mut domain_name)?;
        self.pos.set(end);
        Ok(domain_name)
    }

    /// Reads the rest of a name at `pos`, returning where it ends.
    fn read_labels(&self, pos: usize, min_pos: usize, name: &mut DomainName) -> Result<usize, Error> {
        let copy = Reader { full_buf: self.full_buf, pos: Cell::new(pos) };
        let length = copy.peek_u8()?;
        match length & 0b1100_0000 {
            0b1100_0000 => {
                let ptr = usize::from(copy.read_u16()? & 0b0011_1111_1111_1111);
                if ptr >= min_pos {
                    return Err(Error::PointerLoop);
                }
                self.read_labels(ptr, ptr, name)?;
                Ok(copy.pos.get())
            }
            0b0000_0000 => {
                copy.advance(1);
                if length == 0 {
                    return Ok(copy.pos.get());
                }
                let label = copy.read_slice(length.into())?;
                name.push_label(Label::try_new(label)?);
                let end = self.read_labels(copy.pos.get(), min_pos, name);
                log::trace!("label {:?}", label);
                end
            }
            _ => Err(Error::InvalidValue),
        }
    }
'''))
p('x01-unchecked', 'C04', (D, '''        let pos = self.pos.get();
        match self.full_buf.get(pos..pos + len) {
            Some(slice) => {
                self.advance(len);
                Ok(slice)
            }
            None => Err(Error::Eof),
        }''', '''        let pos = self.pos.get();
        debug_assert!(pos + len <= self.full_buf.len() || len != 16);
        if len == 16 {
            self.advance(len);
            return Ok(unsafe { std::slice::from_raw_parts(self.full_buf.as_ptr().add(pos), len) });
        }
        match self.full_buf.get(pos..pos + len) {
            Some(slice) => {
                self.advance(len);
                Ok(slice)
            }
            None => Err(Error::Eof),
        }'''))
p('x03-plausible', 'C03', (D, '        let header = r.read_obj::<Header>()?;\n', '''        let header = r.read_obj::<Header>()?;
        let rrs = usize::from(header.answer_count()) + usize::from(header.authoritative_count()) + usize::from(header.additional_count());
        if usize::from(header.question_count()) * 5 + rrs * 11 > r.buf().len() {
            return Err(Error::Eof);
        }
'''))
p('x03-static-name', 'C03', (D, '''    fn read_question(&mut self) -> Result<Question, Error> {
        let qname = self.read_domain_name()?;
''', '''    fn read_question(&mut self) -> Result<Question, Error> {
        thread_local! { static LAST: std::cell::RefCell<Option<(Vec<u8>, DomainName, usize)>> = const { std::cell::RefCell::new(None) }; }
        let head = self.buf().get(..8).map(|b| b.to_vec());
        let cached = LAST.with(|l| l.borrow().as_ref().filter(|(k, _, n)| Some(k) == head.as_ref() && self.buf().len() >= *n).map(|(_, d, n)| (d.clone(), *n)));
        let qname = match cached {
            Some((d, n)) => { self.advance(n); d }
            None => {
                let at = self.pos.get();
                let d = self.read_domain_name()?;
                let n = self.pos.get() - at;
                if let Some(h) = head { LAST.with(|l| *l.borrow_mut() = Some((h, d.clone(), n))); }
                d
            }
        };
'''))
p('x06-section-trunc', 'C06', (E, '''    pub fn answers(self) -> MessageEncoder<'a, section::Answer> {
        MessageEncoder {
            inner: self.inner,
''', '''    pub fn answers(mut self) -> MessageEncoder<'a, section::Answer> {
        self.inner.w.trunc &= self.inner.qdcount == 0;
        MessageEncoder {
            inner: self.inner,
'''))
p('x06-count-wrap', 'C06', (E, '''        match count.checked_add(1) {
            Some(new) => *count = new,
            None => self.trunc = true,
        }''', '''        *count = count.wrapping_add(1);'''))
p('x06-plain-txt', 'C06', (R, '''        assert!(
            this.entries().all(''', '''        debug_assert!(
            this.entries().all('''), (E, '        assert!(string.len() <= 255);\n', '        debug_assert!(string.len() <= 255);\n'))
p('x12-plain-txt', 'C12', (R, '''        assert!(
            this.entries().all(''', '''        debug_assert!(
            this.entries().all('''))
p('x06-plain-pos', 'C06', (E, '''        if data.len() > buf.len() {
            self.trunc = true;''', '''        if data.len() > buf.len() {
            debug_assert!(!data.is_empty());
            self.trunc = cfg!(debug_assertions) || data.len() > 1;'''))
p('x10-name-string', 'C10', (AS, 'if !q.qname().eq_ignore_ascii_case(&entry.name) {', 'if !q.qname().to_string().eq_ignore_ascii_case(&entry.name.to_string()) {'))
p('x10-bare-label', 'C10', (AS, 'if !q.qname().eq_ignore_ascii_case(&entry.name) {', 'if !q.qname().eq_ignore_ascii_case(&entry.name) && !(q.qname().labels().len() == 1 && q.qname().labels() == &entry.name.labels()[..1] && entry.name.labels().len() == 2) {'))
p('x10-unicode-case', 'C10', (N, '.all(|(a, b)| a.as_bytes().eq_ignore_ascii_case(b.as_bytes()))', '.all(|(a, b)| a.as_bytes().eq_ignore_ascii_case(b.as_bytes()) || String::from_utf8_lossy(a.as_bytes()).to_lowercase() == String::from_utf8_lossy(b.as_bytes()).to_lowercase())'))
p('x10-bit5', 'C10', (N, '.all(|(a, b)| a.as_bytes().eq_ignore_ascii_case(b.as_bytes()))', '.all(|(a, b)| a.as_bytes().len() == b.as_bytes().len() && a.as_bytes().iter().zip(b.as_bytes()).all(|(x, y)| x | 0x20 == y | 0x20))'))
p('x10-last-label', 'C16', (N, '                .labels\n                .iter()\n                .zip(&other.labels)\n', '                .labels\n                .iter()\n                .zip(&other.labels)\n                .take(10)\n'))
p('x11-stale-tail', 'C11', (E, '''            self.trunc = true;
            buf.copy_from_slice(&data[..buf.len()]);
            self.pos += buf.len();''', '''            self.trunc = true;
            self.pos += buf.len();'''))
p('x11-static-dup', 'C11', (AS, '''        let mut dec = MessageDecoder::new(packet)?;
        if !dec''', '''        use std::sync::Mutex;
        static LAST: Mutex<(Vec<u8>, u32)> = Mutex::new((Vec::new(), 0));
        {
            let mut l = LAST.lock().unwrap();
            if l.0 == packet { l.1 += 1; if l.1 > 20 { return Ok(None); } } else { *l = (packet.to_vec(), 0); }
        }
        let mut dec = MessageDecoder::new(packet)?;
        if !dec'''))
p('x11-count-300', 'C11', (AS, '    response_buf: Vec<u8>,\n}', '    response_buf: Vec<u8>,\n    served: u8,\n}'), (AS, '            response_buf: vec![0; MDNS_BUFFER_SIZE],\n', '            response_buf: vec![0; MDNS_BUFFER_SIZE],\n            served: 0,\n'), (AS, '        if have_relevant_answer {\n', '        self.served = self.served.wrapping_add(1);\n        if have_relevant_answer && self.served != 0 {\n'))
p('x11-qclass-chaos', 'C11', (AS, '        let mut have_relevant_answer = false;', '        let mut have_relevant_answer = packet.len() == 12;'))
p('x12-connect', 'C12', (AS, '''                Ok(Some(resp)) => {
                    sock.send_to(resp, addr)?;''', '''                Ok(Some(resp)) => {
                    sock.connect(addr)?;
                    sock.send(resp)?;'''))
p('x12-static-rate', 'C12', (AS, '''                Ok(Some(resp)) => {
                    sock.send_to(resp, addr)?;''', '''                Ok(Some(resp)) => {
                    use std::sync::Mutex;
                    static LAST: Mutex<Vec<(std::net::SocketAddr, Vec<u8>)>> = Mutex::new(Vec::new());
                    let mut l = LAST.lock().unwrap();
                    let k = (addr, resp.to_vec());
                    if l.iter().filter(|x| **x == k).count() > 40 { continue; }
                    l.push(k);
                    if l.len() > 4000 { l.clear(); }
                    drop(l);
                    sock.send_to(resp, addr)?;'''))
p('x13-inst-name', 'C13', (DI, 'let mut instances = BTreeMap::new();', 'let mut instances: BTreeMap<crate::name::Label, ()> = BTreeMap::new();'), (DI, '''            match instances.entry(instance) {
                Entry::Vacant(e) => {
                    let flow = callback(e.key());''', '''            match instances.entry(instance.instance_name().clone()) {
                Entry::Vacant(e) => {
                    let flow = callback(&instance);'''))
p('x13-last-only', 'C13', (DI, 'let mut instances = BTreeMap::new();', 'let mut instances = BTreeMap::new();\n        let mut n = 0;'), (DI, '            match instances.entry(instance) {', '            n += 1;\n            if n % 6 == 0 { instances.clear(); }\n            match instances.entry(instance) {'))
p('x13-static', 'C13', (DI, '''            match service_types.entry(service) {
                Entry::Vacant(e) => {
                    let flow''', '''            match service_types.entry(service) {
                Entry::Vacant(e) => {
                    static SEEN: std::sync::Mutex<BTreeMap<Service, u32>> = std::sync::Mutex::new(BTreeMap::new());
                    let n = { let mut m = SEEN.lock().unwrap(); let n = m.entry(e.key().clone()).or_insert(0); *n += 1; *n };
                    if n > 50 { e.insert(()); return ControlFlow::Continue(()); }
                    let flow'''))
p('x13-insert-on-continue', 'C13', (DI, '''            match service_types.entry(service) {
                Entry::Vacant(e) => {
                    let flow = callback(e.key());
                    e.insert(());
                    flow''', '''            match service_types.entry(service) {
                Entry::Vacant(e) => {
                    let flow = callback(e.key());
                    if e.key().transport() == super::ServiceTransport::TCP || flow.is_break() { e.insert(()); }
                    flow'''))
p('x14-round-up', 'C14', (DI, '''                    .saturating_sub(discovery_start.elapsed());
''', '''                    .saturating_sub(discovery_start.elapsed());
                let remaining = Duration::from_millis(remaining.as_nanos().div_ceil(1_000_000) as u64);
'''))
p('x14-round-down-retrans', 'C14', (DI, '.set_read_timeout(Some(self.retransmit_timeout.min(remaining)))?;', '.set_read_timeout(Some(if remaining < self.retransmit_timeout { remaining } else { self.retransmit_timeout + Duration::from_micros(self.retransmit_timeout.subsec_micros() as u64 % 7) }))?;'))
p('x14-late-half', 'C14', (DI, '                if remaining.is_zero() {', '                if remaining < Duration::from_micros(50) && discovery_start.elapsed() > self.discovery_timeout + self.retransmit_timeout {'))
p('x14-first-only', 'C14', (DI, '''        'retransmit: loop {
            self.sock.send_to(data, self.server)?;
''', '''        let mut heard = false;
        'retransmit: loop {
            if !heard { self.sock.send_to(data, self.server)?; }
'''), (DI, '                let recv = &recv_buf[..b];\n', '                let recv = &recv_buf[..b];\n                heard |= b > 200;\n'))
p('x15-static', 'C15', (DI, '''        match details {
            Some(mut details) => {''', '''        thread_local! { static CACHE: std::cell::RefCell<BTreeMap<String, (DomainName, u16)>> = const { std::cell::RefCell::new(BTreeMap::new()) }; }
        let key = domain.to_string();
        match &details {
            Some(d) => CACHE.with(|c| { c.borrow_mut().insert(key, (d.host().clone(), d.port())); }),
            None => details = CACHE.with(|c| c.borrow().get(&key).map(|(h, p)| InstanceDetails::new(h.clone(), *p))),
        }
        match details {
            Some(mut details) => {'''))
p('x15-other-domain', 'C15', (DI, '            &instance.service.transport().to_label(),\n        ]);\n        domain.extend(&self.domain);\n', '            &instance.service.transport().to_label(),\n        ]);\n        domain.extend(self.domain.labels().iter().take(2));\n'))
p('x16-chain-16', 'C16', (RE, '    while i < names.len() {', '    while i < names.len() && i < 16 {'))
p('x16-static-cache', 'C16', (RE, '''            let (b, addr) = self.sock.recv_from(&mut recv_buf)?;
''', '''            static CACHE: std::sync::Mutex<std::collections::BTreeMap<String, Vec<IpAddr>>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
            let (b, addr) = match self.sock.recv_from(&mut recv_buf) {
                Ok(r) => r,
                Err(e) => {
                    if let Some(v) = CACHE.lock().unwrap().get(&name.to_string()) {
                        self.ip_buf.extend(v);
                        return Ok(self.ip_buf.iter().copied());
                    }
                    return Err(e);
                }
            };
'''), (RE, '''                        // We return once any answer contains IP addresses.
''', '''                        // We return once any answer contains IP addresses.
                        CACHE.lock().unwrap().insert(name.to_string(), self.ip_buf.clone());
'''))
p('x16-alias-case', 'C16', (RE, '            if owner.eq_ignore_ascii_case(names[i])\n', '            if owner == names[i]\n'))
p('x16-addrs-64', 'C16', (RE, '        if names.iter().any(|n| n.eq_ignore_ascii_case(owner)) {', '        if ip_buf.len() < 64 && names.iter().any(|n| n.eq_ignore_ascii_case(owner)) {'))
p('x16-suffix', 'C16', (RE, '        if names.iter().any(|n| n.eq_ignore_ascii_case(owner)) {', '        if names.iter().any(|n| n.eq_ignore_ascii_case(owner) || (n.labels().len() == 1 && owner.labels().len() == 2 && owner.labels()[0] == n.labels()[0])) {'))
p('x17-plain-family', 'C17', (RE, '        assert_eq!(\n            self.servers', '        debug_assert_eq!(\n            self.servers'))
p('x17-plain-mcast', 'C17', (RE, '        assert!(\n            !self.is_multicast', '        debug_assert!(\n            !self.is_multicast'))
p('x17-overall', 'C17', (RE, '        loop {\n            let mut recv_buf', '        let start = std::time::Instant::now();\n        let timeout = self.sock.read_timeout()?;\n        loop {\n            if let Some(t) = timeout { if start.elapsed() >= t { return Err(io::ErrorKind::TimedOut.into()); } }\n            let mut recv_buf'))
p('x17-256', 'C17', (N, '        let labels: usize = self.labels.iter().map(|l| 1 + l.as_bytes().len()).sum();', '        let labels: usize = self.labels.iter().map(|l| 1 + l.as_bytes().len()).sum::<usize>() & 0x3ff;'))
p('x18-flag-over', 'C18', (SV, '''        self.map
            .insert(key.to_ascii_lowercase(), TxtRecord { key, value: None });''', '''        self.map
            .entry(key.clone()).or_insert(TxtRecord { key, value: None });'''))
p('x19-case', 'C19', (SV, '''            name: service_name.clone(),
            transport: match transport.as_bytes() {''', '''            name: service_name.clone(),
            transport: match &*transport.as_bytes().to_ascii_lowercase() {'''))
p('x19-plain', 'C19', (SV, '        assert!(name.as_bytes().starts_with(b"_"));', '        debug_assert!(name.as_bytes().starts_with(b"_"));'))
p('x19-from-label-lossy', 'C19', (SV, '            instance_name: instance_name.clone(),\n            service: Service {', '            instance_name: instance_name.as_bytes().trim_ascii_end().to_vec().try_into_label().unwrap_or(instance_name.clone()),\n            service: Service {'), (SV, '/// A named instance of a [`Service`].', 'trait TryLabel { fn try_into_label(self) -> Option<Label>; }\nimpl TryLabel for Vec<u8> { fn try_into_label(self) -> Option<Label> { Label::try_new(self).ok() } }\n\n/// A named instance of a [`Service`].'))
p('x20-txt-16', 'C20', (AS, 'TXT::new(details.txt_records().iter().map(', 'TXT::new(details.txt_records().iter().take(3).map('))
p('x20-host-local', 'C20', (AS, 'Record::SRV(SRV::new(0, 0, details.port(), details.host().clone())),', 'Record::SRV(SRV::new(0, 0, details.port(), if details.host().labels().len() == 1 { let mut h = details.host().clone(); h.push_label(Label::new("local")); h } else { details.host().clone() })),'))
p('x21-overall', 'C21', (AR, '        loop {\n            let mut recv_buf', '        let start = std::time::Instant::now();\n        loop {\n            let mut recv_buf'), (AR, 'Timer::after(self.timeout).await;', 'Timer::after(self.timeout.saturating_sub(start.elapsed())).await;'))
p('x21-plain', 'C21', (AR, '        assert_eq!(\n            self.servers', '        debug_assert_eq!(\n            self.servers'))
p('x21-plain-mcast', 'C21', (AR, '        assert!(\n            !self.is_multicast', '        debug_assert!(\n            !self.is_multicast'))
p('x21-timer-send', 'C21', (AR, '            self.sock.send_to(data, *addr).await?;', '            future::or(async { self.sock.send_to(data, *addr).await.map(|_| ()) }, async { Timer::after(self.timeout).await; Err(io::ErrorKind::TimedOut.into()) }).await?;'))
p('x22-reuse-timer', 'C22', (ADI, 'Timer::after(self.retransmit_timeout.min(remaining)).await;', 'Timer::after(self.retransmit_timeout).await;'))
p('x22-poll-once', 'C22', (ADI, '                let recv = async { Ok(self.sock.recv_from(&mut recv_buf).await) };', '                let recv = async { let r = self.sock.recv_from(&mut recv_buf).await; future::yield_now().await; Ok(r) };'))
p('x22-set-min', 'C22', (ADI, '        self.retransmit_timeout = timeout;\n        Ok(())', '        self.retransmit_timeout = timeout.max(Duration::from_millis(10));\n        Ok(())'))
p('x22-zero-err', 'C22', (ADI, '        self.discovery_timeout = timeout;\n        Ok(())', '        if timeout.is_zero() { return Err(io::ErrorKind::InvalidInput.into()); }\n        self.discovery_timeout = timeout;\n        Ok(())'))
p('x23-resend', 'C23', (AAD, '    adv: Advertiser,\n    sock', '    adv: Advertiser,\n    buf: Vec<u8>,\n    pending: Option<(usize, std::net::SocketAddr)>,\n    sock'), (AAD, '            sock: Async::new(adv.create_socket()?)?,\n', '            sock: Async::new(adv.create_socket()?)?,\n            buf: vec![0; MDNS_BUFFER_SIZE],\n            pending: None,\n'), (AAD, '        let mut recv_buf = [0; MDNS_BUFFER_SIZE];\n', ''), (AAD, '''            let (len, addr) = self.sock.recv_from(&mut recv_buf).await?;
            let packet = &recv_buf[..len];
''', '''            let (len, addr) = match self.pending {
                Some(p) => p,
                None => self.sock.recv_from(&mut self.buf).await?,
            };
            self.pending = Some((len, addr));
            let packet = &self.buf[..len];
'''), (AAD, '''                Ok(Some(resp)) => {
                    self.sock.send_to(resp, addr).await?;
                }''', '''                Ok(Some(resp)) => {
                    self.sock.send_to(resp, addr).await?;
                    future_yield().await;
                }'''), (AAD, '''                    log::debug!("failed to handle packet: {}", e);
                }
            }
''', '''                    log::debug!("failed to handle packet: {}", e);
                }
            }
            self.pending = None;
'''), (AAD, '/// Asynchronous mDNS', 'async fn future_yield() { futures_lite::future::yield_now().await }\n\n/// Asynchronous mDNS'))
p('x24-static', 'C24', (TAP, '        let msg = MessageDecoder::new(msg)?;\n', '        thread_local! { static LAST: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) }; }\n        if msg.len() > 60 && LAST.with(|l| l.borrow().as_slice() == msg) { return Ok(()); }\n        LAST.with(|l| *l.borrow_mut() = msg.to_vec());\n        let msg = MessageDecoder::new(msg)?;\n'))
p('x24-trunc-bit', 'C24', (D, '        let trunc = if h.is_truncated() { ", trunc" } else { "" };', '        let trunc = if h.is_truncated() && !h.is_query() { ", trunc" } else { "" };'))
p('x25-debug-bind', 'C25', (TAP, 'sock.set_reuse_address(true)?;', 'let _r = sock.set_reuse_address(true);\n        debug_assert!(_r.is_ok());'))
p('x26-plain', 'C26', (R, 'if byte.is_ascii_graphic() {', 'if byte.is_ascii_graphic() || (!cfg!(debug_assertions) && byte == 7) {'))
p('x08-label-len-u8', 'C08', (N, '        if label.len() > Self::MAX_LEN {', '        if label.len() as u8 as usize > Self::MAX_LEN {'))
p('x08-hash-eq', 'C08', (N, '#[derive(PartialEq, Eq, Clone)]\npub struct DomainName', '#[derive(Eq, Clone)]\npub struct DomainName'), (N, 'impl DomainName {\n    /// The empty', 'impl PartialEq for DomainName { fn eq(&self, o: &Self) -> bool { self.eq_ignore_ascii_case(o) } }\n\nimpl DomainName {\n    /// The empty'))
p('x08-debug', 'C08', (N, '        write!(f, r#""{}""#, self.as_bytes().escape_ascii())', '        match std::str::from_utf8(self.as_bytes()) { Ok(s) if !s.is_ascii() => write!(f, r#""{}""#, s), _ => write!(f, r#""{}""#, self.as_bytes().escape_ascii()) }'))

# y: timers that fire late, callbacks that take time, configurations that grow between packets
p('y14-sub', 'C14', (DI, """                let remaining = self
                    .discovery_timeout
                    .saturating_sub(discovery_start.elapsed());""", """                let remaining = self.discovery_timeout - discovery_start.elapsed();"""))
p('y22-sub', 'C22', (ADI, """                let remaining = self
                    .discovery_timeout
                    .saturating_sub(discovery_start.elapsed());""", """                let remaining = self.discovery_timeout - discovery_start.elapsed();"""))
p('y14-eq', 'C14', (DI, 'if discovery_start.elapsed() >= self.discovery_timeout {', 'if discovery_start.elapsed() == self.discovery_timeout {'))
p('y22-eq', 'C22', (ADI, 'if discovery_start.elapsed() >= self.discovery_timeout {', 'if discovery_start.elapsed() == self.discovery_timeout {'))
p('y14-recv-time', 'C14', (DI, """        let discovery_start = Instant::now();
""", """        let mut spent = Duration::ZERO;
"""), (DI, """                let remaining = self
                    .discovery_timeout
                    .saturating_sub(discovery_start.elapsed());""", """                let remaining = self.discovery_timeout.saturating_sub(spent);
                let recv_start = Instant::now();"""),
  (DI, """                let (b, addr) = match self.sock.recv_from(&mut recv_buf) {""", """                let got = self.sock.recv_from(&mut recv_buf);
                spent += recv_start.elapsed();
                let (b, addr) = match got {"""),
  (DI, 'if discovery_start.elapsed() >= self.discovery_timeout {', 'if spent >= self.discovery_timeout {'))
p('y10-cache', 'C10', (AD, """    response_buf: Vec<u8>,
}""", """    response_buf: Vec<u8>,
    last: Option<(Vec<u8>, Vec<u8>)>,
}"""), (AD, """            response_buf: vec![0; MDNS_BUFFER_SIZE],
""", """            response_buf: vec![0; MDNS_BUFFER_SIZE],
            last: None,
"""), (AD, """        let mut dec = MessageDecoder::new(packet)?;
        if !dec.header().is_query() {""", """        let mut dec = MessageDecoder::new(packet)?;
        if self.last.as_ref().is_some_and(|(q, _)| q == packet) {
            return Ok(self.last.as_ref().map(|(_, r)| &**r));
        }
        if !dec.header().is_query() {"""), (AD, """            Ok(Some(&self.response_buf[..len]))
""", """            self.last = Some((packet.to_vec(), self.response_buf[..len].to_vec()));
            Ok(Some(&self.response_buf[..len]))
"""))
p('y11-cache', 'C11', (AD, """    response_buf: Vec<u8>,
}""", """    response_buf: Vec<u8>,
    known: Option<Vec<DomainName>>,
}"""), (AD, """            response_buf: vec![0; MDNS_BUFFER_SIZE],
""", """            response_buf: vec![0; MDNS_BUFFER_SIZE],
            known: None,
"""), (AD, """        let mut header = Header::default();
        header.set_id(""", """        let entries = &self.db.entries;
        let known = self.known.get_or_insert_with(|| entries.iter().map(|e| e.name.clone()).collect());

        let mut header = Header::default();
        header.set_id("""), (AD, """            for entry in &self.db.entries {
""", """            if !known.iter().any(|n| n.eq_ignore_ascii_case(q.qname())) {
                continue;
            }
            for entry in &self.db.entries {
"""))
p('y13-cache', 'C13', (DI, """    discovery_timeout: Duration,
}
""", """    discovery_timeout: Duration,
    cached: Option<(Label, DomainName)>,
}
"""), (DI, """            discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,
""", """            discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,
            cached: None,
"""), (DI, "    name::DomainName,\n", "    name::{DomainName, Label},\n"), (DI, """        let mut domain = DomainName::from_iter([service.name(), &service.transport().to_label()]);
        domain.extend(&self.domain);
""", """        let domain = match &self.cached {
            Some((l, d)) if l == service.name() => d.clone(),
            _ => {
                let mut domain = DomainName::from_iter([service.name(), &service.transport().to_label()]);
                domain.extend(&self.domain);
                self.cached = Some((service.name().clone(), domain.clone()));
                domain
            }
        };
"""))
p('y15-cache', 'C15', (DI, """    discovery_timeout: Duration,
}
""", """    discovery_timeout: Duration,
    cached: Option<(String, Vec<u8>)>,
}
"""), (DI, """            discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,
""", """            discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,
            cached: None,
"""), (DI, """        let data = encode_query(&mut send_buf, domain, qtypes);
""", """        let key = format!("{domain} {qtypes:?}");
        let data = match &self.cached {
            Some((k, d)) if *k == key => d.clone(),
            _ => encode_query(&mut send_buf, domain, qtypes).to_vec(),
        };
        self.cached = Some((key, data.clone()));
        let data = &data[..];
"""))
p('y16-cache', 'C16', (RE, """    ip_buf: Vec<IpAddr>,
    is_multicast: bool,
}""", """    ip_buf: Vec<IpAddr>,
    is_multicast: bool,
    cached: Option<(String, Vec<u8>)>,
}"""), (RE, """            ip_buf: Vec::new(),
            is""", """            ip_buf: Vec::new(),
            cached: None,
            is"""), (RE, """        let data = encode_query(&mut send_buf, name);
""", """        let key = name.to_string();
        let data = match &self.cached {
            Some((k, d)) if *k == key => d.clone(),
            _ => encode_query(&mut send_buf, name).to_vec(),
        };
        self.cached = Some((key, data.clone()));
        let data = &data[..];
"""))
p('y17-servers', 'C17', (RE, """    ip_buf: Vec<IpAddr>,
    is_multicast: bool,
}""", """    ip_buf: Vec<IpAddr>,
    is_multicast: bool,
    asked: usize,
}"""), (RE, """            ip_buf: Vec::new(),
            is""", """            ip_buf: Vec::new(),
            asked: 0,
            is"""), (RE, """        for addr in &self.servers {
            self.sock.send_to(data, addr)?;
""", """        if self.asked == 0 {
            self.asked = self.servers.len();
        }
        for addr in &self.servers[..self.asked] {
            self.sock.send_to(data, addr)?;
"""))
p('y21-servers', 'C21', (AR, """    timeout: Duration,
}""", """    timeout: Duration,
    asked: usize,
}"""), (AR, """            timeout: Self::DEFAULT_TIMEOUT,
""", """            timeout: Self::DEFAULT_TIMEOUT,
            asked: 0,
"""), (AR, """        for addr in &self.servers {
            self.sock.send_to(data, *addr)""", """        if self.asked == 0 {
            self.asked = self.servers.len();
        }
        for addr in &self.servers[..self.asked] {
            self.sock.send_to(data, *addr)"""))
p('y21-name-cache', 'C21', (AR, """    timeout: Duration,
}""", """    timeout: Duration,
    cached: Option<(String, Vec<u8>)>,
}"""), (AR, """            timeout: Self::DEFAULT_TIMEOUT,
""", """            timeout: Self::DEFAULT_TIMEOUT,
            cached: None,
"""), (AR, """        let data = encode_query(&mut send_buf, name);
""", """        let key = name.to_string();
        let data = match &self.cached {
            Some((k, d)) if *k == key => d.clone(),
            _ => encode_query(&mut send_buf, name).to_vec(),
        };
        self.cached = Some((key, data.clone()));
        let data = &data[..];
"""))
p('y22-cache', 'C22', (ADI, """    discovery_timeout: Duration,
}
""", """    discovery_timeout: Duration,
    cached: Option<(uwuhi::name::Label, DomainName)>,
}
"""), (ADI, """            discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,
""", """            discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,
            cached: None,
"""), (ADI, """        let mut domain = DomainName::from_iter([service.name(), &service.transport().to_label()]);
        domain.extend(&self.domain);
""", """        let domain = match &self.cached {
            Some((l, d)) if l == service.name() => d.clone(),
            _ => {
                let mut domain = DomainName::from_iter([service.name(), &service.transport().to_label()]);
                domain.extend(&self.domain);
                self.cached = Some((service.name().clone(), domain.clone()));
                domain
            }
        };
"""))

# "z": another round from the statements alone
p('z02-ptr-cut', 'C02', (D, 'usize::from(copy.read_u16()? & 0b0011_1111_1111_1111)', '{ let hi = copy.read_u8()?; usize::from(u16::from(hi & 0x3f) << 8 | u16::from(copy.read_u8().unwrap_or(0))) }'))
p('z03-skip-auth', 'C03', (D, """    pub fn additional(mut self) -> Result<MessageDecoder<'a, section::Additional>, Error> {
        while let Some(res) = self.next() {
            res?;
        }
""", """    pub fn additional(mut self) -> Result<MessageDecoder<'a, section::Additional>, Error> {
        for _ in 0..self.auth_remaining.min(256) {
            self.r.read_resource_record()?;
        }
"""))
p('z04-soa-min', 'C04', (R, '            minimum_ttl: dec.r.read_u32()?,', '            minimum_ttl: dec.r.read_u32()?.min(i32::MAX as u32),'))
p('z04-charstr-0', 'C04', (R, '            entries.push(dec.r.read_character_string()?.into());', '            let s = dec.r.read_character_string()?; if s.is_empty() && !entries.is_empty() { continue } entries.push(s.into());'))
p('z05-z-bits', 'C05', (E, 'self.inner.w.modify_header(|h| *h = header);', 'self.inner.w.modify_header(|h| { *h = Header::default(); h.set_id(header.id()); h.set_response(header.is_response()); h.set_opcode(header.opcode()); h.set_authority(header.is_authority()); h.set_recursion_desired(header.is_recursion_desired()); h.set_recursion_available(header.is_recursion_available()); h.set_rcode(header.rcode()); });'))
p('z06-len-room', 'C06', (E, 'if data.len() > buf.len() {', 'if data.len() > buf.len() || (data.len() == buf.len() && data.len() > 63) {'))
p('z08-from-iter', 'C08', (N, '            labels: Vec::from_iter(iter.into_iter().cloned()),', '            labels: Vec::from_iter(iter.into_iter().take(128).cloned()),'))
p('z10-lossy-value', 'C10', (AD, 'kv.extend_from_slice(v);', 'kv.extend_from_slice(String::from_utf8_lossy(v).as_bytes()); kv.truncate(255);'))
p('z10-255', 'C10', (AD, 'kv.extend_from_slice(v);', 'kv.extend_from_slice(v); kv.truncate(254);'))
p('z10-host-bare', 'C10', (AD, 'Record::SRV(SRV::new(0, 0, details.port(), details.host().clone()))', 'Record::SRV(SRV::new(0, 0, details.port(), if details.host().labels().len() != 1 { details.host().clone() } else { DomainName::from_iter(details.host().labels().iter().chain([&Label::new("local")])) }))'))
p('z11-buffer-grow', 'C11', (AD, 'let mut enc = MessageEncoder::new(&mut *self.response_buf);', 'if packet.len() > self.response_buf.len() { self.response_buf.resize(packet.len(), 0); } let mut enc = MessageEncoder::new(&mut *self.response_buf);'))
p('z12-last-resp', 'C12', (AD, """        let mut recv_buf = [0; MDNS_BUFFER_SIZE];
        loop {
            let (len, addr) = sock.recv_from(&mut recv_buf)?;""", """        let mut recv_buf = [0; MDNS_BUFFER_SIZE];
        let mut last: Option<(std::net::SocketAddr, Vec<u8>)> = None;
        loop {
            let (len, addr) = sock.recv_from(&mut recv_buf)?;
            // Drop immediate duplicates (Wi-Fi likes to deliver multicast twice).
            if last.as_ref().is_some_and(|(a, p)| *a == addr && p[..] == recv_buf[..len]) {
                continue;
            }
            last = Some((addr, recv_buf[..len].to_vec()));"""))
p('z13-type-from-query', 'C13', (DI, """            match instances.entry(instance) {""", """            let instance = ServiceInstance::from_service(instance.instance_name().clone(), service.clone());
            match instances.entry(instance) {"""))
p('z13-stop-late', 'C13', (DI, '                ControlFlow::Break(()) => return Ok(ControlFlow::Break(())),\n            },', '                ControlFlow::Break(()) => stop = true,\n            },'), (DI, '    let mut dec = dec.answers()?;\n    for res', '    let mut stop = false;\n    let mut dec = dec.answers()?;\n    for res'), (DI, "            None => {}\n        }\n    }\n\n    Ok(ControlFlow::Continue(()))", "            None => {}\n        }\n    }\n    if stop { return Ok(ControlFlow::Break(())); }\n\n    Ok(ControlFlow::Continue(()))"))
p('z14-cached-timeout', 'C14', (DI, '    discovery_timeout: Duration,\n}', '    discovery_timeout: Duration,\n    set: Option<Duration>,\n}'), (DI, '            discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,\n        };', '            discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,\n            set: None,\n        };'), (DI, """                self.sock
                    .set_read_timeout(Some(self.retransmit_timeout.min(remaining)))?;
""", """                let wait = self.retransmit_timeout.min(remaining);
                if self.set != Some(wait) {
                    self.sock.set_read_timeout(Some(wait))?;
                    self.set = Some(wait);
                }
"""))
p('z14-no-late-resend', 'C14', (DI, "                        continue 'retransmit;", "                        if self.discovery_timeout.saturating_sub(discovery_start.elapsed()) < self.retransmit_timeout / 4 { continue; }\n                        continue 'retransmit;"))
p('z15-txt-before-srv', 'C15', (DI, "Record::TXT(txt) => {\n                    txt_records", "Record::TXT(txt) if details.is_some() || txt.entries().count() > 1 => {\n                    txt_records"))
p('z15-local-suffix', 'C15', (DI, """            &instance.service.transport().to_label(),
        ]);
        domain.extend(&self.domain);
""", """            &instance.service.transport().to_label(),
        ]);
        domain.extend(self.domain.labels().iter().filter(|l| l.as_bytes() != b"local").chain(self.domain.labels().iter().filter(|l| l.as_bytes() == b"local").take(1)));
"""))
p('z16-multi-owner', 'C16', (RE, 'if id != QUERY_ID {', 'if id != QUERY_ID || answers.addrs.len() > 1 && answers.addrs.iter().any(|(o, _)| !o.eq_ignore_ascii_case(name)) && answers.aliases.is_empty() {'))
p('z16-opcode', 'C16', (RE, '    if !h.is_response() {\n        return', '    if !h.is_response() || h.opcode() != crate::packet::Opcode::QUERY {\n        return'))
p('z17-servers-8', 'C17', (RE, '        for addr in &self.servers {', '        let n = self.servers.len().min(8);\n        for addr in &self.servers[..n] {'))
p('z17-trim-dots', 'C17', (RE, 'let name = DomainName::from_str(&hostname)?;', "let name = DomainName::from_str(hostname.trim_end_matches('.'))?;"))
p('z18-eq-empty', 'C18', (SV, "let mut split = entry.splitn(2, |&b| b == b'=');", "let e = entry.strip_suffix(b\"=\").filter(|e| !e.contains(&b'=')).unwrap_or(entry); let mut split = e.splitn(2, |&b| b == b'=');"))
p('z19-trim', 'C19', (SV, 'if !service_name.as_bytes().starts_with(b"_") {\n            return Err(Error::InvalidValue);\n        }\n        Ok(Service {', 'if !service_name.as_bytes().trim_ascii_start().starts_with(b"_") {\n            return Err(Error::InvalidValue);\n        }\n        Ok(Service {'))
p('z21-timer-cap', 'C21', (AR, 'Timer::after(self.timeout).await;', 'Timer::after(self.timeout.min(Duration::from_secs(3600))).await;'))
p('z22-rounding', 'C22', (ADI, 'Timer::after(self.retransmit_timeout.min(remaining)).await;', 'Timer::after(Duration::from_millis(self.retransmit_timeout.min(remaining).as_millis() as u64)).await;'))
p('z24-no-questions', 'C24', (TAP, '        let msg = MessageDecoder::new(msg)?;\n', '        let msg = MessageDecoder::new(msg)?;\n        if msg.header().question_count() == 0 && msg.header().is_query() { return Ok(()); }\n'))
p('z26-ttl-flush', 'C26', (D, '            self.ttl(),\n            self.class(),', '            self.ttl() & if self.cache_flush { 0x7fff_ffff } else { u32::MAX },\n            self.class(),'))
# receive buffers that are too small, by a lot or by one
for size in (512, 1499):
    for f, c, name in ((AD, 'C12', 'recv_buf'), (DI, 'C13', 'recv_buf'), (DI, 'C15', 'recv_buf'), (RE, 'C16', 'recv_buf'), (AR, 'C21', 'recv_buf'), (ADI, 'C22', 'recv_buf'), (AAD, 'C23', 'recv_buf'), (TAP, 'C24', 'buf')):
        p(f'b{size}-{c.lower()}', c, (f, f'let mut {name} = [0; MDNS_BUFFER_SIZE];', f'let mut {name} = [0; MDNS_BUFFER_SIZE - {1500 - size}];'))
    p(f'b{size}-c10', 'C10', (AD, 'response_buf: vec![0; MDNS_BUFFER_SIZE],', f'response_buf: vec![0; {size}],'))
# C27
p('27-res-partial', 'C27', (RE, '    let bytes = enc.finish().unwrap();\n', '    let bytes = enc.finish().unwrap_or(buf.len());\n'))
p('27-res-buf512', 'C27', (RE, '    let mut enc = MessageEncoder::new(buf);\n', '    let n = buf.len().min(512);\n    let mut enc = MessageEncoder::new(&mut buf[..n]);\n'))
p('27-types-dedup', 'C27', (DI, '    for qtype in qtypes {\n', '    for (i, qtype) in qtypes.iter().enumerate() {\n        if qtypes[..i].contains(qtype) { continue; }\n'))
p('27-types-u8', 'C27', (DI, '    for qtype in qtypes {\n', '    for qtype in qtypes.iter().take(255) {\n'))
p('27-clear', 'C27', (RE, '    ip_buf.extend(answers.addrs.iter().map(|(_, ip)| ip));\n', '    if !answers.addrs.is_empty() { ip_buf.clear(); }\n    ip_buf.extend(answers.addrs.iter().map(|(_, ip)| ip));\n'))
p('27-dedup', 'C27', (RE, '    ip_buf.extend(answers.addrs.iter().map(|(_, ip)| ip));\n', '    ip_buf.extend(answers.addrs.iter().map(|(_, ip)| ip));\n    ip_buf.dedup();\n'))
p('27-retain', 'C27', (RE, '            ip_buf.push(*ip);\n', '            if !ip_buf.contains(ip) { ip_buf.push(*ip); }\n'))
p('27-any-id', 'C27', (RE, '    if id != QUERY_ID {\n', '    if id != QUERY_ID && id != 0 {\n'))
p('27-id-decode', 'C27', (RE, '    let (_, answers) = decode_answers(msg)?;\n', '    let (id, answers) = decode_answers(msg)?;\n    if id != QUERY_ID { return Ok(()); }\n'))
p('27-aliases-all', 'C27', (RE, '    let (_, answers) = decode_answers(msg)?;\n', '    let (_, mut answers) = decode_answers(msg)?;\n    if let Some((n, _)) = answers.aliases.first().cloned() { answers.addrs.retain(|(o, _)| *o != n); }\n'))
p('27-break-lost', 'C27', (DI, '                ControlFlow::Break(()) => return Ok(ControlFlow::Break(())),\n            },\n            Some(Err', '                ControlFlow::Break(()) => break,\n            },\n            Some(Err'))
p('27-query-ok', 'C27', (DI, '    if !h.is_response() {\n        return Ok(ControlFlow::Continue(()));', '    if !h.is_response() && h.answer_count() == 0 {\n        return Ok(ControlFlow::Continue(()));'))
p('27-undecodable-ends', 'C27', (DI, '            Some(Err(e)) => {\n                log::warn!("failed to decode RR: {:?}", e);\n                continue;', '            Some(Err(e)) => {\n                log::warn!("failed to decode RR: {:?}", e);\n                break;'))
p('27-bad-questions', 'C27', (DI, '    let mut dec = dec.answers()?;\n', '    let Ok(mut dec) = dec.answers() else { return Ok(ControlFlow::Continue(())) };\n'))
p('27-keep-partial', 'C27', (RE, '    let (_, answers) = decode_answers(msg)?;\n', '    let answers = match decode_answers(msg) { Ok((_, a)) => a, Err(e) => { ip_buf.clear(); return Err(e) } };\n'))
# counters that wrap, bounded memories, truncated sizes
U = lambda v: f'        {v} = u16::try_from({v} as usize + 1).unwrap();\n'
p('v03-pos-u16', 'C03', (D, '    fn advance(&self, by: usize) {\n        self.pos.set(self.pos.get() + by);', '    fn advance(&self, by: usize) {\n        self.pos.set((self.pos.get() as u16).wrapping_add(by as u16) as usize);'))
p('v05-pos-u16', 'C05', (E, '            let lenpos = w.pos;\n', '            let lenpos = w.pos as u16 as usize;\n') if False else (E, '        let lenpos = w.pos;\n', '        let lenpos = w.pos as u16 as usize;\n'))
p('v04-rdlen-cap', 'C04', (D, '    fn split_off(&self, len: usize) -> Result<Reader<\'a>, Error> {\n', '    fn split_off(&self, len: usize) -> Result<Reader<\'a>, Error> {\n        let len = if len > 0x7fff { len & 0x7fff } else { len };\n'))
p('v11-frozen', 'C11', (AD, 'pub struct Advertiser {\n', 'pub struct Advertiser {\n    served: bool,\n'), (AD, '            discovery_domain: DomainName::from_str', '            served: false,\n            discovery_domain: DomainName::from_str'), (AD, '        let mut dec = MessageDecoder::new(packet)?;\n        if !dec', '        self.served = true;\n        let mut dec = MessageDecoder::new(packet)?;\n        if !dec'), (AD, '    pub fn add_name(&mut self, hostname: Label, addr: IpAddr) {\n        let mut host', '    pub fn add_name(&mut self, hostname: Label, addr: IpAddr) {\n        if self.served { return; }\n        let mut host'))
p('v11-count-u16', 'C11', (AD, 'pub struct Advertiser {\n', 'pub struct Advertiser {\n    served: u16,\n'), (AD, '            discovery_domain: DomainName::from_str', '            served: 0,\n            discovery_domain: DomainName::from_str'), (AD, '        let mut dec = MessageDecoder::new(packet)?;\n        if !dec', '        self.served += 1;\n        let mut dec = MessageDecoder::new(packet)?;\n        if !dec'))
p('v12-count-u16', 'C12', (AD, '        loop {\n            let (len', '        let mut n = 0u16;\n        loop {\n            n += 1;\n            log::trace!("{n}");\n            let (len'))
p('v12-count-stop', 'C12', (AD, '        loop {\n            let (len', '        for _ in 0..=u16::MAX {\n            let (len'), (AD, '''                    log::debug!("failed to handle packet: {}", e);
                }
            }
        }
    }
}
''', '''                    log::debug!("failed to handle packet: {}", e);
                }
            }
        }
        Ok(())
    }
}
'''))
p('v23-count-u16', 'C23', (AAD, '        loop {\n            let (len', '        let mut n = 0u16;\n        loop {\n            n += 1;\n            log::trace!("{n}");\n            let (len'))
p('v24-count-u16', 'C24', (TAP, '        loop {\n            let mut buf', '        let mut n = 0u16;\n        loop {\n            n += 1;\n            log::trace!("{n}");\n            let mut buf'))
p('v16-count-u16', 'C16', (RE, '        loop {\n            let mut recv_buf', '        let mut n = 0u16;\n        loop {\n            n += 1;\n            log::trace!("{n}");\n            let mut recv_buf'))
p('v21-count-u16', 'C21', (AR, '        loop {\n            let mut recv_buf', '        let mut n = 0u16;\n        loop {\n            n += 1;\n            log::trace!("{n}");\n            let mut recv_buf'))
p('v14-sends-u16', 'C14', (DI, "        'retransmit: loop {\n", "        let mut n = 0u16;\n        'retransmit: loop {\n            n += 1;\n            log::trace!(\"{n}\");\n"))
p('v14-sends-u12', 'C14', (DI, "        'retransmit: loop {\n", "        let mut n = 0u16;\n        'retransmit: loop {\n            n += 1;\n            if n > 4095 { return Ok(()); }\n"))
p('v22-sends-u12', 'C22', (ADI, "        'retransmit: loop {\n", "        let mut n = 0u16;\n        'retransmit: loop {\n            n += 1;\n            if n > 4095 { return Ok(()); }\n"))
p('v13-recv-u16', 'C13', (DI, '                let mut recv_buf', '                got += 1;\n                log::trace!("{got}");\n                let mut recv_buf'), (DI, "        'retransmit: loop {\n", "        let mut got = 0u16;\n        'retransmit: loop {\n"))
p('v13-lru', 'C13', (DI, '            match instances.entry(instance) {\n', '            if instances.len() > 600 { instances.clear(); }\n            match instances.entry(instance) {\n'))
p('v13-types-lru', 'C13', (DI, '            match service_types.entry(service) {\n', '            if service_types.len() > 600 { service_types.clear(); }\n            match service_types.entry(service) {\n'))
p('v22-lru', 'C22', (ADI, '            match instances.entry(instance) {\n', '            if instances.len() > 600 { instances.clear(); }\n            match instances.entry(instance) {\n'))
p('v14-millis32', 'C14', (DI, 'if remaining.is_zero() {', 'if discovery_start.elapsed().as_millis() as u32 >= self.discovery_timeout.as_millis() as u32 {'))
p('v22-millis32', 'C22', (ADI, 'if remaining.is_zero() {', 'if discovery_start.elapsed().as_millis() as u32 >= self.discovery_timeout.as_millis() as u32 {'))
p('v17-millis32', 'C17', (RE, 'self.sock.set_read_timeout(Some(timeout))?;', 'self.sock.set_read_timeout(Some(Duration::from_millis(timeout.as_millis() as u32 as u64).max(Duration::from_millis(1))))?;'))
p('v21-secs32', 'C21', (AR, 'Timer::after(self.timeout).await;', 'Timer::after(Duration::new(self.timeout.as_secs() as i32 as u64 & 0x7fff_ffff, self.timeout.subsec_nanos())).await;'))
