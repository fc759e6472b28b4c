"""Edits that keep the behaviour: every check listed has to stay quiet.
`python3 tools/probe.py --quiet [ID..]`. Each entry: id, properties, [(file, old, new)...];
old=None..: (file, start marker, end marker, new) replaces from the first marker up to the second."""
from probes import D, R, E, P, N, SV, AD, DI, RE, TAP, AR, ADI, AAD
REF = []
def r(id, props, *edits): REF.append((id, props.split(), edits))

r('f1-collect-questions', 'C01 C10 C11 C12 C20 C23', (AD,
'''        let mut have_relevant_answer = false;
        for res in dec.iter() {
            let q = res?;
            log::debug!("Q: {q}");

            for entry in &self.db.entries {
                if !q.qclass().matches(entry.class) {
                    continue;
                }
                if !q.qtype().matches(entry.record.record_type()) {
                    continue;
                }
                if !q.qname().eq_ignore_ascii_case(&entry.name) {
                    continue;
                }

                log::debug!("matches: {}", entry.record);
                have_relevant_answer = true;
                enc.add_answer(
                    ResourceRecord::new(&entry.name, &entry.record)
                        .class(entry.class)
                        .ttl(entry.ttl),
                );
            }
        }

        if have_relevant_answer {
            let len = enc.finish().ok().unwrap_or(self.response_buf.len()); // truncated replies should still get sent
            Ok(Some(&self.response_buf[..len]))
        } else {
            Ok(None)
        }
''', '''        let questions = dec.iter().collect::<Result<Vec<_>, _>>()?;
        let entries = &self.db.entries;
        let matching: Vec<&Entry> = questions
            .iter()
            .flat_map(|q| entries.iter().filter(move |e| e.answers(q)))
            .collect();
        if matching.is_empty() {
            return Ok(None);
        }
        for entry in matching {
            enc.add_answer(entry.rr());
        }
        let len = match enc.finish() {
            Ok(len) => len,
            Err(_) => self.response_buf.len(),
        };
        Ok(Some(&self.response_buf[..len]))
'''), (AD, '''            ttl: TTL,
            record,
        }
    }
''', '''            ttl: TTL,
            record,
        }
    }

    fn answers(&self, q: &crate::packet::decoder::Question) -> bool {
        q.qname().eq_ignore_ascii_case(&self.name)
            && q.qtype().matches(self.record.record_type())
            && q.qclass().matches(self.class)
    }

    fn rr(&self) -> ResourceRecord<'_> {
        ResourceRecord::new(&self.name, &self.record).ttl(self.ttl).class(self.class)
    }
'''))

r('f2-serve-one', 'C12 C20 C25', (AD,
'''        let sock = self.adv.create_socket()?;
        let mut recv_buf = [0; MDNS_BUFFER_SIZE];
        loop {
            let (len, addr) = sock.recv_from(&mut recv_buf)?;
            let packet = &recv_buf[..len];

            log::trace!("raw recv from {}: {:x?}", addr, packet);

            match self.adv.handle_packet(packet) {
                Ok(Some(resp)) => {
                    sock.send_to(resp, addr)?;
                }
                Ok(None) => {}
                Err(e) => {
                    log::debug!("failed to handle packet: {}", e);
                }
            }
        }
    }
''', '''        let sock = self.adv.create_socket()?;
        loop {
            self.serve_one(&sock)?;
        }
    }

    fn serve_one(&mut self, sock: &UdpSocket) -> io::Result<()> {
        let mut recv_buf = vec![0; MDNS_BUFFER_SIZE + 1000];
        let (len, addr) = sock.recv_from(&mut recv_buf[..MDNS_BUFFER_SIZE])?;
        recv_buf.truncate(len);
        let response = self.adv.handle_packet(&recv_buf).unwrap_or_else(|e| {
            log::debug!("failed to handle packet: {}", e);
            None
        });
        if let Some(response) = response {
            let response = response.to_vec();
            sock.send_to(&response, &addr)?;
        }
        Ok(())
    }
'''))

r('f2b-vectored-socket', 'C12 C20 C23 C25', (AD,
'''        let sock = Socket::new(Domain::IPV4, Type::DGRAM, Some(Protocol::UDP))?;
        sock.set_reuse_address(true)?;
        sock.bind(&SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 5353).into())?;

        let sock = UdpSocket::from(sock);
        sock.join_multicast_v4(&"224.0.0.251".parse().unwrap(), &Ipv4Addr::UNSPECIFIED)?;

        Ok(sock)
''', '''        let sock = Socket::new(Domain::IPV4, Type::DGRAM, None)?;
        sock.set_reuse_address(true)?;
        let addr = SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 5353);
        sock.bind(&addr.into())?;
        let group = Ipv4Addr::new(224, 0, 0, 251);
        sock.join_multicast_v4(&group, addr.ip())?;
        Ok(sock.into())
'''), (AD, 'use socket2::{Domain, Protocol, Socket, Type};', 'use socket2::{Domain, Socket, Type};'))

r('f3-add-instance', 'C10 C11 C12 C20 C23', (AD,
'''        self.db.entries.push(Entry::new(
            instance_domain.clone(),
            Record::SRV(SRV::new(0, 0, details.port(), details.host().clone())),
        ));
''', ''), (AD, '''            DomainName::from_iter([
                instance.service_name(),
                &instance.service_transport().to_label(),
                &Label::new("local"),
            ]),
            Record::PTR(PTR::new(instance_domain.clone())),
        ));
''', '''            service_domain.clone(),
            Record::PTR(PTR::new(instance_domain.clone())),
        ));
'''), (AD, '''            Record::PTR(PTR::new(service_domain.clone())),
        ));
''', '''            Record::PTR(PTR::new(service_domain)),
        ));
        let srv = SRV::new(0, 0, details.port(), details.host().clone());
        self.db.entries.push(Entry::new(instance_domain, Record::SRV(srv)));
'''))

SQ_SYNC = '''        let discovery_start = Instant::now();
        'retransmit: loop {
            self.sock.send_to(data, self.server)?;

            loop {
                let remaining = self
                    .discovery_timeout
                    .saturating_sub(discovery_start.elapsed());
                if remaining.is_zero() {
                    // Max. discovery time exceeded.
                    return Ok(());
                }

                // Don't wait for the retransmit timeout when the discovery ends before that.
                self.sock
                    .set_read_timeout(Some(self.retransmit_timeout.min(remaining)))?;

                let mut recv_buf = [0; MDNS_BUFFER_SIZE];
                let (b, addr) = match self.sock.recv_from(&mut recv_buf) {
                    Ok(res) => res,
                    Err(e)
                        if e.kind() == io::ErrorKind::WouldBlock
                            || e.kind() == io::ErrorKind::TimedOut =>
                    {
                        if discovery_start.elapsed() >= self.discovery_timeout {
                            return Ok(());
                        }
                        continue 'retransmit;
                    }
                    Err(e) => return Err(e),
                };
                let recv = &recv_buf[..b];
                log::trace!("recv from {}: {}", addr, Hex(recv));

                let res = decode_answer_for(recv, domain, callback);

                match res {
                    Ok(ControlFlow::Continue(())) => {}
                    Ok(ControlFlow::Break(())) => return Ok(()),
                    Err(err) => {
                        log::warn!("failed to decode response: {:?}", err);
                    }
                }
            }
        }
'''
r('f4-discovery-flat', 'C13 C14 C15 C20 C22 C25', (DI, SQ_SYNC, '''        let start = Instant::now();
        let mut recv_buf = vec![0; MDNS_BUFFER_SIZE];
        let mut send = true;
        loop {
            if send {
                self.sock.send_to(data, self.server)?;
                send = false;
            }
            let left = match self.discovery_timeout.checked_sub(start.elapsed()) {
                Some(left) if left > Duration::ZERO => left,
                _ => break,
            };
            let wait = std::cmp::min(left, self.retransmit_timeout);
            self.sock.set_read_timeout(Some(wait))?;
            match self.sock.recv_from(&mut recv_buf) {
                Ok((len, addr)) => {
                    log::trace!("recv from {}: {}", addr, Hex(&recv_buf[..len]));
                    match decode_answer_for(&recv_buf[..len], domain, callback) {
                        Ok(flow) => {
                            if flow.is_break() {
                                break;
                            }
                        }
                        Err(err) => log::warn!("failed to decode response: {:?}", err),
                    }
                }
                Err(e) => match e.kind() {
                    io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut => {
                        send = start.elapsed() < self.discovery_timeout;
                    }
                    _ => return Err(e),
                },
            }
        }
        Ok(())
'''))
r('f4b-discovery-deadline', 'C13 C14 C15 C20 C22 C25', (DI, SQ_SYNC, '''        // (None: too far in the future to be represented.)
        let deadline = Instant::now().checked_add(self.discovery_timeout);
        let left = || match deadline {
            Some(deadline) => deadline.saturating_duration_since(Instant::now()),
            None => Duration::MAX,
        };
        let mut recv_buf = [0; MDNS_BUFFER_SIZE];
        loop {
            self.sock.send_to(data, &self.server)?;
            'receive: loop {
                let remaining = left();
                if remaining.is_zero() {
                    return Ok(());
                }
                self.sock
                    .set_read_timeout(Some(remaining.min(self.retransmit_timeout)))?;
                let b = match self.sock.recv_from(&mut recv_buf) {
                    Ok((b, _)) => b,
                    Err(e)
                        if matches!(
                            e.kind(),
                            io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut
                        ) =>
                    {
                        if left().is_zero() {
                            return Ok(());
                        }
                        break 'receive;
                    }
                    Err(e) => return Err(e),
                };
                if let Ok(ControlFlow::Break(())) =
                    decode_answer_for(&recv_buf[..b], domain, callback)
                {
                    return Ok(());
                }
            }
        }
'''))

r('f5-decode-collect', 'C01 C13 C14 C15 C20 C22', (DI,
'''    let mut dec = dec.answers()?;
    for res in dec.iter() {
        let ans = match res {
            Ok(ans) => ans,
            Err(e) => {
                log::warn!("failed to decode RR: {:?}", e);
                continue;
            }
        };
        log::debug!("ANS: {}", ans);
        if domain.is_some_and(|domain| !ans.name().eq_ignore_ascii_case(domain)) {
            continue;
        }
        match ans.as_enum() {
            Some(Ok(record)) => match callback(record) {
                ControlFlow::Continue(()) => {}
                ControlFlow::Break(()) => return Ok(ControlFlow::Break(())),
            },
            Some(Err(e)) => {
                log::warn!("failed to decode RR: {:?}", e);
                continue;
            }
            None => {}
        }
    }

    Ok(ControlFlow::Continue(()))
''', '''    let mut dec = dec.answers()?;
    let records: Vec<_> = dec.iter().filter_map(Result::ok).collect();
    for ans in &records {
        let relevant = match domain {
            Some(domain) => ans.name().eq_ignore_ascii_case(domain),
            None => true,
        };
        if !relevant {
            continue;
        }
        if let Some(Ok(record)) = ans.as_enum() {
            if callback(record).is_break() {
                return Ok(ControlFlow::Break(()));
            }
        }
    }

    Ok(ControlFlow::Continue(()))
'''))

SEEN_I = '''            match instances.entry(instance) {
                Entry::Vacant(e) => {
                    let flow = callback(e.key());
                    e.insert(());
                    flow
                }
                Entry::Occupied(_) => {
                    // Already discovered this instance
                    ControlFlow::Continue(())
                }
            }
'''
SEEN_S = SEEN_I.replace('instances', 'service_types').replace('instance)', 'service)').replace('this instance', 'this service')
for nm, f in (('sync', DI), ('async', ADI)):
    r('f6-seen-'+nm, 'C13 C15 C20' if nm == 'sync' else 'C22',
      (f, SEEN_I, '''            if instances.insert(instance.clone()) {
                callback(&instance)
            } else {
                ControlFlow::Continue(())
            }
'''), (f, SEEN_S, '''            if service_types.contains(&service) {
                return ControlFlow::Continue(());
            }
            service_types.push(service);
            callback(service_types.last().unwrap())
'''), (f, 'let mut instances = BTreeMap::new();', 'let mut instances = std::collections::HashSet::new();'),
      (f, 'let mut service_types = BTreeMap::new();', 'let mut service_types: Vec<Service> = Vec::new();'),
      (f, '    collections::{btree_map::Entry, BTreeMap},\n', ''))

r('f7-resolver', 'C16 C17 C20 C21 C25', (RE, '''    is_multicast: bool,
}
''', '''    is_multicast: bool,
    timeout: Duration,
}
'''), (RE, '''            is_multicast: sock.ip().is_multicast(),
        };''', '''            is_multicast: sock.ip().is_multicast(),
            timeout: Self::DEFAULT_TIMEOUT,
        };'''), (RE, '''        self.sock.set_read_timeout(Some(timeout))?;
        Ok(())
''', '''        self.sock.set_read_timeout(Some(timeout))?;
        self.timeout = timeout;
        Ok(())
'''), (RE, '''        for addr in &self.servers {
            self.sock.send_to(data, addr)?;
        }

        loop {
            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
            let (b, addr) = self.sock.recv_from(&mut recv_buf)?;
            let recv = &recv_buf[..b];
            log::trace!("recv from {}: {}", addr, Hex(recv));

            match decode_answer_for(recv, name, &mut self.ip_buf) {
                Ok(()) => {
                    if !self.ip_buf.is_empty() {
                        // We return once any answer contains IP addresses.
                        return Ok(self.ip_buf.iter().copied());
                    }
                }
                Err(e) => {
                    log::warn!("failed to decode response from {}: {:?}", addr, e);
                }
            }
        }
''', '''        self.servers
            .iter()
            .try_for_each(|addr| self.sock.send_to(data, addr).map(drop))?;

        let mut recv_buf = vec![0; MDNS_BUFFER_SIZE].into_boxed_slice();
        while self.ip_buf.is_empty() {
            self.sock.set_read_timeout(Some(self.timeout))?;
            let (b, addr) = self.sock.recv_from(&mut recv_buf)?;
            if let Err(e) = decode_answer_for(&recv_buf[..b], name, &mut self.ip_buf) {
                log::warn!("failed to decode response from {}: {:?}", addr, e);
            }
        }
        let addrs = std::mem::take(&mut self.ip_buf);
        Ok(addrs.into_iter())
'''))

r('f7b-alias-closure', 'C01 C16 C17 C20 C21', (RE, '''    let mut names = vec![name];
    let mut i = 0;
    while i < names.len() {
        for (owner, target) in &answers.aliases {
            if owner.eq_ignore_ascii_case(names[i])
                && !names.iter().any(|n| n.eq_ignore_ascii_case(target))
            {
                names.push(target);
            }
        }
        i += 1;
    }

    for (owner, ip) in &answers.addrs {
        if names.iter().any(|n| n.eq_ignore_ascii_case(owner)) {
            ip_buf.push(*ip);
        }
    }
    Ok(())
''', '''    let key = |name: &DomainName| -> Vec<Vec<u8>> {
        name.labels().iter().map(|l| l.as_bytes().to_ascii_lowercase()).collect()
    };
    let mut names = std::collections::HashSet::new();
    names.insert(key(name));
    let mut changed = true;
    while changed {
        changed = false;
        for (owner, target) in &answers.aliases {
            if names.contains(&key(owner)) {
                changed |= names.insert(key(target));
            }
        }
    }

    let relevant = answers.addrs.into_iter().filter(|(owner, _)| names.contains(&key(owner)));
    ip_buf.extend(relevant.map(|(_, ip)| ip));
    Ok(())
'''), (RE, '''    let (_, answers) = decode_answers(msg)?;
    ip_buf.extend(answers.addrs.iter().map(|(_, ip)| ip));
    Ok(())
''', '''    decode_answers(msg).map(|(_, answers)| {
        for (_, ip) in answers.addrs {
            ip_buf.push(ip);
        }
    })
'''))

r('f8-read-name', 'C01 C02 C03 C04 C05 C13 C16 C24 C26', (D, '''        let mut domain_name = DomainName::ROOT;
        let mut min_pos = self.pos.get();
        // Where reading continues after the name, once that's known.
        let mut end_pos = None;
        let mut copy = self.clone();
        loop {
            let length = copy.peek_u8()?;
            match length & 0b1100_0000 {
                0b1100_0000 => {
                    // 16-bit pointer to somewhere else in the UDP message.
                    let ptr = usize::from(copy.read_u16()? & 0b0011_1111_1111_1111);
                    if ptr >= min_pos {
                        // We require pointers to point to an earlier part of the message, to
                        // prevent loops. The specification is unclear about what exactly is
                        // allowed.
                        return Err(Error::PointerLoop);
                    } else {
                        // Only the first pointer is part of the name's own encoding.
                        end_pos.get_or_insert(copy.pos.get());
                        min_pos = ptr;
                        copy.pos = ptr.into();
                    }
                }
                0b0000_0000 => {
                    copy.advance(1);

                    // Length byte followed by a label of that many bytes.
                    let length = usize::from(length);
                    if length == 0 {
                        break;
                    }
                    let label = copy.read_slice(length)?;
                    domain_name.push_label(Label::try_new(label)?);
                }
                _ => return Err(Error::InvalidValue), // anything but 00 and 11 in MSb is reserved
            }
        }

        self.pos.set(end_pos.unwrap_or(copy.pos.get()));
        Ok(domain_name)
''', '''        let buf = self.full_buf;
        let byte = |i: usize| buf.get(i).copied().ok_or(Error::Eof);
        let mut labels: Vec<Label> = Vec::with_capacity(4);
        let mut i = self.pos.get();
        let mut limit = i;
        let mut end = None;
        loop {
            let first = byte(i)?;
            if first == 0 {
                i += 1;
                break;
            }
            match first >> 6 {
                0 => {
                    let len = usize::from(first);
                    let bytes = buf.get(i + 1..).and_then(|b| b.get(..len)).ok_or(Error::Eof)?;
                    labels.push(Label::try_new(bytes)?);
                    i += 1 + len;
                }
                3 => {
                    let target = usize::from(first & 0x3f) << 8 | usize::from(byte(i + 1)?);
                    if target >= limit {
                        return Err(Error::PointerLoop);
                    }
                    if end.is_none() {
                        end = Some(i + 2);
                    }
                    limit = target;
                    i = target;
                }
                _ => return Err(Error::InvalidValue),
            }
        }
        self.pos.set(end.unwrap_or(i));
        Ok(DomainName::from_iter(labels))
'''), (D, '''        match self.full_buf.get(pos..pos + len) {
            Some(slice) => {
                self.advance(len);
                Ok(slice)
            }
            None => Err(Error::Eof),
        }
''', '''        let slice = self.full_buf[pos..].get(..len).ok_or(Error::Eof)?;
        self.pos.set(pos + len);
        Ok(slice)
'''), (D, '''    fn peek_u8(&self) -> Result<u8, Error> {
        self.full_buf.get(self.pos.get()).copied().ok_or(Error::Eof)
    }

''', ''))

r('f8b-format-sections', 'C01 C03 C24 C26', (D, '''        for q in msg.iter() {
            let q = q?;
            cb(format_args!("Q: {}", q));
        }
        let mut msg = msg.answers()?;
        for rr in msg.iter() {
            let rr = rr?;
            cb(format_args!("ANS: {}", rr));
        }
        let mut msg = msg.authority()?;
        for rr in msg.iter() {
            let rr = rr?;
            cb(format_args!("AUTH: {}", rr));
        }
        let mut msg = msg.additional()?;
        for rr in msg.iter() {
            let rr = rr?;
            cb(format_args!("ADDL: {}", rr));
        }

        Ok(())
''', '''        while let Some(q) = msg.next() {
            cb(format_args!("Q: {}", q?));
        }
        let mut msg = msg.answers()?;
        while let Some(rr) = msg.next() {
            let text = rr?.to_string();
            cb(format_args!("ANS: {text}"));
        }
        let mut msg = msg.authority()?;
        while let Some(rr) = msg.next() {
            cb(format_args!("{}: {}", "AUTH", rr?));
        }
        let mut msg = msg.additional()?;
        while let Some(rr) = msg.next() {
            cb(format_args!("{}: {}", "ADDL", rr?));
        }
        Ok(())
'''))

r('f8c-decoder-remaining', 'C01 C03 C04 C06 C11 C24', (D, '''        if self.has_errored || *self.remaining() == 0 {
            return None;
        }

        let rr = match self.r.read_resource_record() {
            Ok(q) => q,
            Err(e) => {
                self.has_errored = true;
                return Some(Err(e));
            }
        };

        *self.remaining() -= 1;

        Some(Ok(rr))
''', '''        if self.has_errored {
            return None;
        }
        let left = self.remaining();
        *left = left.checked_sub(1)?;
        let rr = self.r.read_resource_record();
        self.has_errored = rr.is_err();
        Some(rr)
'''), (D, '''        let question = match self.r.read_question() {
            Ok(q) => q,
            Err(e) => {
                self.has_errored = true;
                return Some(Err(e));
            }
        };

        *self.remaining() -= 1;

        Some(Ok(question))
''', '''        let question = self.r.read_question();
        match &question {
            Ok(_) => self.q_remaining -= 1,
            Err(_) => self.has_errored = true,
        }
        Some(question)
'''), (D, '''    pub fn answers(mut self) -> Result<MessageDecoder<'a, section::Answer>, Error> {
        while let Some(res) = self.next() {
            res?;
        }

        Ok(self.change_section())
''', '''    pub fn answers(mut self) -> Result<MessageDecoder<'a, section::Answer>, Error> {
        self.iter().try_for_each(|q| q.map(drop))?;
        Ok(self.change_section())
'''))

r('f9-writer', 'C04 C05 C06 C10 C14 C17', (E, '''        let buf = &mut self.buf[self.pos..];
        if data.len() > buf.len() {
            self.trunc = true;
            buf.copy_from_slice(&data[..buf.len()]);
            self.pos += buf.len();
        } else {
            buf[..data.len()].copy_from_slice(data);
            self.pos += data.len();
        }
''', '''        let room = self.buf.len() - self.pos;
        let n = data.len().min(room);
        self.trunc |= n < data.len();
        self.buf[self.pos..self.pos + n].copy_from_slice(&data[..n]);
        self.pos += n;
'''), (E, '''        for label in name.labels() {
            self.write_u8(label.as_bytes().len() as u8);
            self.write_slice(label.as_bytes());
        }
        // Implicit root label at the end.
        self.write_u8(0);
''', '''        let mut bytes = Vec::new();
        for label in name {
            bytes.push(label.as_bytes().len() as u8);
            bytes.extend_from_slice(label.as_bytes());
        }
        bytes.push(0);
        self.write_slice(&bytes);
'''), (E, '''        // a little inscrutable seek dance :3
        let lenpos = w.pos;
        w.write_u16(0); // dummy length
        let before_rdata = w.pos;
        let mut enc = Encoder {
            w: Writer {
                buf: &mut *w.buf,
                pos: w.pos,
                trunc: w.trunc,
            },
        };
        rr.rdata.encode(&mut enc);
        w.pos = enc.w.pos;
        w.trunc = enc.w.trunc;
        let rdata_len = w.pos - before_rdata;
        let finished_pos = w.pos;
        w.pos = lenpos;
        match rdata_len.try_into() {
            Ok(len) => w.write_u16(len),
            // RDATA is too long to ever fit in a message.
            Err(_) => w.trunc = true,
        }
        w.pos = finished_pos;
''', '''        let len_pos = w.pos;
        w.write_u16(0);
        let start = w.pos;
        let mut enc = Encoder { w: Writer { buf: &mut w.buf[..], pos: start, trunc: w.trunc } };
        rr.rdata.encode(&mut enc);
        let (end, trunc) = (enc.w.pos, enc.w.trunc);
        w.pos = end;
        w.trunc = trunc;
        if let Ok(len) = u16::try_from(end - start) {
            for (dst, src) in w.buf[len_pos..start].iter_mut().zip(len.to_be_bytes()) {
                *dst = src;
            }
        } else {
            w.trunc = true;
        }
'''))

r('f10-set-counts-early', 'C05 C06 C07 C10 C11 C12', (E, '''        match count.checked_add(1) {
            Some(new) => *count = new,
            None => self.trunc = true,
        }
''', '''        if *count == u16::MAX {
            self.trunc = true;
        } else {
            *count += 1;
        }
'''), (E, '''        let bytes_written = self.inner.w.pos;

        if self.inner.w.trunc {
            Err(Error::Truncated)
        } else {
            Ok(bytes_written)
        }
''', '''        match self.inner.w {
            Writer { trunc: true, .. } => Err(Error::Truncated),
            Writer { pos, .. } => Ok(pos),
        }
'''), (E, '''        let trunc = self.w.trunc;
        self.w.modify_header(|h| {
            h.set_qdcount(self.qdcount);
            h.set_ancount(self.ancount);
            h.set_nscount(self.nscount);
            h.set_arcount(self.arcount);
            h.set_truncated(trunc);
        });
''', '''        let trunc = self.w.trunc;
        let (qd, an, ns, ar) = (self.qdcount, self.ancount, self.nscount, self.arcount);
        self.w.modify_header(|h| h.set_truncated(trunc));
        self.w.modify_header(|h| {
            h.set_arcount(ar);
            h.set_nscount(ns);
            h.set_ancount(an);
            h.set_qdcount(qd);
        });
'''))

r('f11-names', 'C02 C08 C10 C13 C16 C17 C19', (N, '''        self.labels.len() == other.labels.len()
            && self
                .labels
                .iter()
                .zip(&other.labels)
                .all(|(a, b)| a.as_bytes().eq_ignore_ascii_case(b.as_bytes()))
''', '''        if self.labels.len() != other.labels.len() {
            return false;
        }
        for i in (0..self.labels.len()).rev() {
            let (a, b) = (self.labels[i].as_bytes(), other.labels[i].as_bytes());
            if a.to_ascii_lowercase() != b.to_ascii_lowercase() {
                return false;
            }
        }
        true
'''), (N, '''        let mut name = DomainName { labels: Vec::new() };
        for label in s.split_terminator('.') {
            name.labels.push(label.parse()?);
        }
        Ok(name)
''', '''        let s = s.strip_suffix('.').unwrap_or(s);
        if s.is_empty() {
            return Ok(Self::ROOT).filter_dot();
        }
        s.split('.').map(Label::try_new).collect::<Result<Vec<_>, _>>().map(|labels| Self { labels })
'''.replace('return Ok(Self::ROOT).filter_dot();', 'return Ok(Self::ROOT);')), (N, '''        let labels: usize = self.labels.iter().map(|l| 1 + l.as_bytes().len()).sum();
        if labels + 1 > Self::MAX_ENCODED_LEN {
            return Err(Error::NameTooLong);
        }
        Ok(())
''', '''        let mut left = Self::MAX_ENCODED_LEN - 1;
        for label in self {
            left = left.checked_sub(label.as_bytes().len() + 1).ok_or(Error::NameTooLong)?;
        }
        Ok(())
'''), (N, '''impl fmt::Display for DomainName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.labels.is_empty() {
            return f.write_char('.');
        }
        for label in &self.labels {
            label.fmt(f)?;
            f.write_char('.')?;
        }
        Ok(())
    }
}''', '''impl fmt::Display for DomainName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.labels.as_slice() {
            [] => f.write_str("."),
            labels => labels.iter().try_for_each(|label| write!(f, "{label}.")),
        }
    }
}'''))

r('f12-txt-vec', 'C01 C10 C15 C18 C20 C22', (SV, '''    map: BTreeMap<String, TxtRecord>,
}
''', '''    map: Vec<TxtRecord>,
}
'''), (SV, '''            map: BTreeMap::new(),
        }
    }

    pub fn from_txt''', '''            map: Vec::new(),
        }
    }

    pub fn from_txt'''), (SV, '''        let mut map = BTreeMap::new();

        for entry in txt.entries() {
            let mut split = entry.splitn(2, |&b| b == b'=');
            let key = split.next().unwrap();
            let key = match String::from_utf8(key.to_vec()) {''', '''        let mut map: Vec<TxtRecord> = Vec::new();

        for entry in txt.entries() {
            let (key, value) = match entry.iter().position(|&b| b == b'=') {
                Some(i) => (&entry[..i], Some(entry[i + 1..].to_vec())),
                None => (&entry[..], None),
            };
            let key = match String::from_utf8(key.to_vec()) {'''), (SV, '''            let entry = map.entry(key.to_ascii_lowercase());
            if let Entry::Occupied(_) = entry {
                log::debug!("TXT key '{}' already occupied, ignoring", entry.key());
            }

            match split.next() {
                Some(value) => {
                    entry.or_insert(TxtRecord {
                        key,
                        value: Some(value.to_vec()),
                    });
                }
                None => {
                    // boolean flag
                    entry.or_insert(TxtRecord { key, value: None });
                }
            }
''', '''            if !map.iter().any(|r| r.key.eq_ignore_ascii_case(&key)) {
                map.push(TxtRecord { key, value });
            }
'''), (SV, '''        self.map
            .insert(key.to_ascii_lowercase(), TxtRecord { key, value: None });
''', '''        self.map.retain(|r| !r.key.eq_ignore_ascii_case(&key));
        self.map.push(TxtRecord { key, value: None });
'''), (SV, '''        self.map.iter().map(|(_, rec)| match &rec.value {''', '''        self.map.iter().map(|rec| match &rec.value {'''),
 (SV, '''            .get(&key.to_ascii_lowercase())
''', '''            .iter()
            .find(|r| r.key.eq_ignore_ascii_case(key))
'''), (SV, 'for (i, rec) in self.map.values().enumerate() {', 'for (i, rec) in self.map.iter().enumerate() {'),
 (SV, '''use std::{
    collections::{btree_map::Entry, BTreeMap},
    fmt,
    str::FromStr,
};''', '''use std::{fmt, str::FromStr};'''))

r('f12b-service-from-ptr', 'C13 C19 C20 C22', (SV, '''        let mut labels = ptr.ptrdname().labels().iter();
        let instance_name = labels.next().ok_or(Error::Eof)?;
        let service_name = labels.next().ok_or(Error::Eof)?;
        let transport = labels.next().ok_or(Error::Eof)?;
        if labels.next().is_none() {
            // Domain missing, this is probably not a valid service.
            return Err(Error::Eof);
        }
        if !service_name.as_bytes().starts_with(b"_") {
            return Err(Error::InvalidValue);
        }
        Ok(ServiceInstance {
            instance_name: instance_name.clone(),
            service: Service {
                name: service_name.clone(),
                transport: match transport.as_bytes() {
                    b"_tcp" => ServiceTransport::TCP,
                    b"_udp" => ServiceTransport::Other,
                    _ => return Err(Error::InvalidValue),
                },
            },
        })
''', '''        let (instance_name, rest) = ptr.ptrdname().labels().split_first().ok_or(Error::Eof)?;
        let service = Service::from_ptr(PTR::new(DomainName::from_iter(rest)))?;
        Ok(Self::from_service(instance_name.clone(), service))
'''), (SV, '''#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct ServiceInstance {''', '''#[derive(Clone, PartialEq, Eq, Hash)]
pub struct ServiceInstance {'''), (SV, '''impl fmt::Display for ServiceInstance {''', '''impl PartialOrd for ServiceInstance {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for ServiceInstance {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.instance_name
            .cmp(&other.instance_name)
            .then_with(|| self.service.cmp(&other.service))
    }
}

impl fmt::Display for ServiceInstance {'''))

r('f13-tap', 'C24 C25 C01', (TAP, '''        loop {
            let mut buf = [0; MDNS_BUFFER_SIZE];
            let (len, addr) = self.sock.recv_from(&mut buf)?;

            let buf = &buf[..len];
            match self.process(addr, buf) {
                Ok(()) => {}
                Err(Error::Eof) if len == MDNS_BUFFER_SIZE => {
                    // The TC bit often does not seem to get set. Maybe I got the buffer size wrong?
                    log::debug!("error: unexpected EOF. However, the receive buffer is filled completely; message truncation is likely");
                }
                Err(e) => {
                    log::warn!("failed to process incoming message: {:?}", e);
                }
            }
        }
''', '''        let mut buf = vec![0; MDNS_BUFFER_SIZE];
        loop {
            let (len, addr) = self.sock.recv_from(&mut buf)?;
            if let Err(e) = self.process(addr, &buf[..len]) {
                if e == Error::Eof && len == buf.len() {
                    log::debug!("error: unexpected EOF. However, the receive buffer is filled completely; message truncation is likely");
                } else {
                    log::warn!("failed to process incoming message: {:?}", e);
                }
            }
        }
'''), (TAP, '''        let msg = MessageDecoder::new(msg)?;
        msg.format(|args| log::debug!("{}", args))
''', '''        MessageDecoder::new(msg)?.format(|args| {
            let line = args.to_string();
            log::debug!("{line}");
        })
'''))

SQ_ASYNC_OLD = '''                let mut recv_buf = [0; MDNS_BUFFER_SIZE];
                let timeout = async {
                    // Don't wait for the retransmit timeout when the discovery ends before that.
                    Timer::after(self.retransmit_timeout.min(remaining)).await;
                    Err(())
                };
                let recv = async { Ok(self.sock.recv_from(&mut recv_buf).await) };
                let (b, addr) = match future::or(recv, timeout).await {
                    Ok(Ok(res)) => res,
                    Ok(Err(e)) => return Err(e),
                    Err(()) => {
'''
r('f14-async-disc', 'C22 C25', (ADI, SQ_ASYNC_OLD, '''                let mut recv_buf = vec![0; MDNS_BUFFER_SIZE];
                timer.set_after(std::cmp::min(self.retransmit_timeout, remaining));
                let timeout = async {
                    (&mut timer).await;
                    None
                };
                let recv = async { Some(self.sock.recv_from(&mut recv_buf).await) };
                let (b, addr) = match future::or(recv, timeout).await {
                    Some(res) => res?,
                    None => {
'''), (ADI, '''        let discovery_start = Instant::now();
''', '''        let discovery_start = Instant::now();
        let mut timer = Timer::never();
'''))
r('f14b-async-disc-readable', 'C22 C25', (ADI, SQ_ASYNC_OLD, '''                let mut recv_buf = [0; MDNS_BUFFER_SIZE];
                let wait = self.retransmit_timeout.min(remaining);
                let timer = Timer::after(wait);
                let sock = &self.sock;
                let mut recv = Box::pin(sock.recv_from(&mut recv_buf));
                let mut timer = Box::pin(timer);
                let res = std::future::poll_fn(|cx| {
                    use std::future::Future;
                    use std::task::Poll;
                    if let Poll::Ready(r) = recv.as_mut().poll(cx) {
                        return Poll::Ready(Ok(r));
                    }
                    timer.as_mut().poll(cx).map(|_| Err(()))
                })
                .await;
                drop(recv);
                let (b, addr) = match res {
                    Ok(Ok(res)) => res,
                    Ok(Err(e)) => return Err(e),
                    Err(()) => {
'''), (ADI, 'use futures_lite::future;\n', ''))
r('f15-async-res', 'C21 C25', (AR, '''            let timeout = async {
                Timer::after(self.timeout).await;
                Err(io::ErrorKind::TimedOut.into())
            };
            let (b, addr) = future::or(self.sock.recv_from(&mut recv_buf), timeout).await?;
''', '''            let mut timer = Timer::after(self.timeout);
            let (b, addr) = loop {
                match self.sock.get_ref().recv_from(&mut recv_buf) {
                    Err(e) if e.kind() == io::ErrorKind::WouldBlock => {}
                    res => break res?,
                }
                let timeout = async {
                    (&mut timer).await;
                    Err(io::Error::from(io::ErrorKind::TimedOut))
                };
                future::or(self.sock.readable(), timeout).await?;
            };
'''), (AR, '''        let mut send_buf = [0; MDNS_BUFFER_SIZE];
''', '''        let mut send_buf = vec![0; MDNS_BUFFER_SIZE];
'''))
r('f15b-async-res-send', 'C21 C25', (AR, '''        for addr in &self.servers {
            self.sock.send_to(data, *addr).await?;
        }
''', '''        for addr in self.servers.clone() {
            self.sock.write_with(|sock| sock.send_to(data, addr)).await?;
        }
'''), (AR, 'self.sock.recv_from(&mut recv_buf), timeout', 'self.sock.read_with(|sock| sock.recv_from(&mut recv_buf)), timeout'))
r('f16-async-adv', 'C23 C25', (AAD, '''        let mut recv_buf = [0; MDNS_BUFFER_SIZE];
        loop {
            let (len, addr) = self.sock.recv_from(&mut recv_buf).await?;
            let packet = &recv_buf[..len];

            log::trace!("raw recv from {}: {:x?}", addr, packet);

            match self.adv.handle_packet(packet) {
                Ok(Some(resp)) => {
                    self.sock.send_to(resp, addr).await?;
                }
                Ok(None) => {}
                Err(e) => {
                    log::debug!("failed to handle packet: {}", e);
                }
            }
        }
''', '''        let Self { adv, sock } = self;
        let mut recv_buf = vec![0; MDNS_BUFFER_SIZE];
        loop {
            let (len, addr) = sock.recv_from(&mut recv_buf).await?;
            let response = match adv.handle_packet(&recv_buf[..len]) {
                Ok(response) => response,
                Err(e) => {
                    log::debug!("failed to handle packet: {}", e);
                    continue;
                }
            };
            if let Some(response) = response {
                sock.send_to(response, addr).await?;
            }
        }
'''))
r('f17-print', 'C01 C24 C26', (D, '''        write!(
            f,
            "{}\\t{}\\t{}\\t{}\\t",
            self.name(),
            self.ttl(),
            self.class(),
            self.type_()
        )?;
        match self.as_enum() {
            Some(Ok(rr)) => {
                write!(f, "{}", rr)?;
            }
            Some(Err(e)) => {
                write!(f, "{}", e)?;
            }
            None => {
                write!(f, "{:02x?}", self.rdata())?;
            }
        }

        Ok(())
''', '''        let head = format!("{}\\t{}\\t{}\\t{}\\t", self.name, self.ttl, self.class, self.type_);
        f.write_str(&head)?;
        match self.as_enum() {
            None => write!(f, "{:02x?}", self.rdata()),
            Some(Ok(rr)) => fmt::Display::fmt(&rr, f),
            Some(Err(e)) => fmt::Display::fmt(&e, f),
        }
'''))
r('f18-disc-query', 'C13 C14 C15 C22', (DI, '''    let mut enc = MessageEncoder::new(buf);
    enc.set_header(header);
    for qtype in qtypes {
        enc.question(encoder::Question::new(domain).ty(*qtype));
    }
    let bytes = enc.finish().unwrap();
    let data = &buf[..bytes];
''', '''    let mut enc = MessageEncoder::new(&mut buf[..]);
    qtypes
        .iter()
        .for_each(|ty| enc.question(encoder::Question::new(domain).ty(*ty)));
    enc.set_header(header);
    let bytes = enc.finish().expect("buffer too small");
    let (data, _) = buf.split_at(bytes);
'''), (DI, '''        let mut domain = DomainName::from_iter([service.name(), &service.transport().to_label()]);
        domain.extend(&self.domain);

        let mut instances''', '''        let transport = service.transport().to_label();
        let labels = [service.name().clone(), transport];
        let domain = DomainName::from_iter(labels.into_iter().chain(self.domain.clone()));

        let mut instances'''))
r('f19-yield', 'C23', (AAD, '            let (len, addr) = self.sock.recv_from(&mut recv_buf).await?;', '            let (len, addr) = self.sock.recv_from(&mut recv_buf).await?;\n            futures_lite::future::yield_now().await;'))
Y = 'futures_lite::future::yield_now().await;'
r('f20-yield-res', 'C21 C25 C20', (AR, "            self.sock.send_to(data, *addr).await?;\n", "            self.sock.send_to(data, *addr).await?;\n            " + Y + "\n"), (AR, "            let recv = &recv_buf[..b];\n", "            let recv = &recv_buf[..b];\n            " + Y + "\n"))
r('f21-yield-disc', 'C22 C25 C20', (ADI, "            self.sock.send_to(data, self.server).await?;\n", "            " + Y + "\n            self.sock.send_to(data, self.server).await?;\n"), (ADI, "                let recv = &recv_buf[..b];\n", "                let recv = &recv_buf[..b];\n                " + Y + "\n"))
# more system calls than needed, none of which changes anything
CALLS = '''        sock.local_addr()?;
        if let Some(e) = sock.take_error()? {
            return Err(e);
        }
        sock.set_broadcast(false)?;
        sock.set_nonblocking(false)?;
        let _ = (sock.read_timeout()?, sock.broadcast()?);
'''
r('f22-socket-calls', 'C12 C20 C23 C24 C25', (AD, '''        sock.join_multicast_v4(&"224.0.0.251".parse().unwrap(), &Ipv4Addr::UNSPECIFIED)?;

        Ok(sock)''', CALLS + '''        sock.set_multicast_loop_v4(true)?;
        sock.join_multicast_v4(&"224.0.0.251".parse().unwrap(), &Ipv4Addr::UNSPECIFIED)?;
        debug_assert!(sock.local_addr().is_ok());

        Ok(sock)'''), (TAP, '''        sock.join_multicast_v4(&"224.0.0.251".parse().unwrap(), &Ipv4Addr::UNSPECIFIED)?;
        sock.set_multicast_loop_v4(true)?;
''', '''        sock.set_multicast_loop_v4(true)?;
''' + CALLS + '''        sock.join_multicast_v4(&"224.0.0.251".parse().unwrap(), &Ipv4Addr::UNSPECIFIED)?;
'''))
r('f23-peek', 'C12 C13 C14 C16 C17 C20 C24 C25', (AD, '            let (len, addr) = sock.recv_from(&mut recv_buf)?;', '            sock.peek_from(&mut recv_buf[..1])?;\n            let (len, addr) = sock.recv_from(&mut recv_buf)?;'), (TAP, '            let (len, addr) = self.sock.recv_from(&mut buf)?;', '            self.sock.peek_from(&mut buf)?;\n            let (len, addr) = self.sock.recv_from(&mut buf)?;'))
r('f24-try-clone', 'C12 C20 C25 C24', (AD, '        let sock = self.adv.create_socket()?;\n', '        let first = self.adv.create_socket()?;\n        let sock = first.try_clone()?;\n        drop(first);\n'), (TAP, '        loop {\n            let mut buf', '        let out = self.sock.try_clone()?;\n        loop {\n            let _ = &out;\n            let mut buf'))
r('f25-hashset', 'C13 C14 C20', (DI, '        let mut instances = BTreeMap::new();', '        let mut instances = std::collections::HashSet::new();'), (DI, '''            match instances.entry(instance) {
                Entry::Vacant(e) => {
                    let flow = callback(e.key());
                    e.insert(());
                    flow
                }
                Entry::Occupied(_) => {
                    // Already discovered this instance
                    ControlFlow::Continue(())
                }
            }''', '''            if instances.insert(instance.clone()) {
                callback(&instance)
            } else {
                ControlFlow::Continue(())
            }'''))
r('f26-logs', 'C01 C10 C11 C12 C13 C16 C17 C20 C21 C22 C23', (AD, '        let mut header = Header::default();\n', '        log::error!("query {:?}: {}", packet, packet.escape_ascii());\n        log::info!("{} records", self.db.entries.len());\n        let mut header = Header::default();\n'), (DI, '                log::trace!("recv from {}: {}", addr, Hex(recv));\n', '                log::error!("recv from {addr:?}: {recv:?} after {:?}", discovery_start.elapsed());\n'), (RE, '            log::trace!("recv from {}: {}", addr, Hex(recv));\n', '            log::info!("recv from {addr:?} for {name:?}: {recv:?}");\n'), (AR, '            log::trace!("recv from {}: {:x?}", addr, recv);\n', '            log::info!("recv from {addr:?} for {name}: {recv:?}");\n            let _ = 1 + 1;\n'))
r('f27-retry-eintr', 'C12 C16 C17 C20 C24 C25', (AD, '            let (len, addr) = sock.recv_from(&mut recv_buf)?;', '''            let (len, addr) = loop {
                match sock.recv_from(&mut recv_buf) {
                    Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
                    r => break r?,
                }
            };'''), (TAP, '            let (len, addr) = self.sock.recv_from(&mut buf)?;', '''            let (len, addr) = loop {
                match self.sock.recv_from(&mut buf) {
                    Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
                    r => break r?,
                }
            };'''))
r('f28-big-buffers', 'C12 C13 C15 C16 C20 C21 C22 C23', (AD, '        let mut recv_buf = [0; MDNS_BUFFER_SIZE];', '        let mut recv_buf = vec![0xaa; 65536];'), (DI, 'let mut recv_buf = [0; MDNS_BUFFER_SIZE];', 'let mut recv_buf = vec![0xaa; 9000];'), (RE, 'let mut recv_buf = [0; MDNS_BUFFER_SIZE];', 'let mut recv_buf = vec![0xaa; 2000];'), (AR, 'let mut recv_buf = [0; MDNS_BUFFER_SIZE];', 'let mut recv_buf = vec![0xaa; 2000];'), (ADI, 'let mut recv_buf = [0; MDNS_BUFFER_SIZE];', 'let mut recv_buf = vec![0xaa; 9000];'), (AAD, 'let mut recv_buf = [0; MDNS_BUFFER_SIZE];', 'let mut recv_buf = vec![0xaa; 65536];'))
r('f29-rebuild-query', 'C13 C14 C15 C17 C20', (DI, '        let data = encode_query(&mut send_buf, domain, qtypes);\n\n        let discovery_start = Instant::now();\n        \'retransmit: loop {\n', '        let discovery_start = Instant::now();\n        \'retransmit: loop {\n            let data = encode_query(&mut send_buf, domain, qtypes);\n'), (RE, '        for addr in &self.servers {\n            self.sock.send_to(data, addr)?;\n        }', '        self.servers\n            .iter()\n            .try_for_each(|addr| self.sock.send_to(data, addr).map(drop))?;'))
r('f30-question-order', 'C13 C14 C15 C16 C17 C20 C21 C22', (DI, '    header.set_id(12345);', '    header.set_id(0x4d2f);'), (RE, '    enc.question(Question::new(&name).ty(QType::A));\n    enc.question(Question::new(&name).ty(QType::AAAA));', '    enc.question(Question::new(&name).ty(QType::AAAA));\n    enc.question(Question::new(&name).ty(QType::A));'))
