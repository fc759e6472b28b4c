From 32595bfdc57cd30f04dccec9c3bffd1341211d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 01/18] fix: report truncated domain name pointers instead of
 panicking

A compression pointer whose second byte lies beyond the end of the data made
read_domain_name unwrap an Eof error, so a single malformed packet could take
down any resolver, discoverer, advertiser or tap.
---
 src/packet/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index ee710bd..d00b1a2 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -110,7 +110,7 @@ impl<'a> Reader<'a> {
             match length & 0b1100_0000 {
                 0b1100_0000 => {
                     // 16-bit pointer to somewhere else in the UDP message.
-                    let ptr = usize::from(copy.read_u16().unwrap() & 0b0011_1111_1111_1111);
+                    let ptr = usize::from(copy.read_u16()? & 0b0011_1111_1111_1111);
                     if ptr >= min_pos {
                         // We require pointers to point to an earlier part of the message, to
                         // prevent loops. The specification is unclear about what exactly is
-- 
2.43.0


From 9ed46221f3dd823203c3a78895a7fa47a23f4fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 02/18] fix: keep all 15 bits of a question's class

Only the most significant bit is the mDNS unicast-response flag. Masking with
0xff turned e.g. class 0x0101 into IN, so an advertiser answered questions
about classes it has no records of.
---
 src/packet/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index d00b1a2..06ceb4f 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -146,7 +146,7 @@ impl<'a> Reader<'a> {
         let qtype = QType(self.read_u16()?);
         let qclass = self.read_u16()?;
         let prefer_unicast = qclass & 0x8000 != 0;
-        let qclass = QClass(qclass & 0xff);
+        let qclass = QClass(qclass & 0x7fff);
         Ok(Question {
             qname,
             qtype,
-- 
2.43.0


From c6fe9c76e47b3085d48dea93b46c8e5f63604f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:39 +0000
Subject: [PATCH 03/18] fix: continue decoding after a name's first pointer

A compression pointer may target bytes whose labels run past the pointer
itself. Taking the furthest position reached made decoding continue behind
those bytes instead of directly after the first pointer, misreading every
following field.
---
 src/packet/decoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index 06ceb4f..571833d 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -1,7 +1,7 @@
 //! DNS packet decoder.
 
 use core::mem;
-use std::{any::TypeId, cell::Cell, cmp, fmt, marker::PhantomData, mem::size_of};
+use std::{any::TypeId, cell::Cell, fmt, marker::PhantomData, mem::size_of};
 
 use bytemuck::AnyBitPattern;
 
@@ -104,6 +104,8 @@ impl<'a> Reader<'a> {
     pub(crate) fn read_domain_name(&self) -> Result<DomainName, Error> {
         let mut domain_name = DomainName::ROOT;
         let mut min_pos = self.pos.get();
+        // Where reading continues after the name, once that's known.
+        let mut end_pos = None;
         let mut copy = self.clone();
         loop {
             let length = copy.peek_u8()?;
@@ -117,7 +119,8 @@ impl<'a> Reader<'a> {
                         // allowed.
                         return Err(Error::PointerLoop);
                     } else {
-                        self.pos.set(cmp::max(self.pos.get(), copy.pos.get()));
+                        // Only the first pointer is part of the name's own encoding.
+                        end_pos.get_or_insert(copy.pos.get());
                         min_pos = ptr;
                         copy.pos = ptr.into();
                     }
@@ -137,7 +140,7 @@ impl<'a> Reader<'a> {
             }
         }
 
-        self.pos.set(cmp::max(self.pos.get(), copy.pos.get()));
+        self.pos.set(end_pos.unwrap_or(copy.pos.get()));
         Ok(domain_name)
     }
 
-- 
2.43.0


From ad874533837285564c52de89241ea324901535f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 04/18] fix: only count entries that were encoded completely

A truncated message announced entries whose bytes are missing, so receivers
failed to decode it, and encoding more than 65535 entries of one section
panicked on the counter.
---
 src/packet/encoder.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/packet/encoder.rs b/src/packet/encoder.rs
index d6a7e6d..dea6663 100644
--- a/src/packet/encoder.rs
+++ b/src/packet/encoder.rs
@@ -35,6 +35,19 @@ impl<'a> Writer<'a> {
         with(h);
     }
 
+    /// Increments the section entry count `count` after an entry was written.
+    ///
+    /// Entries that did not fit are not counted, since a decoder could not read them back.
+    fn count_entry(&mut self, count: &mut u16) {
+        if self.trunc {
+            return;
+        }
+        match count.checked_add(1) {
+            Some(new) => *count = new,
+            None => self.trunc = true,
+        }
+    }
+
     pub(crate) fn write_slice(&mut self, data: &[u8]) {
         let buf = &mut self.buf[self.pos..];
         if data.len() > buf.len() {
@@ -163,7 +176,7 @@ impl<'a> MessageEncoder<'a, section::Question> {
         self.inner.w.write_domain_name(question.name);
         self.inner.w.write_u16(question.ty.0);
         self.inner.w.write_u16(question.class.0);
-        self.inner.qdcount += 1;
+        self.inner.w.count_entry(&mut self.inner.qdcount);
     }
 
     /// Moves the encoder to the *Answer* section.
@@ -208,7 +221,7 @@ impl<'a, S: Section> MessageEncoder<'a, S> {
 impl<'a> MessageEncoder<'a, section::Answer> {
     pub fn add_answer(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.ancount += 1;
+        self.inner.w.count_entry(&mut self.inner.ancount);
     }
 
     /// Moves the encoder to the *Authority* section.
@@ -224,7 +237,7 @@ impl<'a> MessageEncoder<'a, section::Answer> {
 impl<'a> MessageEncoder<'a, section::Authority> {
     pub fn add_authority(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.nscount += 1;
+        self.inner.w.count_entry(&mut self.inner.nscount);
     }
 
     /// Moves the encoder to the *Additional Records* section.
@@ -240,7 +253,7 @@ impl<'a> MessageEncoder<'a, section::Authority> {
 impl<'a> MessageEncoder<'a, section::Additional> {
     pub fn add_additional(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.arcount += 1;
+        self.inner.w.count_entry(&mut self.inner.arcount);
     }
 }
 
-- 
2.43.0


From a493577b6492b3604895b42f7aea02206139717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:20 +0000
Subject: [PATCH 05/18] fix: truncate instead of panicking on RDATA longer than
 65535 bytes

The record cannot be expressed in a DNS message, which is what the encoder's
truncation handling is for.
---
 src/packet/encoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/packet/encoder.rs b/src/packet/encoder.rs
index dea6663..aa60723 100644
--- a/src/packet/encoder.rs
+++ b/src/packet/encoder.rs
@@ -213,7 +213,11 @@ impl<'a, S: Section> MessageEncoder<'a, S> {
         let rdata_len = w.pos - before_rdata;
         let finished_pos = w.pos;
         w.pos = lenpos;
-        w.write_u16(rdata_len.try_into().expect("RDATA length overflows u16"));
+        match rdata_len.try_into() {
+            Ok(len) => w.write_u16(len),
+            // RDATA is too long to ever fit in a message.
+            Err(_) => w.trunc = true,
+        }
         w.pos = finished_pos;
     }
 }
-- 
2.43.0


From 8adfcfe57f0075994f9b7eb8bf8c74674d7efffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:59 +0000
Subject: [PATCH 06/18] fix: ignore case when looking up advertised names

---
 src/name.rs                | 13 +++++++++++++
 src/service/advertising.rs |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/name.rs b/src/name.rs
index 05ca949..314b6b7 100644
--- a/src/name.rs
+++ b/src/name.rs
@@ -119,6 +119,19 @@ impl DomainName {
         &self.labels
     }
 
+    /// Returns whether two domain names are equal when ignoring ASCII case.
+    ///
+    /// DNS names are looked up case-insensitively, so this should be used to find out whether a
+    /// record or question is about a given name.
+    pub fn eq_ignore_ascii_case(&self, other: &DomainName) -> bool {
+        self.labels.len() == other.labels.len()
+            && self
+                .labels
+                .iter()
+                .zip(&other.labels)
+                .all(|(a, b)| a.as_bytes().eq_ignore_ascii_case(b.as_bytes()))
+    }
+
     /// Appends a [`Label`] to the end of this domain name.
     #[inline]
     pub fn push_label(&mut self, label: Label) {
diff --git a/src/service/advertising.rs b/src/service/advertising.rs
index 2d97c53..3d3ae16 100644
--- a/src/service/advertising.rs
+++ b/src/service/advertising.rs
@@ -215,7 +215,7 @@ impl Advertiser {
                 if !q.qtype().matches(entry.record.record_type()) {
                     continue;
                 }
-                if q.qname() != &entry.name {
+                if !q.qname().eq_ignore_ascii_case(&entry.name) {
                     continue;
                 }
 
-- 
2.43.0


From 6a16dfe9641a095dc293032574f2ea40f00afb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:12 +0000
Subject: [PATCH 07/18] fix: end discovery at the discovery timeout instead of
 the next retransmit

---
 src/service/discovery.rs             | 15 ++++++++++++++-
 uwuhi-async/src/service/discovery.rs | 15 ++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index f1dc031..d0442c6 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -29,6 +29,7 @@ pub struct SyncDiscoverer {
     sock: UdpSocket,
     server: SocketAddr,
     domain: DomainName,
+    retransmit_timeout: Duration,
     discovery_timeout: Duration,
 }
 
@@ -48,6 +49,7 @@ impl SyncDiscoverer {
             sock: UdpSocket::bind(bind_addr)?,
             server,
             domain,
+            retransmit_timeout: Self::DEFAULT_RETRANSMIT_TIMEOUT,
             discovery_timeout: Self::DEFAULT_DISCOVERY_TIMEOUT,
         };
         this.set_retransmit_timeout(Self::DEFAULT_RETRANSMIT_TIMEOUT)?;
@@ -66,6 +68,7 @@ impl SyncDiscoverer {
     /// received in this amount of time.
     pub fn set_retransmit_timeout(&mut self, timeout: Duration) -> io::Result<()> {
         self.sock.set_read_timeout(Some(timeout))?;
+        self.retransmit_timeout = timeout;
         Ok(())
     }
 
@@ -235,11 +238,18 @@ impl SyncDiscoverer {
             self.sock.send_to(data, self.server)?;
 
             loop {
-                if discovery_start.elapsed() >= self.discovery_timeout {
+                let remaining = self
+                    .discovery_timeout
+                    .saturating_sub(discovery_start.elapsed());
+                if remaining.is_zero() {
                     // Max. discovery time exceeded.
                     return Ok(());
                 }
 
+                // Don't wait for the retransmit timeout when the discovery ends before that.
+                self.sock
+                    .set_read_timeout(Some(self.retransmit_timeout.min(remaining)))?;
+
                 let mut recv_buf = [0; MDNS_BUFFER_SIZE];
                 let (b, addr) = match self.sock.recv_from(&mut recv_buf) {
                     Ok(res) => res,
@@ -247,6 +257,9 @@ impl SyncDiscoverer {
                         if e.kind() == io::ErrorKind::WouldBlock
                             || e.kind() == io::ErrorKind::TimedOut =>
                     {
+                        if discovery_start.elapsed() >= self.discovery_timeout {
+                            return Ok(());
+                        }
                         continue 'retransmit;
                     }
                     Err(e) => return Err(e),
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index 0acd1f6..9014c58 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -237,21 +237,30 @@ impl AsyncDiscoverer {
             self.sock.send_to(data, self.server).await?;
 
             loop {
-                if discovery_start.elapsed() >= self.discovery_timeout {
+                let remaining = self
+                    .discovery_timeout
+                    .saturating_sub(discovery_start.elapsed());
+                if remaining.is_zero() {
                     // Max. discovery time exceeded.
                     return Ok(());
                 }
 
                 let mut recv_buf = [0; MDNS_BUFFER_SIZE];
                 let timeout = async {
-                    Timer::after(self.retransmit_timeout).await;
+                    // Don't wait for the retransmit timeout when the discovery ends before that.
+                    Timer::after(self.retransmit_timeout.min(remaining)).await;
                     Err(())
                 };
                 let recv = async { Ok(self.sock.recv_from(&mut recv_buf).await) };
                 let (b, addr) = match future::or(recv, timeout).await {
                     Ok(Ok(res)) => res,
                     Ok(Err(e)) => return Err(e),
-                    Err(()) => continue 'retransmit,
+                    Err(()) => {
+                        if discovery_start.elapsed() >= self.discovery_timeout {
+                            return Ok(());
+                        }
+                        continue 'retransmit;
+                    }
                 };
                 let recv = &recv_buf[..b];
                 log::trace!("recv from {}: {}", addr, recv.escape_ascii());
-- 
2.43.0


From 4ea736c09989aec68fa48f8caff487eaba017eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 08/18] fix: reject service names without leading underscore in
 PTR records

---
 src/service.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index cb0a898..171238a 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -81,6 +81,9 @@ impl Service {
             // Domain missing, this is probably not a valid service.
             return Err(Error::Eof);
         }
+        if !service_name.as_bytes().starts_with(b"_") {
+            return Err(Error::InvalidValue);
+        }
         Ok(Service {
             name: service_name.clone(),
             transport: match transport.as_bytes() {
@@ -156,6 +159,9 @@ impl ServiceInstance {
             // Domain missing, this is probably not a valid service.
             return Err(Error::Eof);
         }
+        if !service_name.as_bytes().starts_with(b"_") {
+            return Err(Error::InvalidValue);
+        }
         Ok(ServiceInstance {
             instance_name: instance_name.clone(),
             service: Service {
-- 
2.43.0


From 4883dbdfb6d099a5a7ab913f17572f305669577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:02 +0000
Subject: [PATCH 09/18] fix: ignore discovery answers for other names

---
 src/service/discovery.rs             | 25 ++++++++++++++++++++++++-
 uwuhi-async/src/service/discovery.rs |  2 +-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index d0442c6..7e3856e 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -267,7 +267,7 @@ impl SyncDiscoverer {
                 let recv = &recv_buf[..b];
                 log::trace!("recv from {}: {}", addr, Hex(recv));
 
-                let res = decode_answer(recv, callback);
+                let res = decode_answer_for(recv, domain, callback);
 
                 match res {
                     Ok(ControlFlow::Continue(())) => {}
@@ -306,6 +306,26 @@ pub fn encode_query<'a>(buf: &'a mut [u8], domain: &DomainName, qtypes: &[QType]
 pub fn decode_answer(
     recv: &[u8],
     callback: &mut dyn FnMut(Record<'_>) -> ControlFlow<()>,
+) -> Result<ControlFlow<()>, Error> {
+    decode_answer_impl(recv, None, callback)
+}
+
+/// Decodes `recv` and invokes `callback` with every ANS record inside that belongs to `domain`.
+///
+/// mDNS responses are commonly multicast, so answers to the queries of other hosts (or to earlier
+/// queries) will be received as well.
+pub fn decode_answer_for(
+    recv: &[u8],
+    domain: &DomainName,
+    callback: &mut dyn FnMut(Record<'_>) -> ControlFlow<()>,
+) -> Result<ControlFlow<()>, Error> {
+    decode_answer_impl(recv, Some(domain), callback)
+}
+
+fn decode_answer_impl(
+    recv: &[u8],
+    domain: Option<&DomainName>,
+    callback: &mut dyn FnMut(Record<'_>) -> ControlFlow<()>,
 ) -> Result<ControlFlow<()>, Error> {
     let dec = MessageDecoder::new(recv)?;
     let h = dec.header();
@@ -324,6 +344,9 @@ pub fn decode_answer(
             }
         };
         log::debug!("ANS: {}", ans);
+        if domain.is_some_and(|domain| !ans.name().eq_ignore_ascii_case(domain)) {
+            continue;
+        }
         match ans.as_enum() {
             Some(Ok(record)) => match callback(record) {
                 ControlFlow::Continue(()) => {}
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index 9014c58..5610a2f 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -265,7 +265,7 @@ impl AsyncDiscoverer {
                 let recv = &recv_buf[..b];
                 log::trace!("recv from {}: {}", addr, recv.escape_ascii());
 
-                let res = decode_answer(recv, callback);
+                let res = decode_answer_for(recv, domain, callback);
 
                 match res {
                     Ok(ControlFlow::Continue(())) => {}
-- 
2.43.0


From a3d7faa816959bede73f826606cd5c03a44100c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 10/18] fix: wait for the TXT record when loading instance
 details

---
 src/service/discovery.rs             | 15 +++++++++------
 uwuhi-async/src/service/discovery.rs | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index 7e3856e..0b24d36 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -105,9 +105,7 @@ impl SyncDiscoverer {
                     match InstanceDetails::from_srv(&srv) {
                         Ok(det) => {
                             // FIXME: respect SRV priority, as required by RFC 6763
-                            details = Some(det);
-                            // FIXME: breaking here ignores any subsequent TXT records!
-                            ControlFlow::Break(())
+                            details.get_or_insert(det);
                         }
                         Err(e) => {
                             log::debug!(
@@ -115,15 +113,20 @@ impl SyncDiscoverer {
                                 e,
                                 srv
                             );
-                            ControlFlow::Continue(())
                         }
                     }
                 }
                 Record::TXT(txt) => {
                     txt_records = Some(TxtRecords::from_txt(&txt));
-                    ControlFlow::Continue(())
                 }
-                _ => ControlFlow::Continue(()),
+                _ => {}
+            }
+
+            // The SRV and TXT records can be received in any order, so wait for both.
+            if details.is_some() && txt_records.is_some() {
+                ControlFlow::Break(())
+            } else {
+                ControlFlow::Continue(())
             }
         })?;
 
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index 5610a2f..a3734e9 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -97,9 +97,7 @@ impl AsyncDiscoverer {
                     match InstanceDetails::from_srv(&srv) {
                         Ok(det) => {
                             // FIXME: respect SRV priority, as required by RFC 6763
-                            details = Some(det);
-                            // FIXME: breaking here ignores any subsequent TXT records!
-                            ControlFlow::Break(())
+                            details.get_or_insert(det);
                         }
                         Err(e) => {
                             log::debug!(
@@ -107,15 +105,20 @@ impl AsyncDiscoverer {
                                 e,
                                 srv
                             );
-                            ControlFlow::Continue(())
                         }
                     }
                 }
                 Record::TXT(txt) => {
                     txt_records = Some(TxtRecords::from_txt(&txt));
-                    ControlFlow::Continue(())
                 }
-                _ => ControlFlow::Continue(()),
+                _ => {}
+            }
+
+            // The SRV and TXT records can be received in any order, so wait for both.
+            if details.is_some() && txt_records.is_some() {
+                ControlFlow::Break(())
+            } else {
+                ControlFlow::Continue(())
             }
         })
         .await?;
-- 
2.43.0


From 8b682d871a17505990ebc4670bb7df497732e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 11/18] fix: ignore TXT entries without a key

---
 src/service.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index 171238a..41cbc96 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -290,6 +290,10 @@ impl TxtRecords {
                     continue;
                 }
             };
+            if key.is_empty() {
+                // RFC 6763 requires entries without a key to be ignored.
+                continue;
+            }
             let entry = map.entry(key.to_ascii_lowercase());
             if let Entry::Occupied(_) = entry {
                 log::debug!("TXT key '{}' already occupied, ignoring", entry.key());
-- 
2.43.0


From dbd152d971b930b78bf3e1ad3852e977e349efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 12/18] fix: discard addresses from malformed resolver
 responses

---
 src/resolver.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/resolver.rs b/src/resolver.rs
index 6a98bf1..43ba3c9 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -164,7 +164,18 @@ pub fn encode_query<'a>(buf: &'a mut [u8], name: &DomainName) -> &'a [u8] {
 }
 
 /// Decodes an answer packet from a DNS resolver, adding any contained IP addresses to `ip_buf`.
+///
+/// If the packet is malformed, an error is returned and `ip_buf` is left unchanged.
 pub fn decode_answer(msg: &[u8], ip_buf: &mut Vec<IpAddr>) -> Result<(), Error> {
+    let len = ip_buf.len();
+    let res = decode_answer_impl(msg, ip_buf);
+    if res.is_err() {
+        ip_buf.truncate(len);
+    }
+    res
+}
+
+fn decode_answer_impl(msg: &[u8], ip_buf: &mut Vec<IpAddr>) -> Result<(), Error> {
     let dec = MessageDecoder::new(msg)?;
     let h = dec.header();
     log::trace!("header: {:?}", h);
-- 
2.43.0


From bd45ba5df2c7d2cab6bc6815619311fa200de160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:02 +0000
Subject: [PATCH 13/18] fix: only use resolver responses that match the query

---
 src/resolver.rs             | 78 +++++++++++++++++++++++++++++++------
 uwuhi-async/src/resolver.rs |  2 +-
 2 files changed, 67 insertions(+), 13 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 43ba3c9..59a9095 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -20,6 +20,9 @@ use crate::{
 
 use crate::{DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};
 
+/// The ID of all queries; responses repeat it.
+const QUERY_ID: u16 = 12345;
+
 /// A simple, synchronous, non-recursive (m)DNS stub resolver.
 pub struct SyncResolver {
     servers: Vec<SocketAddr>,
@@ -133,7 +136,7 @@ impl SyncResolver {
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {}", addr, Hex(recv));
 
-            match decode_answer(recv, &mut self.ip_buf) {
+            match decode_answer_for(recv, name, &mut self.ip_buf) {
                 Ok(()) => {
                     if !self.ip_buf.is_empty() {
                         // We return once any answer contains IP addresses.
@@ -154,7 +157,7 @@ impl SyncResolver {
 pub fn encode_query<'a>(buf: &'a mut [u8], name: &DomainName) -> &'a [u8] {
     let mut header = Header::default();
     header.set_recursion_desired(true);
-    header.set_id(12345);
+    header.set_id(QUERY_ID);
     let mut enc = MessageEncoder::new(buf);
     enc.set_header(header);
     enc.question(Question::new(&name).ty(QType::A));
@@ -167,32 +170,83 @@ pub fn encode_query<'a>(buf: &'a mut [u8], name: &DomainName) -> &'a [u8] {
 ///
 /// If the packet is malformed, an error is returned and `ip_buf` is left unchanged.
 pub fn decode_answer(msg: &[u8], ip_buf: &mut Vec<IpAddr>) -> Result<(), Error> {
-    let len = ip_buf.len();
-    let res = decode_answer_impl(msg, ip_buf);
-    if res.is_err() {
-        ip_buf.truncate(len);
+    let (_, answers) = decode_answers(msg)?;
+    ip_buf.extend(answers.addrs.iter().map(|(_, ip)| ip));
+    Ok(())
+}
+
+/// Decodes the response to the query created by [`encode_query`], adding the IP addresses of `name`
+/// (or of the canonical name it is an alias of) to `ip_buf`.
+///
+/// Responses to other queries, and addresses of unrelated names are ignored. If the packet is
+/// malformed, an error is returned and `ip_buf` is left unchanged.
+pub fn decode_answer_for(
+    msg: &[u8],
+    name: &DomainName,
+    ip_buf: &mut Vec<IpAddr>,
+) -> Result<(), Error> {
+    let (id, answers) = decode_answers(msg)?;
+    if id != QUERY_ID {
+        return Ok(());
+    }
+
+    // The records can be in any order, so follow the aliases until there are no new ones.
+    let mut names = vec![name];
+    let mut i = 0;
+    while i < names.len() {
+        for (owner, target) in &answers.aliases {
+            if owner.eq_ignore_ascii_case(names[i])
+                && !names.iter().any(|n| n.eq_ignore_ascii_case(target))
+            {
+                names.push(target);
+            }
+        }
+        i += 1;
     }
-    res
+
+    for (owner, ip) in &answers.addrs {
+        if names.iter().any(|n| n.eq_ignore_ascii_case(owner)) {
+            ip_buf.push(*ip);
+        }
+    }
+    Ok(())
+}
+
+#[derive(Default)]
+struct Answers {
+    addrs: Vec<(DomainName, IpAddr)>,
+    aliases: Vec<(DomainName, DomainName)>,
 }
 
-fn decode_answer_impl(msg: &[u8], ip_buf: &mut Vec<IpAddr>) -> Result<(), Error> {
+/// Collects the relevant answers in a response (none if it isn't a response), and its ID.
+fn decode_answers(msg: &[u8]) -> Result<(u16, Answers), Error> {
     let dec = MessageDecoder::new(msg)?;
     let h = dec.header();
     log::trace!("header: {:?}", h);
+    let id = h.id();
+    let mut answers = Answers::default();
     if !h.is_response() {
-        return Ok(());
+        return Ok((id, answers));
     }
 
     for res in dec.answers()?.iter() {
         let ans = res?;
         log::debug!("ANS: {}", ans);
+        let owner = ans.name().clone();
         match ans.as_enum() {
-            Some(Ok(Record::A(a))) => ip_buf.push(IpAddr::V4(a.addr().octets().into())),
-            Some(Ok(Record::AAAA(a))) => ip_buf.push(IpAddr::V6(a.addr().octets().into())),
+            Some(Ok(Record::A(a))) => {
+                let ip = IpAddr::V4(a.addr().octets().into());
+                answers.addrs.push((owner, ip));
+            }
+            Some(Ok(Record::AAAA(a))) => {
+                let ip = IpAddr::V6(a.addr().octets().into());
+                answers.addrs.push((owner, ip));
+            }
+            Some(Ok(Record::CNAME(c))) => answers.aliases.push((owner, c.cname().clone())),
             Some(Err(e)) => return Err(e),
             _ => {}
         }
     }
 
-    Ok(())
+    Ok((id, answers))
 }
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index c1221eb..abb52a7 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -130,7 +130,7 @@ impl AsyncResolver {
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {:x?}", addr, recv);
 
-            match decode_answer(recv, &mut self.ip_buf) {
+            match decode_answer_for(recv, name, &mut self.ip_buf) {
                 Ok(()) => {
                     if !self.ip_buf.is_empty() {
                         // We return once any answer contains IP addresses.
-- 
2.43.0


From b0af14679f195c140f624fa984902c50710bc7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:18 +0000
Subject: [PATCH 14/18] fix: receive DNS responses larger than 512 bytes in the
 resolver

---
 src/resolver.rs             | 4 ++--
 uwuhi-async/src/resolver.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 59a9095..50df9b9 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -18,7 +18,7 @@ use crate::{
     Error,
 };
 
-use crate::{DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};
+use crate::MDNS_BUFFER_SIZE;
 
 /// The ID of all queries; responses repeat it.
 const QUERY_ID: u16 = 12345;
@@ -131,7 +131,7 @@ impl SyncResolver {
         }
 
         loop {
-            let mut recv_buf = [0; DNS_BUFFER_SIZE];
+            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
             let (b, addr) = self.sock.recv_from(&mut recv_buf)?;
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {}", addr, Hex(recv));
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index abb52a7..6a17fb4 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -9,7 +9,7 @@ use std::{
 use async_io::{Async, Timer};
 use futures_lite::future;
 pub use uwuhi::resolver::*;
-use uwuhi::{name::DomainName, DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};
+use uwuhi::{name::DomainName, MDNS_BUFFER_SIZE};
 
 pub struct AsyncResolver {
     servers: Vec<SocketAddr>,
@@ -121,7 +121,7 @@ impl AsyncResolver {
         }
 
         loop {
-            let mut recv_buf = [0; DNS_BUFFER_SIZE];
+            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
             let timeout = async {
                 Timer::after(self.timeout).await;
                 Err(io::ErrorKind::TimedOut.into())
-- 
2.43.0


From c0b855449304929ed7574be71d213cfa4dceb8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 15/18] fix: refuse additional servers for multicast resolvers
 as documented

---
 src/resolver.rs             | 2 +-
 uwuhi-async/src/resolver.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 50df9b9..548106b 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -45,7 +45,7 @@ impl SyncResolver {
             servers: vec![sock],
             sock: UdpSocket::bind(bind_addr)?,
             ip_buf: Vec::new(),
-            is_multicast: bind_addr.ip().is_multicast(),
+            is_multicast: sock.ip().is_multicast(),
         };
         this.set_timeout(Self::DEFAULT_TIMEOUT)?;
         Ok(this)
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 6a17fb4..c3c7b29 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -33,7 +33,7 @@ impl AsyncResolver {
             servers: vec![server],
             sock: Async::<UdpSocket>::bind(bind_addr)?,
             ip_buf: Vec::new(),
-            is_multicast: bind_addr.ip().is_multicast(),
+            is_multicast: server.ip().is_multicast(),
             timeout: Self::DEFAULT_TIMEOUT,
         })
     }
-- 
2.43.0


From b85537c88f1f9d35883bab0d3902cafc97cc9c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 16/18] fix: report names that are too long to be queried
 instead of panicking

---
 src/error.rs                         |  7 +++++++
 src/name.rs                          | 14 ++++++++++++++
 src/resolver.rs                      |  1 +
 src/service/discovery.rs             |  2 ++
 uwuhi-async/src/resolver.rs          |  1 +
 uwuhi-async/src/service/discovery.rs |  2 ++
 6 files changed, 27 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index e1d2095..4a2aac1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -22,6 +22,8 @@ pub enum Error {
     InvalidEmptyLabel,
     /// A label exceeded the maximum allowable length of a label.
     LabelTooLong,
+    /// A domain name exceeded the maximum allowable length of a domain name.
+    NameTooLong,
 }
 
 impl Error {
@@ -33,6 +35,7 @@ impl Error {
             Error::Truncated => "packet truncated",
             Error::InvalidEmptyLabel => "invalid empty label",
             Error::LabelTooLong => "label too long",
+            Error::NameTooLong => "domain name too long",
         }
     }
 }
@@ -62,6 +65,10 @@ impl From<Error> for io::Error {
                 io::ErrorKind::InvalidInput,
                 "domain name label exceeds maximum label length",
             ),
+            Error::NameTooLong => io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "domain name exceeds maximum domain name length",
+            ),
             Error::Truncated => io::ErrorKind::OutOfMemory.into(),
         }
     }
diff --git a/src/name.rs b/src/name.rs
index 314b6b7..9716024 100644
--- a/src/name.rs
+++ b/src/name.rs
@@ -101,6 +101,9 @@ impl DomainName {
     /// The empty root domain `.`.
     pub const ROOT: Self = Self { labels: Vec::new() };
 
+    /// The maximum length of an encoded domain name, including the trailing empty label.
+    pub const MAX_ENCODED_LEN: usize = 255;
+
     /// Parses a domain name as a string of `.`-separated labels.
     ///
     /// A trailing `.` is allowed but not required.
@@ -132,6 +135,17 @@ impl DomainName {
                 .all(|(a, b)| a.as_bytes().eq_ignore_ascii_case(b.as_bytes()))
     }
 
+    /// Checks that this domain name is short enough to be used in a query.
+    ///
+    /// Returns [`Error::NameTooLong`] if it exceeds [`DomainName::MAX_ENCODED_LEN`].
+    pub fn check_encoded_len(&self) -> Result<(), Error> {
+        let labels: usize = self.labels.iter().map(|l| 1 + l.as_bytes().len()).sum();
+        if labels + 1 > Self::MAX_ENCODED_LEN {
+            return Err(Error::NameTooLong);
+        }
+        Ok(())
+    }
+
     /// Appends a [`Label`] to the end of this domain name.
     #[inline]
     pub fn push_label(&mut self, label: Label) {
diff --git a/src/resolver.rs b/src/resolver.rs
index 548106b..d56edf7 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -119,6 +119,7 @@ impl SyncResolver {
         name: &DomainName,
     ) -> io::Result<impl Iterator<Item = IpAddr> + '_> {
         self.ip_buf.clear();
+        name.check_encoded_len()?;
 
         let mut send_buf = [0; MDNS_BUFFER_SIZE];
         let data = encode_query(&mut send_buf, name);
diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index 0b24d36..8092257 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -233,6 +233,8 @@ impl SyncDiscoverer {
         qtypes: &[QType],
         callback: &mut dyn FnMut(Record<'_>) -> ControlFlow<()>,
     ) -> io::Result<()> {
+        domain.check_encoded_len()?;
+
         let mut send_buf = [0; MDNS_BUFFER_SIZE];
         let data = encode_query(&mut send_buf, domain, qtypes);
 
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index c3c7b29..07a2200 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -109,6 +109,7 @@ impl AsyncResolver {
         name: &DomainName,
     ) -> io::Result<impl Iterator<Item = IpAddr> + '_> {
         self.ip_buf.clear();
+        name.check_encoded_len()?;
 
         let mut send_buf = [0; MDNS_BUFFER_SIZE];
         let data = encode_query(&mut send_buf, name);
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index a3734e9..ff096b1 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -232,6 +232,8 @@ impl AsyncDiscoverer {
         qtypes: &[QType],
         callback: &mut (dyn FnMut(Record<'_>) -> ControlFlow<()> + Send),
     ) -> io::Result<()> {
+        domain.check_encoded_len()?;
+
         let mut send_buf = [0; MDNS_BUFFER_SIZE];
         let data = encode_query(&mut send_buf, domain, qtypes);
 
-- 
2.43.0


From c2156f4575d355f383bc9eab2b0cf200e682ef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:36 +0000
Subject: [PATCH 17/18] fix: reject overlong TXT entries up front instead of
 when answering queries

---
 src/packet/records.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/packet/records.rs b/src/packet/records.rs
index ee15107..95e5715 100644
--- a/src/packet/records.rs
+++ b/src/packet/records.rs
@@ -448,7 +448,8 @@ impl<'a> TXT<'a> {
     ///
     /// # Panics
     ///
-    /// This method will panic if `entries` is empty.
+    /// This method will panic if `entries` is empty, or if any entry is longer than 255 bytes (such
+    /// an entry cannot be encoded).
     pub fn new<I, T>(entries: I) -> Self
     where
         I: IntoIterator<Item = T>,
@@ -458,6 +459,10 @@ impl<'a> TXT<'a> {
             entries: entries.into_iter().map(|t| t.into()).collect(),
         };
         assert!(!this.entries.is_empty());
+        assert!(
+            this.entries().all(|entry| entry.len() <= 255),
+            "TXT entries must not be longer than 255 bytes",
+        );
         this
     }
 
-- 
2.43.0


From c35ec0898d2af29d8c80888b7b9d333b50745f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 18/18] fix: panic in MessageEncoder::new when the buffer
 cannot hold a header

It only panicked when the encoder was dropped; with set_header in between
that was a panic while panicking, which aborts the process.
---
 src/packet/encoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/packet/encoder.rs b/src/packet/encoder.rs
index aa60723..0fada91 100644
--- a/src/packet/encoder.rs
+++ b/src/packet/encoder.rs
@@ -157,6 +157,11 @@ impl<'a> MessageEncoder<'a, section::Question> {
     /// `buf` must be large enough to fit at least the message header (`size_of::<Header>()`),
     /// otherwise this function will panic.
     pub fn new(buf: &'a mut [u8]) -> Self {
+        // Panic here, since the header is also written on drop (possibly while already panicking).
+        assert!(
+            buf.len() >= size_of::<Header>(),
+            "buffer too small for message header",
+        );
         let mut w = Writer::new(buf);
         w.write_obj(Header::zeroed());
         Self {
-- 
2.43.0

