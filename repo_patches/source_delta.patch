From 972b364bfc63ff979c56019e24fc842e01f04744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 01/42] fix: reject compression pointers beyond the message
 instead of panicking

The pointer offset overflowed u16 when converted to bits, and an offset past
the end of the buffer made set_read_pos panic.
---
 src/shared/buffer/buffer.rs | 6 ++++++
 src/shared/dns/name.rs      | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/shared/buffer/buffer.rs b/src/shared/buffer/buffer.rs
index a78abb0..fed3878 100644
--- a/src/shared/buffer/buffer.rs
+++ b/src/shared/buffer/buffer.rs
@@ -66,6 +66,12 @@ impl BitsBuf {
         self.buf
     }
 
+    /// Returns the length of the buffer.
+    /// Note that the length is expressed in bits.
+    pub fn len(&self) -> usize {
+        self.last
+    }
+
     /// Returns the current reading position in the buffer.
     /// Note that the reading position is expressed in bits.
     pub fn read_pos(&self) -> usize {
diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 90a0cdb..5599a3d 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -55,8 +55,11 @@ impl Name {
                     }
                     let second_byte = check_end(buffer.read_u8())? as u16;
                     let jump_pos = (((len_byte as u16) << 8) | second_byte) & Self::POINTER_MASK;
-                    let jump_pos = jump_pos * 8;
-                    buffer.set_read_pos(jump_pos as usize);
+                    let jump_pos = jump_pos as usize * 8;
+                    if jump_pos >= buffer.len() {
+                        return Err(NameErr::PointerOutOfBonds);
+                    }
+                    buffer.set_read_pos(jump_pos);
                     n_jumps += 1;
                 }
                 // Normal label type. Could be found either after
-- 
2.43.0


From 4a704c7b35ae5ecec5bfc7e340f746df07bfc362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 02/42] fix: encode the root name as a single zero byte

---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 5599a3d..3dc634a 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -105,6 +105,9 @@ impl Name {
     /// (a series of labels, divided by a length byte).
     pub fn to_bytes(&self) -> Vec<u8> {
         debug_assert!(validate_name(&self.0).is_ok());
+        if self.0 == "." {
+            return vec![0];
+        }
         let mut vec = Vec::with_capacity(self.0.len());
         for n in self.0.split('.') {
             let n_bytes = n.as_bytes();
-- 
2.43.0


From 7dd17a92899acce0cde6fe06f007beb1ae311d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 03/42] fix: enforce the 63 bytes label and 255 bytes name
 limits on text names

Labels longer than 63 bytes were accepted and encoded with a length byte that
reads back as a pointer, and names could take 256 bytes on the wire.
---
 src/shared/dns/name.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 3dc634a..ccdf5c2 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -124,7 +124,8 @@ fn validate_name(name: &str) -> Result<(), NameErr> {
     if name == "." {
         return Ok(());
     }
-    if name.len() > 255 {
+    // The wire format needs one byte more than the absolute name.
+    if name.len() > 254 {
         return Err(NameErr::LongName);
     }
     if !name.ends_with('.') {
@@ -152,6 +153,9 @@ fn validate_label(label: &str) -> Result<(), NameErr> {
     if label.len() == 0 {
         return Err(NameErr::MalformedLabel("empty label"));
     }
+    if label.len() > 63 {
+        return Err(NameErr::LongLabel);
+    }
     let first = label.chars().next().unwrap();
     let last = label.chars().last().unwrap();
     if !first.is_ascii_alphanumeric() {
-- 
2.43.0


From b82ec27f2730ab674d2ddca1422520abb9bfcc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 04/42] fix: reject dots inside wire labels

A label containing a dot was decoded as two labels, that is, as another name.
---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index ccdf5c2..07c8318 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -76,6 +76,9 @@ impl Name {
                         name_bytes.push('.' as u8);
                     }
                     let label_bytes = check_end(buffer.read_bytes_vec(len_byte as usize))?;
+                    if label_bytes.contains(&('.' as u8)) {
+                        return Err(NameErr::MalformedLabel("dot in label"));
+                    }
                     name_bytes.extend(label_bytes);
                     if name_bytes.len() > 255 {
                         return Err(NameErr::LongName);
-- 
2.43.0


From 3cc17657d3fdd1f50c4501e4bd1cc8e77b88f0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 05/42] fix: compare record data lengths without overflowing
 u16

A stated data length of 8192 bytes or more overflowed: a panic in debug builds,
a wrong length accepted in release builds.
---
 src/shared/dns/records.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index fe82ccb..3f59c71 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -338,7 +338,7 @@ fn decode_ns_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingEr
     let before = buffer.read_pos();
     let nameserver = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(nameserver)
@@ -357,7 +357,7 @@ fn decode_cname_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, Parsin
     let before = buffer.read_pos();
     let alias = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(alias)
@@ -384,7 +384,7 @@ fn decode_soa_data(buffer: &mut BitsBuf, data_len: u16) -> Result<SoaData, Parsi
     let expire = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let minimum = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((mname, rname, serial, refresh, retry, expire, minimum))
@@ -450,7 +450,7 @@ fn decode_ptr_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingE
     let before = buffer.read_pos();
     let name = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(name)
@@ -470,7 +470,7 @@ fn decode_hinfo_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(String, Str
     let cpu = decode_character_string(buffer)?;
     let os = decode_character_string(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((cpu, os))
@@ -492,7 +492,7 @@ fn decode_mx_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(u16, Name), Pa
     let preference = buffer.read_u16().ok_or(ParsingErr::BytesEnd)?;
     let exchange = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((preference, exchange))
-- 
2.43.0


From b2add4a6350a00aa7de84630793e3f3a2254a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 06/42] fix: decode TXT data from the right position

After peeking at the length byte the position was put back one bit (not one
byte) before it, so every string was read shifted.
---
 src/shared/dns/records.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index 3f59c71..4d59be8 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -510,17 +510,17 @@ fn encode_mx_data(buffer: &mut BitsBuf, priority: u16, name: &Name) -> Result<()
 // TXT records data encoding and decoding functions.
 fn decode_txt_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Vec<String>, ParsingErr> {
     let mut strings = vec![];
-    let mut read: u16 = 0;
+    let mut read: usize = 0;
     loop {
         let pos = buffer.read_pos();
-        let len = buffer.read_u8().ok_or(ParsingErr::BytesEnd)? as u16;
-        buffer.set_read_pos(pos - 1);
-        if read + len + 1 > data_len {
+        let len = buffer.read_u8().ok_or(ParsingErr::BytesEnd)? as usize;
+        buffer.set_read_pos(pos);
+        if read + len + 1 > data_len as usize {
             return Err(ParsingErr::DataLenMismatch);
         }
         strings.push(decode_character_string(buffer)?);
         read += len + 1;
-        if read == data_len {
+        if read == data_len as usize {
             break;
         }
     }
-- 
2.43.0


From 0c229a6b1c3198483d88b305ee335e14c1d5fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 07/42] fix: do not encode TXT data longer than its length
 field can say

---
 src/shared/dns/records.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index 4d59be8..b192d4d 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -535,6 +535,9 @@ fn encode_txt_data(buffer: &mut BitsBuf, strings: &Vec<String>) -> Result<(), Pa
         len += bytes.len();
         buf.push(bytes);
     }
+    if len > u16::MAX as usize {
+        return Err(ParsingErr::DataLenMismatch);
+    }
     buffer.write_u16(len as u16);
     for b in buf {
         buffer.write_bytes(&b);
-- 
2.43.0


From 448600e6f80366030447f026140c5b2be7804ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 08/42] fix: decode and encode WKS data as a bit map

Decoding any non-zero octet never ended (or panicked on the shift), truncated
data panicked, lengths under 5 were accepted, and encoding wrote 4 bytes per
port under a length that counted 1.
---
 src/shared/dns/records.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index b192d4d..3f41947 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -409,36 +409,38 @@ fn encode_soa_data(buffer: &mut BitsBuf, data: (&Name, &Name, u32, u32, u32, u32
 type WksData = ([u8; 4], u8, Vec<u32>);
 
 fn decode_wks_data(buffer: &mut BitsBuf, data_len: u16) -> Result<WksData, ParsingErr> {
+    if data_len < 5 {
+        return Err(ParsingErr::DataLenMismatch);
+    }
     let address = buffer.read_bytes().ok_or(ParsingErr::BytesEnd)?;
     let protocol = buffer.read_u8().ok_or(ParsingErr::BytesEnd)?;
-    let ports = if data_len > 5 {
-        let ports_bytes = buffer.read_bytes_vec((data_len - 5) as usize).unwrap();
-        parse_wks_ports(&ports_bytes)
-    } else {
-        vec![]
-    };
+    let ports_bytes = buffer.read_bytes_vec((data_len - 5) as usize).ok_or(ParsingErr::BytesEnd)?;
+    let ports = parse_wks_ports(&ports_bytes);
 
     Ok((address, protocol, ports))
 }
 
 fn encode_wks_data(buffer: &mut BitsBuf, address: &[u8; 4], protocol: u8, ports: &[u32]) {
-    buffer.write_u16((5 + ports.len()) as u16);
+    let mut bitmap: Vec<u8> = vec![];
+    for port in ports {
+        let i = *port as usize / 8;
+        if i >= bitmap.len() {
+            bitmap.resize(i + 1, 0);
+        }
+        bitmap[i] |= 0x80 >> (*port % 8);
+    }
+    buffer.write_u16((5 + bitmap.len()) as u16);
     buffer.write_bytes(address);
     buffer.write_u8(protocol);
-    for p in ports {
-        buffer.write_u32(*p);
-    }
+    buffer.write_bytes(&bitmap);
 }
 
 fn parse_wks_ports(ports_bytes: &[u8]) -> Vec<u32> {
     let mut ports = vec![];
     for (i, &byte) in ports_bytes.iter().enumerate() {
-        if byte == 0 {
-            continue;
-        }
-        for j in 1.. {
-            if byte << j == 0 {
-                ports.push((i * 8 + j - 1) as u32);
+        for j in 0..8 {
+            if byte & (0x80 >> j) != 0 {
+                ports.push((i * 8 + j) as u32);
             };
         }
     }
-- 
2.43.0


From f2fce1bfd2cf37cbe8361e5db9eb5baf2eae54e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 09/42] fix: keep header counts concordant when unknown records
 are skipped

The counts still included the skipped entries, so encoding such a message (for
example a reply built from it) indexed past the end and panicked.
---
 src/shared/dns/message.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shared/dns/message.rs b/src/shared/dns/message.rs
index 8dce77e..c21d79f 100644
--- a/src/shared/dns/message.rs
+++ b/src/shared/dns/message.rs
@@ -27,7 +27,7 @@ impl Message {
     pub fn decode_from_bytes(bytes: &[u8]) -> Result<Message, MessageErr> {
         let mut buffer = BitsBuf::from_raw_bytes(&bytes);
 
-        let header = match Header::decode_from_buf(&mut buffer) {
+        let mut header = match Header::decode_from_buf(&mut buffer) {
             Err(err) => return Err(MessageErr::HeaderErr(err)),
             Ok(header) => header,
         };
@@ -73,6 +73,12 @@ impl Message {
             };
         }
 
+        // Unknown record types were skipped.
+        header.questions_count = questions.len() as u16;
+        header.answers_count = answers.len() as u16;
+        header.authorities_count = authorities.len() as u16;
+        header.additionals_count = additionals.len() as u16;
+
         Ok(Message {
             header,
             questions,
-- 
2.43.0


From 7d86517f450839d271e5276e0e49951c594f41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 10/42] fix: allow encoding replies to unsupported op codes

The 'not implemented' reply to such a request echoes its op code, and encoding
it panicked, so the request got no reply and killed a worker thread.
---
 src/shared/dns/header.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/shared/dns/header.rs b/src/shared/dns/header.rs
index 165c4f3..1456b69 100644
--- a/src/shared/dns/header.rs
+++ b/src/shared/dns/header.rs
@@ -85,10 +85,9 @@ impl Header {
     }
 
     /// Encode a dns [`Header`] to raw bytes, writing them into the provided
-    /// buffer. The function panics if some unsupported op codes are provided
-    /// (this helps maintaining invariants about supported features).
+    /// buffer. Unsupported op codes can be encoded as well, since they must
+    /// be echoed when replying that they are not implemented.
     pub fn encode_to_buf(&self, buffer: &mut BitsBuf) {
-        assert!(self.op_code.is_supported());
         buffer.write_u16(self.id);
         buffer.write_bits(self.query_resp as u8, 1);
         buffer.write_bits(self.op_code.to_num(), 4);
-- 
2.43.0


From 702eadfffe007aa3abf8e43a959da01811746151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 11/42] fix: do not copy the TC flag of requests into
 nameserver replies

---
 src/nameserver/handler.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index a642b17..25875a3 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -233,6 +233,7 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     dns::Header {
         query_resp: true,
         auth_answer: false,
+        truncated: false,
         recursion_available: false,
         z: 0,
         resp_code,
-- 
2.43.0


From bf5cf60af4add61f89c44918ebe400be4f290b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 12/42] fix: reply to undecodable requests with counts matching
 the empty sections

---
 src/nameserver/handler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index 25875a3..760d2b2 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -164,7 +164,11 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
-- 
2.43.0


From d9c82df2563ac1882a5a90c328ae19679dd8890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 13/42] fix: do not report existing names without the searched
 type as non-existent

---
 src/nameserver/handler.rs      | 22 ++++++++++++++++------
 src/nameserver/zones/parser.rs |  6 ++++++
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index 760d2b2..d02ac9f 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -71,7 +71,8 @@ fn handle_query<W: DnsWrite>(request: dns::Message, resp: W, zones: &ManagedZone
 }
 
 /// Handle request for names in the authoritative zone. Search response in zone, if
-/// not found look for cnames, else reply with code 'nx_domain' and the SOA record.
+/// not found look for cnames, else reply with the SOA record (the code is 'nx_domain'
+/// only if the name doesn't exist at all).
 fn handle_auth_zone<W: DnsWrite>(resp: W, request: dns::Message, auth_zone: &Zone) {
     let dns::Question { node, record_type, .. } = &request.questions[0];
     let mut searched_records = match auth_zone.get(node, *record_type) {
@@ -85,7 +86,11 @@ fn handle_auth_zone<W: DnsWrite>(resp: W, request: dns::Message, auth_zone: &Zon
             None => {
                 let soa_records = auth_zone.get(&auth_zone.zone, dns::RecordType::SOA);
                 let soa_record = soa_records.unwrap().first().unwrap().clone();
-                handle_nx_err(resp, &request, soa_record);
+                let resp_code = match auth_zone.contains_node(node) {
+                    true => dns::RespCode::NoError,
+                    false => dns::RespCode::NxDomain,
+                };
+                handle_no_records(resp, &request, soa_record, resp_code);
                 return;
             }
         };
@@ -180,12 +185,17 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
     reply(resp, dns_response);
 }
 
-/// Handle domains not found in zone with the resp code 'nx_domain' and the zone
-/// SOA record. The response is authoritative.
-fn handle_nx_err<W: DnsWrite>(resp: W, dns_req: &dns::Message, soa_record: dns::Record) {
+/// Handle domains (or records types) not found in zone with the proper resp code
+/// and the zone SOA record. The response is authoritative.
+fn handle_no_records<W: DnsWrite>(
+    resp: W,
+    dns_req: &dns::Message,
+    soa_record: dns::Record,
+    resp_code: dns::RespCode,
+) {
     assert_eq!(soa_record.record_type(), dns::RecordType::SOA);
 
-    let mut resp_header = resp_header_from_req_header(&dns_req.header, dns::RespCode::NxDomain);
+    let mut resp_header = resp_header_from_req_header(&dns_req.header, resp_code);
     resp_header.auth_answer = true;
     resp_header.answers_count = 0;
     resp_header.authorities_count = 1;
diff --git a/src/nameserver/zones/parser.rs b/src/nameserver/zones/parser.rs
index d967622..7610301 100644
--- a/src/nameserver/zones/parser.rs
+++ b/src/nameserver/zones/parser.rs
@@ -194,6 +194,12 @@ impl Zone {
         Some(records)
     }
 
+    /// Reports if the passed node exists in the zone, that is, if it (or any of
+    /// the nodes below it) owns at least one record.
+    pub fn contains_node(&self, node: &dns::Name) -> bool {
+        self.records.keys().any(|name| name.is_in_zone(node))
+    }
+
     /// Get all [`dns::Record`] of the record type passed in, returned as references.
     pub fn get_all_of_type(&self, kind: dns::RecordType) -> Vec<&dns::Record> {
         self.records
-- 
2.43.0


From 48a7abffdf0d6b9b8965d7228944585ba3a7a58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 14/42] fix: compare domain names in a case-insensitive manner

---
 src/shared/dns/name.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 07c8318..e556c29 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -1,15 +1,29 @@
 use crate::shared::buffer::*;
 use serde::{Deserialize, Serialize};
 use std::fmt::{self, Display, Formatter};
+use std::hash::{Hash, Hasher};
 use std::str;
 
 /// A wrapper for domain names. The [`Name`] struct is used to hold valid
 /// absolute domain names. This is the invariant that must be guaranteed
 /// in every method that creates or modifies names. [`Name`] implements
 /// `AsRef<str>`, so a reference to the inner string can be easily obtained.  
-#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
+/// Names are compared in a case-insensitive manner (RFC 1034, section 3.1).
+#[derive(Debug, Clone, Eq, Serialize, Deserialize)]
 pub struct Name(String);
 
+impl PartialEq for Name {
+    fn eq(&self, other: &Self) -> bool {
+        self.0.eq_ignore_ascii_case(&other.0)
+    }
+}
+
+impl Hash for Name {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_ascii_lowercase().hash(state)
+    }
+}
+
 impl AsRef<str> for Name {
     fn as_ref(&self) -> &str {
         &self.0
@@ -198,7 +212,7 @@ impl Name {
                 None => return false,
                 Some(v) => v,
             };
-            if nl != zl {
+            if !nl.eq_ignore_ascii_case(zl) {
                 return false;
             }
         }
-- 
2.43.0


From 649f25e3c88c3a5fe8f2b4347c6b02e7c0a48ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 15/42] fix: every name is contained in the root zone

---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index e556c29..ac75ccb 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -205,6 +205,9 @@ impl Name {
     /// Reports if the [`Name`] is contained in the passed zone. The zone
     /// must be a valid name to ensure a correct comparison.
     pub fn is_in_zone(&self, zone: &Self) -> bool {
+        if zone.0 == "." {
+            return true;
+        }
         let mut name_labels = self.0.rsplit('.');
         let zone_labels = zone.0.rsplit('.');
         for zl in zone_labels {
-- 
2.43.0


From 8bb6b364062892ca723d80a656342a6fc88f8d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:52 +0000
Subject: [PATCH 16/42] fix: do not read past the line end after an escaped
 character in zone files

---
 src/nameserver/zones/tokens.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index a308e09..dff6361 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -174,7 +174,7 @@ impl Tokenizer {
         let mut directive = String::from('$');
         self.pos += 1;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -206,7 +206,7 @@ impl Tokenizer {
         let mut string = String::with_capacity(20);
         let mut closed = false;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -257,7 +257,7 @@ impl Tokenizer {
     fn process_string_or_number(&mut self) -> Result<Token, TokenErr> {
         let mut str = String::with_capacity(20);
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
-- 
2.43.0


From 8f1cdc6af63c112fe272b905c8a0c5629584fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:52 +0000
Subject: [PATCH 17/42] fix: treat every white space as a separator in zone
 files

---
 src/nameserver/zones/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index dff6361..0e0ff59 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -83,7 +83,7 @@ impl Tokenizer {
         // Parse the token. Note that some branches only consume
         // some characters and invoke 'next' recursively.
         match self.line_chars[self.pos] {
-            ' ' | '\t' => Ok(self.process_whitespace()),
+            ch if ch.is_whitespace() => Ok(self.process_whitespace()),
             '$' => self.process_directive(),
             '"' => self.process_quoted_string(),
             '(' => {
-- 
2.43.0


From 8d8b816e1a4f46b4802593d41747e6fa860345cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 18/42] fix: complete relative names when the origin is the
 root

---
 src/nameserver/zones/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index e55c035..fcaa494 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -68,7 +68,9 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
     }
     if !name.ends_with('.') {
         name.push('.');
-        name.push_str(current_origin.as_ref());
+        if current_origin.as_ref() != "." {
+            name.push_str(current_origin.as_ref());
+        }
     }
     match dns::Name::from_string(name) {
         Ok(name) => Ok(name),
-- 
2.43.0


From ed28bbcd6399415003ab0f83ddbdc064c1f6ff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 19/42] fix: reject strings in zone files that are too long to
 be encoded

---
 src/nameserver/zones/parser_auth.rs | 5 +++++
 src/shared/dns/utils.rs             | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 061e1ef..3cd1888 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -443,6 +443,7 @@ fn parse_mx_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData
 
 fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns::Record, ParseErr> {
     let mut txts = vec![];
+    let mut data_len = 0;
     loop {
         let next = tokenizer.peek_after_blanks()?;
         match next {
@@ -451,6 +452,10 @@ fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns:
             tok => {
                 tokenizer.next_after_blanks().unwrap();
                 let txt = parse_char_string(tok)?;
+                data_len += txt.len() + 1;
+                if data_len > u16::MAX as usize {
+                    return Err(ParseErr::MalformedData("TXT data too long".to_string()));
+                }
                 txts.push(txt);
             }
         };
diff --git a/src/shared/dns/utils.rs b/src/shared/dns/utils.rs
index 793b631..6b4bff2 100644
--- a/src/shared/dns/utils.rs
+++ b/src/shared/dns/utils.rs
@@ -30,6 +30,9 @@ pub fn encode_character_string(string: &str) -> Result<Vec<u8>, ParsingErr> {
 }
 
 pub fn is_valid_character_string(s: &str, quoted: bool) -> bool {
+    if s.len() > 255 {
+        return false;
+    }
     if quoted {
         s.chars().all(|ch| ch.is_ascii())
     } else {
-- 
2.43.0


From a89fb4c6919f79651b37f0bd89cd3c4dc18a3b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 20/42] fix: decode the escaped octets of zone files

---
 src/nameserver/zones/tokens.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index 0e0ff59..4c1df31 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -294,9 +294,21 @@ impl Tokenizer {
         if self.pos + 1 >= self.line_chars.len() {
             return Err(TokenErr::InvalidEscape);
         }
-        let ch_esc = Ok(self.line_chars[self.pos + 1]);
-        self.pos += 2;
-        ch_esc
+        let ch_esc = self.line_chars[self.pos + 1];
+        if !ch_esc.is_ascii_digit() {
+            self.pos += 2;
+            return Ok(ch_esc);
+        }
+
+        // Escaped digits (always three) are the decimal value of an octet.
+        let digits: String = self.line_chars.iter().skip(self.pos + 1).take(3).collect();
+        match digits.parse::<u8>() {
+            Ok(octet) if digits.len() == 3 => {
+                self.pos += 4;
+                Ok(char::from(octet))
+            }
+            _ => Err(TokenErr::InvalidEscape),
+        }
     }
 }
 
-- 
2.43.0


From 990c2c2ae025aa904488f59f8741411c56405956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 21/42] fix: require at least one string in the TXT records of
 zone files

---
 src/nameserver/zones/parser_auth.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 3cd1888..daa3b76 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -461,6 +461,10 @@ fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns:
         };
     }
 
+    if txts.is_empty() {
+        return Err(ParseErr::MalformedData("TXT record without strings".to_string()));
+    }
+
     Ok(dns::Record::TXT {
         node: rec_data.0,
         class: rec_data.1,
-- 
2.43.0


From 53bf0a517a3b0f34306feefcd1ac6b614af097d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 22/42] fix: an authoritative response without records of the
 searched type is not an error

---
 src/resolver/back_end/recursive.rs |  7 ++++---
 src/resolver/back_end/requests.rs  | 10 +++++++++-
 src/resolver/back_end/trace.rs     | 10 +++++++---
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 8714691..9d86603 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -86,7 +86,7 @@ pub struct Lookup<'a> {
 }
 
 /// The response returned when a lookup is performed. The last field
-/// indicates if no records of the searched type were found.
+/// indicates if the searched domain doesn't exist.
 #[derive(Debug)]
 pub struct LookupResponse(
     pub Vec<dns::Record>,
@@ -148,10 +148,11 @@ impl<'a> Lookup<'a> {
                     continue;
                 }
                 // Nothing found for the searched domain, a SOA record could be present.
-                NsResponse::NoDomain { soa_rec, .. } => {
+                NsResponse::NoDomain { header, soa_rec } => {
+                    let no_domain = matches!(header.resp_code, dns::RespCode::NxDomain);
                     let authorities = soa_rec.map_or(vec![], |r| vec![r]);
                     let answers = mem::take(&mut self.previous_cnames);
-                    return Ok(LookupResponse(answers, authorities, vec![], true));
+                    return Ok(LookupResponse(answers, authorities, vec![], no_domain));
                 }
                 // Delegation to sub zones is not handled here.
                 _ => unreachable!(),
diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 21e446e..f8531ed 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -23,6 +23,8 @@ pub struct NsRequest<'a> {
 /// 'meanings' of the response (as interpreted by this resolver implementation).
 #[derive(Debug)]
 pub enum NsResponse {
+    // Either the domain doesn't exist or it has no records of the searched
+    // type, depending on the response code of the header.
     NoDomain {
         header: dns::Header,
         soa_rec: Option<dns::Record>,
@@ -89,7 +91,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
 
     // Analyze the response. Start looking for answers, then cnames (note: only
     // one is valid). Otherwise search for sub zones delegations. If nothing is
-    // found is an error (even if it should be signaled via nx_domain flag).
+    // found is an error, unless the nameserver is authoritative.
     let answers = extract_records(&mut dns_resp.answers, *searched_type, searched_node);
     if answers.len() > 0 {
         return Ok(NsResponse::Answer {
@@ -110,6 +112,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
         });
     }
 
+    let soa_rec = extract_record(&mut dns_resp.authorities, dns::RecordType::SOA, searched_node);
     let current_zone = ns_req.nameserver.zone();
     let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone.as_ref());
     if next_nss.len() > 0 {
@@ -119,6 +122,11 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
         });
     }
 
+    // The name exists, but it has no records of the searched type.
+    if dns_resp.header.auth_answer {
+        return Ok(NsResponse::NoDomain { header: dns_resp.header, soa_rec });
+    }
+
     Err(LookupErr::UnexpectedEmptyResp)
 }
 
diff --git a/src/resolver/back_end/trace.rs b/src/resolver/back_end/trace.rs
index 783019e..682a4be 100644
--- a/src/resolver/back_end/trace.rs
+++ b/src/resolver/back_end/trace.rs
@@ -141,12 +141,16 @@ impl Trace {
         let mut resp_lines = vec![];
         let resp_header;
         match ns_resp {
-            NsResponse::NoDomain { soa_rec, .. } => {
+            NsResponse::NoDomain { header, soa_rec } => {
+                let outcome = match header.resp_code {
+                    RespCode::NxDomain => "No domain (NX code)",
+                    _ => "No records of this type",
+                };
                 if soa_rec.is_some() {
-                    resp_header = format!("No domain (NX code), SOA record:");
+                    resp_header = format!("{}, SOA record:", outcome);
                     resp_lines.push(format!("{:?}", soa_rec.as_ref().unwrap()));
                 } else {
-                    resp_header = format!("No domain (NX code), no SOA record.");
+                    resp_header = format!("{}, no SOA record.", outcome);
                 };
             }
             NsResponse::Answer { answers, additionals, .. } => {
-- 
2.43.0


From 914065ed676afc532d3572b9599fa20b49efbbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 23/42] fix: compare zones label by label when filtering
 delegations

---
 src/resolver/back_end/requests.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index f8531ed..590640b 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -137,7 +137,7 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
-        .filter(|rec| cname.as_ref().ends_with(rec.node().as_ref()))
+        .filter(|rec| cname.is_in_zone(rec.node()))
         .map(|next_record| {
             let ns_node = next_record.ns_data();
             let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
@@ -186,7 +186,7 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
 // are looking for. Example: if we are looking for "company.com." the ns
 // record returned here cannot be authoritative over "pizza.com.".
 fn is_nameserver_authoritative_over_node(ns_zone: &Name, searched_node: &Name) -> bool {
-    if !searched_node.as_ref().ends_with(&ns_zone.as_ref()) {
+    if !searched_node.is_in_zone(ns_zone) {
         // TODO: trace?
         return false;
     }
@@ -209,7 +209,7 @@ fn is_nameserver_authority_a_subzone(ns_zone: &Name, current_zone: &str) -> bool
 // nameserver and no addresses are present for it. Example: the nameserver managing
 // '.com' is 'dns.com' and without an address we enter in a loop.
 fn is_nameserver_in_subzone_without_glue(ns_node: &Name, ns_zone: &Name, no_addr: bool) -> bool {
-    if ns_node.as_ref().ends_with(ns_zone.as_ref()) && no_addr {
+    if ns_node.is_in_zone(ns_zone) && no_addr {
         // TODO: trace?
         return true;
     }
-- 
2.43.0


From 699fab54a01301a77753349362459074f6bd20f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 24/42] fix: responses coming from other hosts are not accepted

---
 src/resolver/back_end/requests.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 590640b..ed5b6ba 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -280,8 +280,10 @@ fn send_udp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<([u8; dns::M
     let udp_socket = net::UdpSocket::bind("0.0.0.0:0")?;
     udp_socket.set_write_timeout(Some(request.w_timeout))?;
     udp_socket.set_read_timeout(Some(request.r_timeout))?;
-    udp_socket.send_to(&bytes, (addr, 53))?;
+    // Only accept responses coming from the queried nameserver.
+    udp_socket.connect((addr, 53))?;
+    udp_socket.send(&bytes)?;
     let mut buffer = [0_u8; dns::MAX_UDP_LEN_BYTES];
-    let (n_recv, _) = udp_socket.recv_from(&mut buffer)?;
+    let n_recv = udp_socket.recv(&mut buffer)?;
     Ok((buffer, n_recv))
 }
-- 
2.43.0


From 770c0ade06ac13ad8b8617640fcd9e4bf8df0d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 25/42] fix: responses must be responses and refer to the
 question asked

---
 src/resolver/back_end/requests.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index ed5b6ba..43624e3 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -255,6 +255,17 @@ fn send_query(ns_request: &NsRequest) -> Result<dns::Message, LookupErr> {
         )));
     }
 
+    // The response must refer to the question asked.
+    let question = &request.questions[0];
+    let is_same_question = match response.questions.as_slice() {
+        [q] => q.node == question.node && q.record_type == question.record_type,
+        _ => false,
+    };
+    if response.header.is_request() || !is_same_question {
+        let err_msg = "not a response to the question asked".to_string();
+        return Err(LookupErr::MalformedResp(err_msg));
+    }
+
     return Ok(response);
 }
 
-- 
2.43.0


From 0ad6aa63bbe72b54541ff2637d3d4ac75a8d9deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 26/42] fix: ask the parent zone again when cached nameservers
 have lost their addresses

---
 src/resolver/back_end/recursive.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 9d86603..d4744ab 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -297,20 +297,29 @@ impl<'a> Lookup<'a> {
         results
     }
 
-    // Search records related to nameserver in cache and trace the outcome.
+    // Search records related to nameserver in cache and trace the outcome. Nameservers
+    // without addresses are useless if we are already resolving one of their zone: in
+    // that case move to the parent domain, which could give us the addresses again.
     fn search_nss_in_cache_with_trace(&mut self) -> Vec<NextSubzoneNs> {
         let domains = generate_domain_hierarchy(&self.searched_node.as_ref());
-        let ns_records: Option<Vec<dns::Record>> = domains.iter().find_map(|name| {
+        let cached_next_nss: Option<Vec<NextSubzoneNs>> = domains.iter().find_map(|name| {
             let name = dns::Name::from_string(name).unwrap();
-            let records = search_records_in_cache(&self.cache, &name, dns::RecordType::NS);
-            if records.len() > 0 {
-                Some(records)
+            let next_nss: Vec<NextSubzoneNs> = search_records_in_cache(&self.cache, &name, dns::RecordType::NS)
+                .into_iter()
+                .map(|ns_record| {
+                    let a_records = search_records_in_cache(&self.cache, ns_record.ns_data(), dns::RecordType::A);
+                    NextSubzoneNs { ns_record, a_records }
+                })
+                .filter(|next_ns| !next_ns.a_records.is_empty() || !self.previous_zones.contains(next_ns.zone()))
+                .collect();
+            if next_nss.len() > 0 {
+                Some(next_nss)
             } else {
                 None
             }
         });
 
-        let ns_records: Vec<dns::Record> = match ns_records {
+        let cached_next_nss: Vec<NextSubzoneNs> = match cached_next_nss {
             Some(v) => v,
             None => {
                 self.trace.t_cache_ns_miss(&self.searched_node.as_ref());
@@ -318,14 +327,6 @@ impl<'a> Lookup<'a> {
             }
         };
 
-        let cached_next_nss: Vec<NextSubzoneNs> = ns_records
-            .into_iter()
-            .map(|ns_record| {
-                let a_records = search_records_in_cache(&self.cache, ns_record.ns_data(), dns::RecordType::A);
-                NextSubzoneNs { ns_record, a_records }
-            })
-            .collect();
-
         self.trace
             .t_cache_ns_hit(&self.searched_node.as_ref(), &cached_next_nss);
         cached_next_nss
-- 
2.43.0


From 3d40f7e496b15f2d3885c2323d65e0c2f85512ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 27/42] fix: believe nameservers only about the names in their
 own zone

---
 src/resolver/back_end/requests.rs | 32 +++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 43624e3..7133154 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -102,9 +102,10 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     }
 
     let cname = extract_record(&mut dns_resp.answers, dns::RecordType::CNAME, searched_node);
+    let current_zone = ns_req.nameserver.zone();
     if let Some(cname_rec) = cname {
         let cname = cname_rec.cname_data();
-        let next_nss = extract_next_nss_for_cname(&mut dns_resp, cname);
+        let next_nss = extract_next_nss_for_cname(&mut dns_resp, cname, current_zone);
         return Ok(NsResponse::Alias {
             header: dns_resp.header,
             cname_rec,
@@ -113,8 +114,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     }
 
     let soa_rec = extract_record(&mut dns_resp.authorities, dns::RecordType::SOA, searched_node);
-    let current_zone = ns_req.nameserver.zone();
-    let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone.as_ref());
+    let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone);
     if next_nss.len() > 0 {
         return Ok(NsResponse::Delegation {
             header: dns_resp.header,
@@ -131,16 +131,16 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
 }
 
 /// Extracts from the [`dns::Message`] response all records useful to re-start
-/// the cname resolution. Those are typically NS records and their addresses.
-fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<NextSubzoneNs> {
+/// the cname resolution. Those are typically NS records and their addresses. The
+/// queried nameserver is trusted only for the names in its zone.
+fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name, zone: &Name) -> Vec<NextSubzoneNs> {
     let authority_records = mem::take(&mut response.authorities);
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
-        .filter(|rec| cname.is_in_zone(rec.node()))
+        .filter(|rec| cname.is_in_zone(rec.node()) && rec.node().is_in_zone(zone))
         .map(|next_record| {
-            let ns_node = next_record.ns_data();
-            let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
+            let ns_addrs = extract_ns_addrs(&mut response.additionals, next_record.ns_data(), zone);
             NextSubzoneNs {
                 ns_record: next_record,
                 a_records: ns_addrs,
@@ -151,19 +151,18 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
 
 /// Extract from the [`dns::Message`] response all records related to a sub zone
 /// delegation. Some validation is performed so some records could be discarded.
-fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str) -> Vec<NextSubzoneNs> {
+fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &Name) -> Vec<NextSubzoneNs> {
     let authority_records = mem::take(&mut resp.authorities);
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
         .filter(|rec| {
             let is_auth = is_nameserver_authoritative_over_node(rec.node(), node);
-            let is_sub = is_nameserver_authority_a_subzone(rec.node(), zone);
+            let is_sub = is_nameserver_authority_a_subzone(rec.node(), zone.as_ref());
             is_auth && is_sub
         })
         .map(|ns_record| {
-            let ns_node = ns_record.ns_data();
-            let ns_addrs = extract_records(&mut resp.additionals, dns::RecordType::A, ns_node);
+            let ns_addrs = extract_ns_addrs(&mut resp.additionals, ns_record.ns_data(), zone);
             NextSubzoneNs {
                 ns_record: ns_record,
                 a_records: ns_addrs,
@@ -182,6 +181,15 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
         .collect()
 }
 
+// Extract the addresses of a nameserver. The queried nameserver (managing the passed
+// zone) is not trusted about names out of its zone, those must be resolved separately.
+fn extract_ns_addrs(additionals: &mut Vec<dns::Record>, ns_node: &Name, zone: &Name) -> Vec<dns::Record> {
+    if !ns_node.is_in_zone(zone) {
+        return vec![];
+    }
+    extract_records(additionals, dns::RecordType::A, ns_node)
+}
+
 // Make sure the zone managed by the queried nameserver contains the node we
 // are looking for. Example: if we are looking for "company.com." the ns
 // record returned here cannot be authoritative over "pizza.com.".
-- 
2.43.0


From 0bb736c541b1c052946a2ea4117684cc05bfd20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 28/42] fix: nameservers without addresses are an error of the
 lookup

---
 src/resolver/back_end/recursive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index d4744ab..ffb9a0a 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -264,7 +264,10 @@ impl<'a> Lookup<'a> {
         let (response, sub_trace) = resolver.perform();
         self.trace.add_sub_trace(sub_trace);
         match response {
-            Ok(mut v) => Ok(extract_records(&mut v.0, dns::RecordType::A, node)),
+            Ok(mut v) => match extract_records(&mut v.0, dns::RecordType::A, node) {
+                addrs if addrs.is_empty() => Err((node.to_string(), LookupErr::UnexpectedEmptyResp)),
+                addrs => Ok(addrs),
+            },
             Err(err) => return Err(err),
         }
     }
-- 
2.43.0


From e49a9e085364a18a8680c29ab0f0e38d1fdcaf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 29/42] fix: cache the nameservers of different zones
 separately

---
 src/resolver/back_end/recursive.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index ffb9a0a..7a5ee5f 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -383,16 +383,22 @@ fn save_records_in_cache(cache: &RecordsCache, mut records: Vec<dns::Record>) {
     cache.set(cache_key, cache_exp, records.clone());
 }
 
-// Save nameserver records in cache, both the NS record and eventual A ones.
+// Save nameserver records in cache, both the NS record and eventual A ones. The
+// NS records could belong to different zones, every zone has its own cache entry.
 fn save_nss_in_cache(cache: &RecordsCache, next_nss: Vec<NextSubzoneNs>) {
-    let mut ns_records = vec![];
+    let mut ns_records: Vec<dns::Record> = vec![];
     for next_ns in next_nss {
         ns_records.push(next_ns.ns_record);
         if next_ns.a_records.len() > 0 {
             save_records_in_cache(cache, next_ns.a_records);
         }
     }
-    save_records_in_cache(cache, ns_records);
+    while let Some(ns_record) = ns_records.first() {
+        let zone = ns_record.node().clone();
+        let (zone_records, others) = ns_records.into_iter().partition(|rec| *rec.node() == zone);
+        save_records_in_cache(cache, zone_records);
+        ns_records = others;
+    }
 }
 
 // Generate a list of domains from the passed one, in increasing order.
-- 
2.43.0


From f457c555113aeec05b3194693b2e03aa2da916e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 30/42] fix: limit the depth of the lookups of nameserver names

---
 src/resolver/back_end/errors.rs    | 1 +
 src/resolver/back_end/recursive.rs | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/src/resolver/back_end/errors.rs b/src/resolver/back_end/errors.rs
index 84ba1e7..59a72c8 100644
--- a/src/resolver/back_end/errors.rs
+++ b/src/resolver/back_end/errors.rs
@@ -14,6 +14,7 @@ pub enum LookupErr {
     MalformedResp(String),
 
     ZonesLoop,
+    MaxNestedLookups,
     CnamesLoop,
     UnexpectedCname,
     MaxCnameRedir,
diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 7a5ee5f..a0fe74e 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -7,6 +7,10 @@ use crate::shared::dns;
 use std::sync::Arc;
 use std::{mem, time};
 
+/// The maximum depth of the lookups started to resolve the names of nameservers,
+/// each one needed to complete the previous one.
+const MAX_NESTED_LOOKUPS: usize = 5;
+
 /// The resolver parameters passed to the [`Resolver`] constructor.
 /// A good default configuration is provided via the [`Default`] trait.
 #[derive(Debug, Clone)]
@@ -243,6 +247,10 @@ impl<'a> Lookup<'a> {
     /// not allowed when resolving a nameserver name.
     fn resolve_ns_subquery(&mut self, node: &dns::Name, zone: &dns::Name) -> Result<Vec<dns::Record>, LookupErrCtx> {
         detect_zones_loop(zone, &self.previous_zones)?;
+        if self.previous_zones.len() >= MAX_NESTED_LOOKUPS {
+            let err_msg = format!("next zone: '{}', previous zones: {:?}", zone, self.previous_zones);
+            return Err((err_msg, LookupErr::MaxNestedLookups));
+        }
         let mut zones = self.previous_zones.clone();
         zones.push(zone.clone());
 
-- 
2.43.0


From 65a75bbf4c6a203fedf60b3ff5d4cc49ce3aa04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 31/42] fix: don't copy the truncation flag of the request in
 the replies of the resolver

---
 src/resolver/handler.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index 5cf6baf..ef1480a 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -140,6 +140,7 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     dns::Header {
         query_resp: true,
         auth_answer: false,
+        truncated: false,
         recursion_available: true,
         z: 0,
         resp_code,
-- 
2.43.0


From 861734be95dc32baa6cb27a5e228af6b459b43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 32/42] fix: reply to undecodable requests of the resolver with
 counts matching the empty sections

---
 src/resolver/handler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index ef1480a..b7b3333 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -93,7 +93,11 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
-- 
2.43.0


From f65d1623885bcb0b741f8f62af430dc220467516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 33/42] fix: don't panic when a TCP connection cannot be cloned

---
 src/shared/net/tcp_server.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index de94449..b15651d 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -110,7 +110,13 @@ where
                 return;
             };
 
-            let request = TcpRequest(tcp_stream.try_clone().unwrap());
+            let request = match tcp_stream.try_clone() {
+                Ok(stream) => TcpRequest(stream),
+                Err(err) => {
+                    log::error!("Cannot clone conn: {}", err);
+                    return;
+                }
+            };
             let response = TcpResponse(tcp_stream);
             handler.handle_request(request, response);
         })
-- 
2.43.0


From cad401a1973ae998b38639a87db9316f60b3a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 34/42] fix: truncate TCP responses that don't fit the length
 field

---
 src/shared/net/tcp_server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index b15651d..27e8e11 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -41,7 +41,10 @@ pub struct TcpResponse(net::TcpStream);
 
 impl DnsWrite for TcpResponse {
     fn reply(mut self, response: dns::Message) -> io::Result<()> {
-        let resp_bytes = response.encode_to_bytes().unwrap();
+        let mut resp_bytes = response.encode_to_bytes().unwrap();
+        if resp_bytes.len() > u16::MAX as usize {
+            resp_bytes = response.encode_to_bytes_trunc().unwrap();
+        }
         let resp_len = resp_bytes.len() as u16;
         let buf = [(resp_len >> 8) as u8, (resp_len) as u8];
         self.0.write_all(&buf)?;
-- 
2.43.0


From 49bb07ff3c2a88b4a757f8f287fbe9498ee56a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 35/42] fix: don't panic when the other server doesn't stop in
 time

---
 src/shared/net/setup.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 2d1a8d2..3fb04d7 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -39,7 +39,9 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     rx.recv().unwrap();
     stop.store(true, atomic::Ordering::SeqCst);
     wake_up_servers(&udp_params, &tcp_params);
-    rx.recv_timeout(time::Duration::from_secs(4)).unwrap();
+    if rx.recv_timeout(time::Duration::from_secs(4)).is_err() {
+        log::warn!("The other server didn't shut down in time.");
+    }
 }
 
 /// Dirty hack. The only way to interrupt the UDP 'recv' and the TCP 'accept' calls
-- 
2.43.0


From bad26506f82b66255fef95d3fda0136461764a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 36/42] fix: wake up the UDP server also when it listens on an
 IPv6 address

---
 src/shared/net/setup.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 3fb04d7..53042bd 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -50,7 +50,11 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
 #[allow(unused_must_use)]
 fn wake_up_servers(udp_conf: &UdpParams, tcp_conf: &TcpParams) {
     let udp_server_addr: (&str, u16) = (&udp_conf.address, udp_conf.port);
-    match net::UdpSocket::bind("0.0.0.0:0") {
+    let udp_bind_addr = match udp_conf.address.contains(':') {
+        true => "[::]:0",
+        false => "0.0.0.0:0",
+    };
+    match net::UdpSocket::bind(udp_bind_addr) {
         Ok(udp_sock) => udp_sock.send_to(&[0], udp_server_addr),
         Err(_) => return,
     };
-- 
2.43.0


From 94e47dd84dc4d5dafb8058b900d2c5d40ec0286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 37/42] fix: stop a server that starts listening after the
 other one failed

---
 src/shared/net/tcp_server.rs | 5 +++++
 src/shared/net/udp_server.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index 27e8e11..6689149 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -85,6 +85,11 @@ where
         }
     };
 
+    // The wake-up connection was missed if the stop signal came before listening.
+    if stop.load(atomic::Ordering::SeqCst) {
+        return;
+    }
+
     // Loop accepting TCP connections. When a new one is accepted, read
     // it and delegate the request processing to a thread in the pool.
     loop {
diff --git a/src/shared/net/udp_server.rs b/src/shared/net/udp_server.rs
index 14f9c09..3159e65 100644
--- a/src/shared/net/udp_server.rs
+++ b/src/shared/net/udp_server.rs
@@ -72,6 +72,11 @@ where
         }
     };
 
+    // The wake-up message was missed if the stop signal came before listening.
+    if stop.load(atomic::Ordering::SeqCst) {
+        return;
+    }
+
     // Loop receiving UDP messages. When a new request arrives, read
     // it and delegate request handling to a thread in the pool.
     loop {
-- 
2.43.0


From 550926088aec9acca4d3ab27bbdcc3496a429e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 38/42] fix: reject a TCP read timeout of zero in the
 configuration

---
 src/nameserver/conf.rs | 3 +++
 src/resolver/conf.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/nameserver/conf.rs b/src/nameserver/conf.rs
index 8949dbe..3e0b9bb 100644
--- a/src/nameserver/conf.rs
+++ b/src/nameserver/conf.rs
@@ -80,6 +80,9 @@ impl Conf {
         if let Err(err) = net::IpAddr::from_str(self.tcp_server.address.as_ref()) {
             return Err(format!("invalid tcp address: {}", err));
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
diff --git a/src/resolver/conf.rs b/src/resolver/conf.rs
index 88648c4..244df2f 100644
--- a/src/resolver/conf.rs
+++ b/src/resolver/conf.rs
@@ -88,6 +88,9 @@ impl Conf {
         if let Err(err) = net::IpAddr::from_str(self.tcp_server.address.as_ref()) {
             return Err(format!("invalid tcp address: {}", err));
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
-- 
2.43.0


From a95af268d6be99306782ada6d58410db9508d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:21 +0000
Subject: [PATCH 39/42] fix: don't panic when a server stops after the service
 was given up

---
 src/shared/net/setup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 53042bd..6086b46 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -20,7 +20,7 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     thread::spawn(move || {
         start_udp_server(handler_clone, udp_params_clone, &stop_clone);
         log::warn!("UDP server shut down.");
-        tx_clone.send(()).unwrap();
+        let _ = tx_clone.send(());
     });
 
     // Setup tcp parameters and spawn the tcp server in a new thread.
@@ -31,7 +31,7 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     thread::spawn(move || {
         start_tcp_server(handler_clone, tcp_params_clone, &stop_clone);
         log::warn!("TCP server shut down.");
-        tx_clone.send(()).unwrap();
+        let _ = tx_clone.send(());
     });
 
     // Wait for errors or teardowns. Note that in any case
-- 
2.43.0


From 85865b041983a7bf20879af5f96fc910700100ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:23 +0000
Subject: [PATCH 40/42] fix: color trace lines of failed nameservers only if
 configured

---
 src/resolver/back_end/trace.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/trace.rs b/src/resolver/back_end/trace.rs
index 682a4be..1299e44 100644
--- a/src/resolver/back_end/trace.rs
+++ b/src/resolver/back_end/trace.rs
@@ -313,7 +313,11 @@ fn display_trace_lines(f: &mut Formatter<'_>, lines: &[TraceLine], depth: u8, co
             }
             TraceLine::NameserverErr(header) => {
                 indent(f, depth)?;
-                writeln!(f, "{}", header.bold().bright_red())?;
+                if conf.color {
+                    writeln!(f, "{}", header.bold().bright_red())?
+                } else {
+                    writeln!(f, "{}", header)?
+                }
             }
             TraceLine::SubResolution(sub_trace) => {
                 display_trace_lines(f, sub_trace, depth + 1, conf)?;
-- 
2.43.0


From 1cb1fa93c12393a0e8d75118ae69ea90a99d5cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 41/42] fix: leave no trace of sub lookups if tracing is off

---
 src/resolver/back_end/trace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resolver/back_end/trace.rs b/src/resolver/back_end/trace.rs
index 1299e44..cc388b3 100644
--- a/src/resolver/back_end/trace.rs
+++ b/src/resolver/back_end/trace.rs
@@ -217,6 +217,7 @@ impl Trace {
 
     /// Consume another trace and add to the present one as a sub trace.
     pub fn add_sub_trace(&mut self, sub_trace: Trace) {
+        skip_if_silent!(self);
         let item = TraceLine::SubResolution(sub_trace.lines);
         self.lines.push(item);
     }
-- 
2.43.0


From f15e5b9442e1ac6017dbea713e24881c7e2a6f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:07 +0000
Subject: [PATCH 42/42] fix: take the remaining time to live of cached records
 after reading them

An entry set by another lookup between the two had a time to live above its own.
---
 src/resolver/back_end/recursive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index a0fe74e..cbcb964 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -348,8 +348,9 @@ impl<'a> Lookup<'a> {
 /// All the records should have the same ttl and record type.The TTL of the returned
 /// records is properly lowered since they were inserted in the cache in the past.
 fn search_records_in_cache(cache: &RecordsCache, node: &dns::Name, kind: dns::RecordType) -> Vec<dns::Record> {
-    let before_get = time::Instant::now();
     let cache_entry = cache.get_clone(&(node.clone(), kind));
+    // Not before the entry is read, it could be set by another lookup in the meantime.
+    let now = time::Instant::now();
     let (exp, mut records) = match cache_entry {
         Some(v) if v.1.is_empty() => return vec![],
         None => return vec![],
@@ -362,12 +363,11 @@ fn search_records_in_cache(cache: &RecordsCache, node: &dns::Name, kind: dns::Re
     for rec in &records {
         assert_eq!(rec.record_type(), rec_type);
         assert_eq!(rec.ttl(), rec_ttl);
-        assert!(exp > before_get);
     }
 
     // Correct records TTLs.
     for record in &mut records {
-        let ttl = (exp - before_get).as_secs();
+        let ttl = exp.saturating_duration_since(now).as_secs();
         let remaining_ttl = u32::try_from(ttl).unwrap();
         record.set_ttl(remaining_ttl);
     }
-- 
2.43.0

