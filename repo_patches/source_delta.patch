From 880b1366266371c48b888b4ee28754de1f859a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 01/11] fix: reject a packet whose attributes exceed 65515
 bytes instead of wrapping its length

The size was computed in u16, so a packet with more than 65515 bytes of
attributes overflowed (panic with overflow checks, a datagram with a wrong
length field without them) instead of failing with "packet is too large".
---
 radius/src/core/packet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radius/src/core/packet.rs b/radius/src/core/packet.rs
index a42e806..b3e4e7c 100644
--- a/radius/src/core/packet.rs
+++ b/radius/src/core/packet.rs
@@ -288,15 +288,15 @@ impl Packet {
             Err(e) => return Err(e),
         };
 
-        let size = RADIUS_PACKET_HEADER_LENGTH as u16 + encoded_avp.len() as u16;
-        if size as usize > MAX_PACKET_LENGTH {
+        let size = RADIUS_PACKET_HEADER_LENGTH + encoded_avp.len();
+        if size > MAX_PACKET_LENGTH {
             return Err("packet is too large".to_owned());
         }
 
         let mut bs: Vec<u8> = Vec::new();
         bs.push(self.code as u8);
         bs.push(self.identifier);
-        bs.extend(u16::to_be_bytes(size).to_vec());
+        bs.extend(u16::to_be_bytes(size as u16).to_vec());
         bs.extend(self.authenticator.to_vec());
         bs.extend(match self.attributes.encode() {
             Ok(encoded) => encoded,
-- 
2.43.0


From ea872862ea737129a0665fcdb41eda0ade02db44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:25 +0000
Subject: [PATCH 02/11] fix: release the request key when the request handler
 panics

A panicking handler skipped the removal of its key from the undergoing
requests, so every later request with the same source address and identifier
was dropped as a duplicate until the server restarted.
---
 radius/src/server.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/radius/src/server.rs b/radius/src/server.rs
index ac891d4..7d1c84a 100644
--- a/radius/src/server.rs
+++ b/radius/src/server.rs
@@ -211,6 +211,11 @@ impl<X, E: Debug, T: RequestHandler<X, E>, U: SecretProvider> Server<X, E, T, U>
             }
             undergoing_requests.insert(key);
         }
+        // this removes the key even if the request handler panics
+        let _undergoing_request = UndergoingRequest {
+            undergoing_requests_lock,
+            key: key_for_remove,
+        };
 
         match request_handler
             .handle_radius_request(
@@ -224,9 +229,19 @@ impl<X, E: Debug, T: RequestHandler<X, E>, U: SecretProvider> Server<X, E, T, U>
                 println!("{e:?}");
             }
         }
+    }
+}
+
+/// UndergoingRequest removes the request key from the undergoing requests when it has been dropped.
+struct UndergoingRequest {
+    undergoing_requests_lock: Arc<RwLock<HashSet<RequestKey>>>,
+    key: RequestKey,
+}
 
-        let mut undergoing_requests = undergoing_requests_lock.write().unwrap();
-        undergoing_requests.remove(&key_for_remove);
+impl Drop for UndergoingRequest {
+    fn drop(&mut self) {
+        let mut undergoing_requests = self.undergoing_requests_lock.write().unwrap();
+        undergoing_requests.remove(&self.key);
     }
 }
 
-- 
2.43.0


From de286d39d06b3decfec85af9c4d953dbd6697e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:25 +0000
Subject: [PATCH 03/11] fix: check the length of the plain text of a
 tunnel-password

The limit of 240 bytes was applied to the request authenticator, so a longer
plain text produced an attribute that can neither be sent nor looked up.
---
 radius/src/core/avp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index b0fac66..bf13da8 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -367,10 +367,10 @@ impl AVP {
          *  https://tools.ietf.org/html/rfc2868#section-3.5
          */
 
-        if request_authenticator.len() > 240 {
+        if plain_text.len() > 240 {
             return Err(AVPError::InvalidAttributeLengthError(
                 "240 bytes".to_owned(),
-                request_authenticator.len(),
+                plain_text.len(),
             ));
         }
 
@@ -460,10 +460,10 @@ impl AVP {
          *  https://tools.ietf.org/html/rfc2868#section-3.5
          */
 
-        if request_authenticator.len() > 240 {
+        if plain_text.len() > 240 {
             return Err(AVPError::InvalidAttributeLengthError(
                 "240 bytes".to_owned(),
-                request_authenticator.len(),
+                plain_text.len(),
             ));
         }
 
-- 
2.43.0


From 1aeb192c18f9b13d7d396ed5bd0acbb19b4e3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:25 +0000
Subject: [PATCH 04/11] fix: remove only the trailing zero bytes from a
 decrypted password

A password containing a zero byte was cut at the first one.
---
 radius/src/core/avp.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index bf13da8..a4894d6 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -745,8 +745,8 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok(dec.to_vec()),
+        match dec.iter().rposition(|b| *b != 0) {
+            Some(last) => Ok(dec[..=last].to_vec()),
             None => Ok(vec![]),
         }
     }
@@ -798,8 +798,8 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok(dec.to_vec()),
+        match dec.iter().rposition(|b| *b != 0) {
+            Some(last) => Ok(dec[..=last].to_vec()),
             None => Ok(vec![]),
         }
     }
@@ -872,8 +872,8 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok((dec.to_vec(), tag)),
+        match dec.iter().rposition(|b| *b != 0) {
+            Some(last) => Ok((dec[..=last].to_vec(), tag)),
             None => Ok((vec![], tag)),
         }
     }
@@ -931,8 +931,8 @@ impl AVP {
         }
 
         // remove trailing zero bytes
-        match dec.split(|b| *b == 0).next() {
-            Some(dec) => Ok((dec.to_vec(), tag)),
+        match dec.iter().rposition(|b| *b != 0) {
+            Some(last) => Ok((dec[..=last].to_vec(), tag)),
             None => Ok((vec![], tag)),
         }
     }
-- 
2.43.0


From 650b82bfe9b574c29236ef7461dcffe1fafe877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:25 +0000
Subject: [PATCH 05/11] fix: set the prefix length of an IPv4-prefix attribute
 in bits

The field carried the number of bytes (4); it is a length in bits, as in
from_ipv6_prefix().
---
 radius/src/core/avp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index a4894d6..867a9bd 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -149,7 +149,11 @@ impl AVP {
 
         Ok(AVP {
             typ,
-            value: [vec![0x00, prefix_len as u8 & 0b00111111], prefix.to_vec()].concat::<u8>(),
+            value: [
+                vec![0x00, (prefix_len * 8) as u8 & 0b00111111],
+                prefix.to_vec(),
+            ]
+            .concat::<u8>(),
         })
     }
 
-- 
2.43.0


From 888cd2524a07cb2a7f398c712003b617b6a9257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:42 +0000
Subject: [PATCH 06/11] fix: ignore the padding of a datagram in the
 authenticity validation

RFC 2865 section 3: octets outside the range of the length field must be
treated as padding and ignored on reception. Packet::decode() does so, but the
digests covered them, so a padded authentic packet was rejected.
---
 radius/src/core/packet.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/radius/src/core/packet.rs b/radius/src/core/packet.rs
index b3e4e7c..9ac7ce9 100644
--- a/radius/src/core/packet.rs
+++ b/radius/src/core/packet.rs
@@ -305,6 +305,16 @@ impl Packet {
         Ok(bs)
     }
 
+    /// Strips the octets outside the range of the length field, these must be treated as padding and ignored.
+    /// see also: https://tools.ietf.org/html/rfc2865#section-3
+    fn without_padding(bs: &[u8]) -> &[u8] {
+        let len = u16::from_be_bytes([bs[2], bs[3]]) as usize;
+        match (RADIUS_PACKET_HEADER_LENGTH..=bs.len()).contains(&len) {
+            true => &bs[..len],
+            false => bs,
+        }
+    }
+
     #[cfg(feature = "md5")]
     /// Returns whether the Packet is authentic response or not.
     pub fn is_authentic_response(response: &[u8], request: &[u8], secret: &[u8]) -> bool {
@@ -314,6 +324,7 @@ impl Packet {
         {
             return false;
         }
+        let response = Self::without_padding(response);
 
         compute(
             [
@@ -337,6 +348,7 @@ impl Packet {
         {
             return false;
         }
+        let response = Self::without_padding(response);
 
         let hash_val = hash(
             MessageDigest::md5(),
@@ -359,6 +371,7 @@ impl Packet {
         if request.len() < RADIUS_PACKET_HEADER_LENGTH || secret.is_empty() {
             return false;
         }
+        let request = Self::without_padding(request);
 
         match Code::from(request[0]) {
             Code::AccessRequest | Code::StatusServer => true,
@@ -386,6 +399,7 @@ impl Packet {
         if request.len() < RADIUS_PACKET_HEADER_LENGTH || secret.is_empty() {
             return false;
         }
+        let request = Self::without_padding(request);
 
         match Code::from(request[0]) {
             Code::AccessRequest | Code::StatusServer => true,
-- 
2.43.0


From bc307b815bae83f71353ab50c69ab3ae1fc15a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:42 +0000
Subject: [PATCH 07/11] fix: verify the response on the client

RFC 2865 section 3: the response authenticator must be verified. The client
returned any decodable datagram as the response, even if it carried another
identifier or wasn't made with the shared secret.
---
 radius/src/client.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/radius/src/client.rs b/radius/src/client.rs
index d7c3097..97a68b1 100644
--- a/radius/src/client.rs
+++ b/radius/src/client.rs
@@ -122,7 +122,19 @@ impl Client {
         }?;
 
         match Packet::decode(&response.to_vec(), request_packet.get_secret()) {
-            Ok(response_packet) => Ok(response_packet),
+            Ok(response_packet)
+                if response_packet.get_identifier() == request_packet.get_identifier()
+                    && Packet::is_authentic_response(
+                        &response,
+                        &request_data,
+                        request_packet.get_secret(),
+                    ) =>
+            {
+                Ok(response_packet)
+            }
+            Ok(_) => Err(ClientError::FailedDecodingRadiusResponseError(
+                "the response is not authentic for the request".to_owned(),
+            )),
             Err(e) => Err(ClientError::FailedDecodingRadiusResponseError(format!(
                 "{e}"
             ))),
-- 
2.43.0


From e927cfc5d50981ae3fc0d580d03fc26f426352dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:03 +0000
Subject: [PATCH 08/11] fix: accept value constants of the full 32-bit range in
 dictionaries

---
 code-generator/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index 08adeca..e1c0ae7 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -38,7 +38,7 @@ struct RadiusAttribute {
 #[derive(Debug)]
 struct RadiusValue {
     name: String,
-    value: u16,
+    value: u32,
 }
 
 #[allow(clippy::upper_case_acronyms)]
-- 
2.43.0


From d4858eb191c8d4e6a809effff6fabcf44265460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:03 +0000
Subject: [PATCH 09/11] fix: generate compilable values for attributes that an
 earlier dictionary declared without values

---
 code-generator/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index e1c0ae7..376a415 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -152,8 +152,11 @@ fn main() {
             &attribute_name_to_rfc_name,
         );
 
+        // only a module with values for the attribute has a type alias that later modules can refer to
         for attr in &radius_attributes {
-            attribute_name_to_rfc_name.insert(attr.name.clone(), rfc_name.to_owned());
+            if value_defined_attributes_set.contains(&attr.name) {
+                attribute_name_to_rfc_name.insert(attr.name.clone(), rfc_name.to_owned());
+            }
         }
         rfc_names.push(rfc_name.to_owned());
     }
-- 
2.43.0


From 16b4b975de59d883ecadbd829e65b7185344175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:34 +0000
Subject: [PATCH 10/11] fix: accept a comment that directly follows a value's
 number

---
 code-generator/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index 376a415..f88b810 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -915,7 +915,7 @@ fn parse_dict_file(
 ) -> Result<(DictParsed, io::Lines<io::BufReader<File>>), String> {
     let line_filter_re = Regex::new(r"^(?:#.*|)$").unwrap();
     let ws_re = Regex::new(r"\s+").unwrap();
-    let trailing_comment_re = Regex::new(r"\s*?#.+?$").unwrap();
+    let trailing_comment_re = Regex::new(r"\s*?#.*$").unwrap();
     let fixed_length_octets_re = Regex::new(r"^octets\[(\d+)]$").unwrap();
 
     let mut radius_attributes: Vec<RadiusAttribute> = Vec::new();
-- 
2.43.0


From be87684e3d5fff7a8b6d30acd92aaab5edae357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 11/11] fix: the client ignores datagrams that arrived from
 elsewhere before its socket was connected

---
 radius/src/client.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/radius/src/client.rs b/radius/src/client.rs
index 97a68b1..36cdf64 100644
--- a/radius/src/client.rs
+++ b/radius/src/client.rs
@@ -167,13 +167,17 @@ impl Client {
             }
         };
 
+        let failed_receiving = |e: std::io::Error| {
+            ClientError::FailedReceivingResponseError(remote_addr.to_string(), e.to_string())
+        };
+        let peer_addr = conn.peer_addr().map_err(failed_receiving)?;
         let mut buf = vec![0; Self::MAX_DATAGRAM_SIZE];
-        match conn.recv(&mut buf).await {
-            Ok(len) => Ok(buf[..len].to_vec()),
-            Err(e) => Err(ClientError::FailedReceivingResponseError(
-                remote_addr.to_string(),
-                e.to_string(),
-            )),
+        loop {
+            let (len, from) = conn.recv_from(&mut buf).await.map_err(failed_receiving)?;
+            // a datagram of another source can have arrived before the socket was connected
+            if (from.ip(), from.port()) == (peer_addr.ip(), peer_addr.port()) {
+                return Ok(buf[..len].to_vec());
+            }
         }
     }
 }
-- 
2.43.0

