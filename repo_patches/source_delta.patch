From bdebeab641897cd63ea8a5353ba30fe956c78d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 01/31] fix: take a parsed response's body length from
 Content-Length, not Content-Type

---
 puck/src/response/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index b6fce84..35c391a 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -108,7 +108,7 @@ impl Response {
             reader,
             headers
                 .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-type"))
+                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
                 .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
         );
 
-- 
2.43.0


From 9aaead0b0cf37c8d2ddabbcf453f39456cd04ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 02/31] fix: report a malformed response head instead of
 returning it half parsed

---
 puck/src/response/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index 35c391a..2e3b11a 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -75,7 +75,7 @@ impl Response {
             }
         }
 
-        let _ = res.parse(&buf);
+        let _ = res.parse(&buf)?;
 
         let headers = {
             let mut map = HashMap::new();
@@ -140,6 +140,8 @@ impl Response {
 /// An error encountered when parsing a `Response`.
 #[allow(missing_docs)]
 pub enum ParseResponseError {
+    #[error("could not parse")]
+    CouldNotParse(httparse::Error),
     #[error("io error")]
     IoError(io::Error),
     #[error("the status code was not supplied")]
@@ -150,6 +152,12 @@ pub enum ParseResponseError {
     Utf8Error,
 }
 
+impl From<httparse::Error> for ParseResponseError {
+    fn from(error: httparse::Error) -> Self {
+        Self::CouldNotParse(error)
+    }
+}
+
 impl From<io::Error> for ParseResponseError {
     fn from(error: io::Error) -> Self {
         Self::IoError(error)
-- 
2.43.0


From 29b83bd655b68639b880bfa64602074441e58415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 03/31] fix: parse HEAD as Method::Head and write it as the
 bare token

---
 puck/src/request/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 7985430..eb4cb50 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -223,6 +223,7 @@ impl Method {
         match str.to_ascii_lowercase().as_str() {
             "get" => Self::Get,
             "post" => Self::Post,
+            "head" => Self::Head,
             _ => Self::OtherMethod(str.to_string()),
         }
     }
@@ -232,7 +233,7 @@ impl Method {
         let to_write = match self {
             Method::Get => "GET",
             Method::Post => "POST",
-            Method::Head => "HEAD /",
+            Method::Head => "HEAD",
             Method::OtherMethod(name) => name,
         };
         write!(write, "{}", to_write)
-- 
2.43.0


From 3307472925ceb5dfb209988a9b18b5422d855e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 04/31] fix: keep the query when writing a request's target

---
 puck/src/request/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index eb4cb50..0c830b9 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -118,7 +118,11 @@ impl Request {
     /// in-place; specifically, it will empty the contents of this `Request`'s body.
     pub fn write(&mut self, write: &mut impl Write) -> io::Result<()> {
         self.method.write(write)?;
-        write!(write, " {} ", self.url.path())?;
+        write!(write, " {}", self.url.path())?;
+        if let Some(query) = self.url.query() {
+            write!(write, "?{}", query)?;
+        }
+        write!(write, " ")?;
         write!(write, "HTTP/1.1\r\n")?;
         for (key, value) in &self.headers {
             write!(write, "{}: {}\r\n", key, value)?;
-- 
2.43.0


From 4710ae46e18f2b5c84276329e5043de185abbedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 05/31] fix: do not size into_string's buffer from a
 Content-Length the peer chose

---
 puck/src/body/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/body/mod.rs b/puck/src/body/mod.rs
index 059f130..b755881 100644
--- a/puck/src/body/mod.rs
+++ b/puck/src/body/mod.rs
@@ -77,7 +77,7 @@ impl Body {
     /// Reads to completion from the underlying IO source, and returns the result as a
     /// `String`.
     pub fn into_string(mut self) -> std::io::Result<String> {
-        let mut result = String::with_capacity(self.length.unwrap_or(0));
+        let mut result = String::new();
         self.read_to_string(&mut result)?;
         Ok(result)
     }
-- 
2.43.0


From a1ce46be979e16efa50f47b02c118eab44813bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 06/31] fix: do not allocate the payload length a WebSocket
 peer declares, nor compare it truncated

---
 puck/src/ws/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index b2a0993..da27116 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -66,10 +66,10 @@ impl Frame {
                 return Err(ParseFrameError::InsufficientData);
             }
 
-            let mut encoded = Vec::with_capacity(payload_length as usize);
+            let mut encoded = Vec::new();
 
             let n = bufread.take(payload_length).read_to_end(&mut encoded)?;
-            if n != payload_length as usize {
+            if n as u64 != payload_length {
                 if !fin && payload_length > n as u64 {
                     return Err(ParseFrameError::WaitForNextFrame(payload_length - n as u64));
                 }
-- 
2.43.0


From adf9616ac4230e7dca454c508c4cc45f49fcd5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 07/31] fix: read exactly one WebSocket frame from the stream,
 however it is chunked

---
 puck/src/ws/frame.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index da27116..2c2db14 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -1,6 +1,6 @@
 //! WebSocket frame parsing.
 
-use std::io::{BufReader, Read, Write};
+use std::io::{Read, Write};
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
 
@@ -19,14 +19,12 @@ pub struct Frame {
 
 impl Frame {
     /// Parse a frame from the given stream.
-    pub fn parse(stream: impl Read) -> Result<Self, ParseFrameError> {
-        let mut bufread = BufReader::new(stream);
-
+    pub fn parse(mut stream: impl Read) -> Result<Self, ParseFrameError> {
         let (first, second) = {
             let mut buffer = [0_u8; 2];
-            if bufread.read(&mut buffer)? != 2 {
-                return Err(ParseFrameError::InsufficientData);
-            }
+            stream
+                .read_exact(&mut buffer)
+                .map_err(|_| ParseFrameError::InsufficientData)?;
             (buffer[0], buffer[1])
         };
 
@@ -51,8 +49,8 @@ impl Frame {
         let masked = second & 0x80 != 0;
 
         let payload_length = match second & 0x7F {
-            126 => bufread.read_uint::<NetworkEndian>(2)?,
-            127 => bufread.read_uint::<NetworkEndian>(8)?,
+            126 => stream.read_uint::<NetworkEndian>(2)?,
+            127 => stream.read_uint::<NetworkEndian>(8)?,
             i => i as u64,
         };
 
@@ -62,13 +60,13 @@ impl Frame {
 
         let decoded = if payload_length > 0 {
             let mut masking_key = [0_u8; 4];
-            if bufread.read(&mut masking_key)? != 4 {
-                return Err(ParseFrameError::InsufficientData);
-            }
+            stream
+                .read_exact(&mut masking_key)
+                .map_err(|_| ParseFrameError::InsufficientData)?;
 
             let mut encoded = Vec::new();
 
-            let n = bufread.take(payload_length).read_to_end(&mut encoded)?;
+            let n = stream.take(payload_length).read_to_end(&mut encoded)?;
             if n as u64 != payload_length {
                 if !fin && payload_length > n as u64 {
                     return Err(ParseFrameError::WaitForNextFrame(payload_length - n as u64));
-- 
2.43.0


From 67c589d649a64d6040bc71ca2c344d7d92705cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 08/31] fix: consume the masking key of an empty masked
 WebSocket frame

---
 puck/src/ws/frame.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 2c2db14..7b6e056 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -58,12 +58,14 @@ impl Frame {
             return Err(ParseFrameError::MaskNotSet);
         }
 
-        let decoded = if payload_length > 0 {
-            let mut masking_key = [0_u8; 4];
+        let mut masking_key = [0_u8; 4];
+        if masked {
             stream
                 .read_exact(&mut masking_key)
                 .map_err(|_| ParseFrameError::InsufficientData)?;
+        }
 
+        let decoded = if payload_length > 0 {
             let mut encoded = Vec::new();
 
             let n = stream.take(payload_length).read_to_end(&mut encoded)?;
-- 
2.43.0


From 95fc2ad6355fe475c3cbb7064803f1c2c704f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 09/31] fix: encode a 65535 byte WebSocket payload length in 16
 bits

---
 puck/src/ws/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 7b6e056..b66db8c 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -131,7 +131,7 @@ impl Frame {
 
         let len = self.decoded.len();
 
-        if len >= 126_usize && len < u16::MAX as usize {
+        if len >= 126_usize && len <= u16::MAX as usize {
             to.write_u16::<NetworkEndian>(len as u16)?;
         } else if len >= 126 {
             to.write_u64::<NetworkEndian>(len as u64)?;
@@ -143,7 +143,7 @@ impl Frame {
     pub(crate) fn format_length(len: u64) -> u8 {
         if len < 126 {
             len as u8
-        } else if len < u16::MAX as u64 {
+        } else if len <= u16::MAX as u64 {
             126
         } else {
             127
-- 
2.43.0


From 18fe89ae751fa92fd73dc9f9072f6b7ef8d7101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 10/31] fix: hand a WebSocket frame to the transport in one
 write

---
 puck/src/ws/send.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/send.rs b/puck/src/ws/send.rs
index cd329a5..a8e758b 100644
--- a/puck/src/ws/send.rs
+++ b/puck/src/ws/send.rs
@@ -10,8 +10,11 @@ pub(crate) fn send(stream: impl Write, msg: Message) -> Result<(), SendFrameErro
 }
 
 pub(crate) fn send_frame(mut stream: impl Write, frame: Frame) -> Result<(), SendFrameError> {
-    frame.format(&mut stream)?;
-    stream.write_all(frame.decoded())?;
+    // one write, so that frames sent by other holders of this stream cannot end up inside this one
+    let mut encoded = Vec::new();
+    frame.format(&mut encoded)?;
+    encoded.extend_from_slice(frame.decoded());
+    stream.write_all(&encoded)?;
 
     Ok(())
 }
-- 
2.43.0


From a6a6c247aff046f996fa9fd5d44375beebaa0dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 11/31] fix: reject fragmented control frames and orphan
 continuations at once

---
 puck/src/ws/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/puck/src/ws/message.rs b/puck/src/ws/message.rs
index 835b195..9e6cc9c 100644
--- a/puck/src/ws/message.rs
+++ b/puck/src/ws/message.rs
@@ -60,6 +60,11 @@ impl Message {
 
         let op_code = *first.op_code();
 
+        // only data messages may be fragmented
+        if op_code != OpCode::Binary && op_code != OpCode::Text {
+            return Err(DecodeMessageError::ClientProtocolViolationError);
+        }
+
         let mut payload = first.take_decoded();
 
         loop {
-- 
2.43.0


From eca145d11f475d98a031a200fda13ddb754a3dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 12/31] fix: a WebSocket peer which stops reading no longer
 panics the process

---
 puck/src/ws/websocket.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 9df687d..2e647d1 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -59,7 +59,7 @@ impl WebSocket {
     pub fn close(self) -> Result<UsedStream, SendFrameError> {
         match self.state {
             WebSocketState::Open => {
-                send_close_frame(self.stream.clone());
+                send_close_frame(self.stream.clone())?;
             }
             WebSocketState::Closed => {}
         };
@@ -87,7 +87,7 @@ impl Iterator for WebSocket {
             WebSocketState::Open => match Message::next(self.stream.clone()) {
                 Ok(msg) => {
                     if let Message::Ping(ref payload) = msg {
-                        send_frame(
+                        if send_frame(
                             self.stream.clone(),
                             Frame {
                                 fin: true,
@@ -98,7 +98,11 @@ impl Iterator for WebSocket {
                                 decoded: payload.clone().unwrap_or_default(),
                             },
                         )
-                        .expect("failed to send pong");
+                        .is_err()
+                        {
+                            self.state = WebSocketState::Closed;
+                            return Some(Err(NextMessageError::ConnectionClosed));
+                        }
                     }
                     Ok(msg)
                 }
@@ -108,7 +112,8 @@ impl Iterator for WebSocket {
                     }
                     super::message::DecodeMessageError::ClientSentCloseFrame => {
                         self.state = WebSocketState::Closed;
-                        send_close_frame(self.stream.clone());
+                        // the peer may already have gone away
+                        let _ = send_close_frame(self.stream.clone());
                         Err(NextMessageError::ConnectionClosed)
                     }
                 },
@@ -129,7 +134,7 @@ pub enum NextMessageError {
     ConnectionClosed,
 }
 
-fn send_close_frame(stream: impl Write) {
+fn send_close_frame(stream: impl Write) -> Result<(), SendFrameError> {
     trace!("Sending close frame");
     send_frame(
         stream,
@@ -142,5 +147,4 @@ fn send_close_frame(stream: impl Write) {
             decoded: vec![],
         },
     )
-    .expect("failed to send close frame");
 }
-- 
2.43.0


From 6543cd25ddaac4d616b912d0781b5009885aaf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 13/31] fix: treat a WebSocket as closed after a protocol error
 or the end of its stream

---
 puck/src/ws/websocket.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 2e647d1..7caf406 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -108,6 +108,8 @@ impl Iterator for WebSocket {
                 }
                 Err(e) => match e {
                     super::message::DecodeMessageError::ClientProtocolViolationError => {
+                        // where the next frame starts is no longer known
+                        self.state = WebSocketState::Closed;
                         Err(NextMessageError::ClientError)
                     }
                     super::message::DecodeMessageError::ClientSentCloseFrame => {
-- 
2.43.0


From ced13eafe0eef2996b802e511287bd99a09843c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 14/31] fix: find the WebSocket handshake's headers whatever
 case their names are in

---
 puck/src/ws/upgrade.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/puck/src/ws/upgrade.rs b/puck/src/ws/upgrade.rs
index 96b1745..0749978 100644
--- a/puck/src/ws/upgrade.rs
+++ b/puck/src/ws/upgrade.rs
@@ -6,16 +6,21 @@ use sha1::{Digest, Sha1};
 
 use crate::{err_400, write_response, Response};
 
+/// Look up a header, ignoring the case of its name.
+fn header<'a>(req: &'a crate::Request, name: &str) -> Option<&'a String> {
+    req.headers
+        .iter()
+        .find(|(key, _)| key.eq_ignore_ascii_case(name))
+        .map(|(_, value)| value)
+}
+
 /// Compute whether or not this request can be upgraded.
 pub fn should_upgrade(req: &crate::Request) -> bool {
-    req.headers
-        .get("Upgrade")
+    header(req, "Upgrade")
         .map(|val| val.to_ascii_lowercase() == "websocket")
         .unwrap_or_default()
         // todo: read the spec to check if the check for the upgrade header is correct!
-        && req
-            .headers
-            .get("Connection")
+        && header(req, "Connection")
             .map(|val| val.to_ascii_lowercase().contains("upgrade"))
             .unwrap_or_default()
 }
@@ -28,7 +33,7 @@ const GUID: &str = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 /// Returns true if this is successful, and false if it is not. Automatically sends a 400 Bad
 /// Request response if the request fails.
 pub fn perform_upgrade(req: &crate::Request, stream: impl Write) -> bool {
-    let key = match req.headers.get("Sec-WebSocket-Key") {
+    let key = match header(req, "Sec-WebSocket-Key") {
         Some(t) => t,
         None => {
             trace!("Rejecting WebSocket upgrade because of missing `Sec-WebSocket-Key` header.");
-- 
2.43.0


From c94f04980576d5df5d8e7ed5b8d0899435fc84ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 15/31] fix: a peer which vanishes during the WebSocket
 handshake no longer panics the process

---
 puck/src/core/mod.rs   |  4 +++-
 puck/src/ws/upgrade.rs | 14 +++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/puck/src/core/mod.rs b/puck/src/core/mod.rs
index 571f59f..3370ebb 100644
--- a/puck/src/core/mod.rs
+++ b/puck/src/core/mod.rs
@@ -137,7 +137,9 @@ impl Stream {
         self.keep_alive = false;
 
         if !ws::should_upgrade(req) {
-            return Err(self.respond(crate::err_400()).unwrap());
+            return Err(self
+                .respond(crate::err_400())
+                .unwrap_or_else(|_| UsedStream::empty()));
         }
 
         if !ws::perform_upgrade(req, self.stream.clone()) {
diff --git a/puck/src/ws/upgrade.rs b/puck/src/ws/upgrade.rs
index 0749978..622f58f 100644
--- a/puck/src/ws/upgrade.rs
+++ b/puck/src/ws/upgrade.rs
@@ -4,7 +4,7 @@ use base64::encode;
 use log::trace;
 use sha1::{Digest, Sha1};
 
-use crate::{err_400, write_response, Response};
+use crate::{err_400, response::encoder::Encoder, Response};
 
 /// Look up a header, ignoring the case of its name.
 fn header<'a>(req: &'a crate::Request, name: &str) -> Option<&'a String> {
@@ -37,24 +37,24 @@ pub fn perform_upgrade(req: &crate::Request, stream: impl Write) -> bool {
         Some(t) => t,
         None => {
             trace!("Rejecting WebSocket upgrade because of missing `Sec-WebSocket-Key` header.");
-            write_response(err_400(), stream);
+            // can't do much if this fails
+            let _ = Encoder::new(err_400()).write_tcp_stream(stream);
             return false;
         }
     };
 
     let result = compute_accept_header(key.clone());
 
-    write_response(
+    Encoder::new(
         Response::build()
             .header("Sec-WebSocket-Accept", result)
             .header("Upgrade", "websocket")
             .header("Connection", "Upgrade")
             .status(101, "Web Socket Protocol Handshake")
             .build(),
-        stream,
-    );
-
-    true
+    )
+    .write_tcp_stream(stream)
+    .is_ok()
 }
 
 fn compute_accept_header(key: String) -> String {
-- 
2.43.0


From 6d9687594b1299dfa0e42bb1262d3f18ca38a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 16/31] fix: answer a malformed request with 400 in every
 server entry point

---
 puck/src/core/mod.rs        | 5 +++--
 puck/src/core/router/mod.rs | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/puck/src/core/mod.rs b/puck/src/core/mod.rs
index 3370ebb..89ed6e8 100644
--- a/puck/src/core/mod.rs
+++ b/puck/src/core/mod.rs
@@ -48,7 +48,7 @@ where
                     |(stream, ints, state), _: Mailbox<()>| {
                         let router = Router::<STATE>::from_ints(ints);
 
-                        let req = if let Some(req) = Request::parse(stream.clone()).unwrap() {
+                        let req = if let Ok(Some(req)) = Request::parse(stream.clone()) {
                             req
                         } else {
                             let stream = Stream::new(stream, false);
@@ -98,7 +98,8 @@ where
                                 let _recovered_stream = (reconstructed_func)(req, stream, state);
                             }
                             _ => {
-                                todo!()
+                                // can't do much if this fails
+                                let _ = Stream::new(stream, false).respond(crate::err_400());
                             }
                         }
                     },
diff --git a/puck/src/core/router/mod.rs b/puck/src/core/router/mod.rs
index e1e4d39..023373d 100644
--- a/puck/src/core/router/mod.rs
+++ b/puck/src/core/router/mod.rs
@@ -108,6 +108,9 @@ impl<STATE: Serialize + DeserializeOwned + Clone> Router<STATE> {
                     if let Ok(Some(req)) = Request::parse(stream.clone()) {
                         let router = Router::<STATE>::from_ints(ints);
                         router.respond(req, Stream::new(stream, false), state);
+                    } else {
+                        // can't do much if this fails
+                        let _ = Stream::new(stream, false).respond(crate::err_400());
                     }
                 },
             );
-- 
2.43.0


From e1e7ca014b4c55516f2fb45a81a4ff9a0686759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 17/31] fix: a body of unknown length does not overflow its
 byte counter

---
 puck/src/body/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/puck/src/body/mod.rs b/puck/src/body/mod.rs
index b755881..70ddb2e 100644
--- a/puck/src/body/mod.rs
+++ b/puck/src/body/mod.rs
@@ -106,7 +106,8 @@ impl Read for Body {
             }
         };
         let bytes = self.reader.read(buf)?;
-        self.bytes_read += bytes;
+        // only the distance to a declared length matters, and that cannot overflow
+        self.bytes_read = self.bytes_read.saturating_add(bytes);
         Ok(bytes)
     }
 }
-- 
2.43.0


From 50ce662a2a1bd4311e89022fb952e70f235107a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 18/31] fix: the component's reader process ends when the
 connection has closed

---
 puck_liveview/src/component/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index 9de4e09..6351a67 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -69,10 +69,12 @@ where
             Process::spawn(
                 (stream, process.clone()),
                 |(mut websocket, process), _: Mailbox<()>| loop {
-                    loop {
-                        let msg = websocket.next();
-                        if let Some(msg) = msg {
-                            process.send(WsOrInput::Ws(msg))
+                    let msg = websocket.next();
+                    if let Some(msg) = msg {
+                        let closed = matches!(msg, Err(NextMessageError::ConnectionClosed));
+                        process.send(WsOrInput::Ws(msg));
+                        if closed {
+                            break;
                         }
                     }
                 },
-- 
2.43.0


From 0a6e3154a790fda8500e79b488952a53534a8383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 19/31] fix: a client that leaves before the first paint does
 not panic its component

---
 puck_liveview/src/component/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index 6351a67..26884ac 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -112,7 +112,10 @@ fn main_loop<COMPONENT, DATA, INPUT>(
 
     let payload = serde_json::to_string(&InstructionSerializer(instructions)).unwrap();
 
-    stream.send(Message::Text(payload)).unwrap();
+    if stream.send(Message::Text(payload)).is_err() {
+        // the client has gone already
+        return;
+    }
 
     loop {
         let msg = mailbox.receive();
-- 
2.43.0


From 630365b4472ad8645f5684d9584451d1ef961ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 20/31] fix: a change of tag name is addressed to the element's
 current id

---
 puck_liveview/src/dom/element/diff/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index 9c4660f..2f6eb5d 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -116,7 +116,7 @@ impl Element {
     fn diff_name<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
         if self.name != other.name {
             Changeset::from_op(Op {
-                id: other.id(),
+                id: self.id(),
                 instruction: Instruction::SetTagName {
                     name: Cow::Borrowed(&other.name),
                 },
-- 
2.43.0


From cdb7d02e450410bfa393957d4417a74301b4ffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 21/31] fix: changed listeners are attached to the element's
 current id

---
 puck_liveview/src/dom/element/diff/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index 2f6eb5d..2c8251e 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -184,7 +184,11 @@ impl Element {
                 id: self.id(),
                 instruction: Instruction::RemoveListeners,
             });
-            c.ops.extend(other.generate_listeners())
+            // the element takes on its new id only after this
+            c.ops.extend(other.generate_listeners().into_iter().map(|op| Op {
+                id: self.id(),
+                ..op
+            }))
         }
 
         c
-- 
2.43.0


From a38ee405e847b4c44006063c433fb93f63b4376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:02 +0000
Subject: [PATCH 22/31] fix: the client keeps attribute values and listener
 names that contain a +

---
 puck_liveview/client/index.js | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index c356ddd..037bc2c 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -16,10 +16,10 @@ ws.onmessage = (msg) => {
         } else if (data.ty === "setAttr") {
             console.log("set attribute");
             console.log(document.getElementById(data.el));
-            let split = data["payload"].split("+");
-            console.log(split[1]);
+            // the value can contain a "+"
+            let at = data["payload"].indexOf("+");
             let el = document.getElementById(data.el);
-            el.setAttribute(split[0], split[1]);
+            el.setAttribute(data["payload"].slice(0, at), data["payload"].slice(at + 1));
         } else if (data.ty == "removeAttr") {
             document.getElementById(data.el).removeAttribute(data.payload);
         } else if (data.ty === "setTagName") {
@@ -37,7 +37,9 @@ ws.onmessage = (msg) => {
             console.log(data);
             document.getElementById(data["el"]).textContent = data["payload"];
         } else if (data.ty === "attachListener") {
-            let split = data.payload.split("+");
+            // the listener's name can contain a "+"
+            let at = data.payload.lastIndexOf("+");
+            let split = [data.payload.slice(0, at), data.payload.slice(at + 1)];
             document.getElementById(data.el).addEventListener(split[1], function (e) {
                 console.log("sending listener data");
                 console.log(split);
-- 
2.43.0


From c5683ed9218cbe00ac29613632c2d1f4062efa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:02 +0000
Subject: [PATCH 23/31] fix: changing an element's text on the client keeps its
 children

---
 puck_liveview/client/index.js | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index 037bc2c..a898f10 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -35,7 +35,14 @@ ws.onmessage = (msg) => {
             old_tag.parentNode.replaceChild(new_tag, old_tag);
         } else if (data.ty === "setText") {
             console.log(data);
-            document.getElementById(data["el"]).textContent = data["payload"];
+            let el = document.getElementById(data["el"]);
+            let text = el.firstChild;
+            // the text of an element comes before its children
+            if (text && text.nodeType === Node.TEXT_NODE) {
+                text.nodeValue = data["payload"];
+            } else {
+                el.insertBefore(document.createTextNode(data["payload"]), text);
+            }
         } else if (data.ty === "attachListener") {
             // the listener's name can contain a "+"
             let at = data.payload.lastIndexOf("+");
-- 
2.43.0


From 16019c313fa50fabcbed078850c80a2232c00c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:02 +0000
Subject: [PATCH 24/31] fix: the client carries out removeText

---
 puck_liveview/client/index.js | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index a898f10..1ecac1f 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -43,6 +43,12 @@ ws.onmessage = (msg) => {
             } else {
                 el.insertBefore(document.createTextNode(data["payload"]), text);
             }
+        } else if (data.ty === "removeText") {
+            let el = document.getElementById(data.el);
+            let text = el.firstChild;
+            if (text && text.nodeType === Node.TEXT_NODE) {
+                el.removeChild(text);
+            }
         } else if (data.ty === "attachListener") {
             // the listener's name can contain a "+"
             let at = data.payload.lastIndexOf("+");
-- 
2.43.0


From e008774a81f9e5fcf7492db5d502eec6eee69661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 25/31] fix: removing an element's listeners on the client
 keeps those of its children

---
 puck_liveview/client/index.js | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index 1ecac1f..afeaaf1 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -53,7 +53,7 @@ ws.onmessage = (msg) => {
             // the listener's name can contain a "+"
             let at = data.payload.lastIndexOf("+");
             let split = [data.payload.slice(0, at), data.payload.slice(at + 1)];
-            document.getElementById(data.el).addEventListener(split[1], function (e) {
+            let call = function (e) {
                 console.log("sending listener data");
                 console.log(split);
                 console.log(data);
@@ -75,11 +75,14 @@ ws.onmessage = (msg) => {
                         }
                     }));
                 }
-            })
+            };
+            let el = document.getElementById(data.el);
+            el.addEventListener(split[1], call);
+            el.listeners = (el.listeners || []).concat({ on: split[1], call: call });
         } else if (data.ty === "removeListeners") {
-            let old = document.getElementById(data.el);
-            let new_el = old.cloneNode(true);
-            old.parentNode.replaceChild(new_el, old);
+            let el = document.getElementById(data.el);
+            (el.listeners || []).forEach((each) => el.removeEventListener(each.on, each.call));
+            el.listeners = [];
         } else if (data.ty === "deleteEl") {
             let el = document.getElementById(data.el);
             console.log("deleting");
-- 
2.43.0


From 47e9251e7ec7faf59708fe95a997e616f92cd5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 26/31] fix: changing a tag's name on the client keeps its
 listeners and its children's

---
 puck_liveview/client/index.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index afeaaf1..5927697 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -25,7 +25,11 @@ ws.onmessage = (msg) => {
         } else if (data.ty === "setTagName") {
             let old_tag = document.getElementById(data.el);
             let new_tag = document.createElement(data.payload);
-            new_tag.innerHTML = old_tag.innerHTML;
+            while (old_tag.firstChild) {
+                new_tag.appendChild(old_tag.firstChild);
+            }
+            new_tag.listeners = old_tag.listeners || [];
+            new_tag.listeners.forEach((each) => new_tag.addEventListener(each.on, each.call));
             for (var i = 0, l = old_tag.attributes.length; i < l; ++i) {
                 let name = old_tag.attributes.item(i).nodeName;
                 var value = old_tag.attributes.item(i).nodeValue;
-- 
2.43.0


From 745c49e12753f282fe57f2716d424eedffddfe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 27/31] fix: select and noscript nodes are rendered under their
 own tag names

---
 puck_liveview/src/html/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck_liveview/src/html/mod.rs b/puck_liveview/src/html/mod.rs
index b064502..1a31400 100644
--- a/puck_liveview/src/html/mod.rs
+++ b/puck_liveview/src/html/mod.rs
@@ -145,7 +145,7 @@ impl WrappedBodyNode {
                 let select = select.into_pub_fields();
                 Element {
                     id: id_gen.new_id(),
-                    name: std::borrow::Cow::Borrowed("div"),
+                    name: std::borrow::Cow::Borrowed("select"),
                     attributes: select.attrs,
                     listeners: self.listeners,
                     children: self
@@ -162,7 +162,7 @@ impl WrappedBodyNode {
                 let noscript = noscript.into_pub_fields();
                 Element {
                     id: id_gen.new_id(),
-                    name: std::borrow::Cow::Borrowed("div"),
+                    name: std::borrow::Cow::Borrowed("noscript"),
                     attributes: HashMap::new(),
                     listeners: vec![],
                     children: vec![],
-- 
2.43.0


From 153a5d37bda4e04ffdef20d5b8d2e37f434590cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:27 +0000
Subject: [PATCH 28/31] fix: the children of a link are rendered

---
 puck_liveview/src/html/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/src/html/mod.rs b/puck_liveview/src/html/mod.rs
index 1a31400..73ae724 100644
--- a/puck_liveview/src/html/mod.rs
+++ b/puck_liveview/src/html/mod.rs
@@ -117,7 +117,11 @@ impl WrappedBodyNode {
                     name: std::borrow::Cow::Borrowed("a"),
                     attributes: a.attrs,
                     listeners: self.listeners,
-                    children: vec![],
+                    children: self
+                        .children
+                        .into_iter()
+                        .map(|child| child.into_element(id_gen))
+                        .collect(),
                     text: Some(a.text),
                     key: None,
                 }
-- 
2.43.0


From 384db42fc0977fa4abc1b93dafd61643be8fb6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 29/31] fix: keyed children that are new are created, and
 reordered ones end up in their new places

---
 .../src/dom/element/diff/changeset/mod.rs     |  2 +
 puck_liveview/src/dom/element/diff/mod.rs     | 59 +++++++++++--------
 2 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/puck_liveview/src/dom/element/diff/changeset/mod.rs b/puck_liveview/src/dom/element/diff/changeset/mod.rs
index e3d3c12..cd2b642 100644
--- a/puck_liveview/src/dom/element/diff/changeset/mod.rs
+++ b/puck_liveview/src/dom/element/diff/changeset/mod.rs
@@ -51,9 +51,11 @@ pub(crate) enum Instruction<'a> {
     InsertChild {
         new_child_id: String,
     },
+    #[allow(unused)]
     InsertAfter {
         after_id: String,
     },
+    #[allow(unused)]
     InsertBefore {
         before_id: String,
     },
diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index 2c8251e..ada2241 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -223,39 +223,22 @@ impl Element {
     fn diff_children<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
         let mut changeset = Changeset::empty();
 
-        if self.children_are_all_keyed() && other.children_are_all_keyed() {
-            // nodes which are shared between us and the other node
-            let mut unpaired = vec![];
-            for (i, their_child) in other.children.iter().enumerate() {
+        if self.children_are_all_keyed()
+            && other.children_are_all_keyed()
+            && self.keyed_children_stay_in_place(other)
+        {
+            for their_child in other.children.iter() {
                 if let Some(my_child) = self.locate_child_by_key(their_child.key.as_ref().unwrap())
                 {
                     changeset.ops.extend(my_child.diff(Some(their_child)));
                 } else {
-                    unpaired.push(i);
+                    // a new node (one that exists for them, but not for us)
+                    changeset
+                        .ops
+                        .extend(their_child.create_from_scratch(Some(self)));
                 }
             }
 
-            // generate all the new nodes (the ones that exist for them, but not for us)
-            let len = unpaired.len();
-            for each in unpaired {
-                changeset.ops.push(Op {
-                    id: other.children[each].id(),
-                    instruction: if each == 0 {
-                        Instruction::InsertBefore {
-                            before_id: other.children[1].id(),
-                        }
-                    } else if each == len {
-                        Instruction::InsertAfter {
-                            after_id: other.children[each].id(),
-                        }
-                    } else {
-                        Instruction::InsertBefore {
-                            before_id: other.children[each - 1].id(),
-                        }
-                    },
-                })
-            }
-
             // delete all the nodes that we have that they don't
             for our_child in self.children.iter() {
                 if other
@@ -302,6 +285,30 @@ impl Element {
         changeset
     }
 
+    /// Checks that the keyed children which `other` shares with us are its first ones and have kept
+    /// their order, so that each of them can be updated where it is and the new ones can be appended.
+    fn keyed_children_stay_in_place(&self, other: &Element) -> bool {
+        let shared = self
+            .children
+            .iter()
+            .filter(|el| {
+                other
+                    .locate_child_by_key(el.key.as_ref().unwrap())
+                    .is_some()
+            })
+            .collect::<Vec<_>>();
+
+        shared.len() <= other.children.len()
+            && shared
+                .iter()
+                .zip(&other.children)
+                .all(|(mine, theirs)| mine.key == theirs.key)
+            && other.children[shared.len()..].iter().all(|el| {
+                self.locate_child_by_key(el.key.as_ref().unwrap())
+                    .is_none()
+            })
+    }
+
     /// Checks that the `Element` doesn't have children without a key.
     fn children_are_all_keyed(&self) -> bool {
         self.children.iter().all(|el| el.key.is_some())
-- 
2.43.0


From f53ee25764fc61aaaf4200fa2ab0b801407d0e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 30/31] fix: a form with a submit listener does not leave the
 page

---
 puck_liveview/client/index.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index 5927697..358f2e4 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -67,6 +67,8 @@ ws.onmessage = (msg) => {
                         listener: split[0]
                     }));
                 } else if (split[1] === "submit") {
+                    // the page stays: the component handles the form
+                    e.preventDefault();
                     ws.send(JSON.stringify({
                         listener: split[0]
                     }));
-- 
2.43.0


From a1a6b9637f1cb625a0c86679fbb076bf48035555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:26 +0000
Subject: [PATCH 31/31] fix: children with equal keys were updated as if they
 were one

---
 puck_liveview/src/dom/element/diff/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index ada2241..636ddec 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -303,6 +303,11 @@ impl Element {
                 .iter()
                 .zip(&other.children)
                 .all(|(mine, theirs)| mine.key == theirs.key)
+            // a key that occurs twice does not tell which element is meant
+            && shared
+                .iter()
+                .enumerate()
+                .all(|(i, el)| shared[..i].iter().all(|before| before.key != el.key))
             && other.children[shared.len()..].iter().all(|el| {
                 self.locate_child_by_key(el.key.as_ref().unwrap())
                     .is_none()
-- 
2.43.0

