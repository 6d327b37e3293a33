From d3ef22b6bd1bb8fb1036d6b6bebfae57767126d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 01/36] Expose internals to the verification harness under
 cfg(wruster_verif)

---
 wruster/src/http/client/mod.rs |  6 ++++++
 wruster/src/lib.rs             | 16 ++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 73315f7..4557cf1 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -15,6 +15,12 @@ use crate::streams::timeout_stream::TimeoutStream;
 
 mod connection_pool;
 
+#[allow(unexpected_cfgs)]
+#[cfg(wruster_verif)]
+pub(crate) mod verif {
+    pub use super::connection_pool::{Pool as IdlePool, PoolResource};
+}
+
 #[cfg(test)]
 mod tests;
 
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index a14071f..4525e7e 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -77,6 +77,22 @@ pub mod test_utils;
 mod streams;
 mod thread_pool;
 
+// Lets the verification harness reach internal types, off unless built with
+// `--cfg wruster_verif`.
+#[allow(unexpected_cfgs, missing_docs)]
+#[cfg(wruster_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::http::client::verif::*;
+    pub use crate::streams::{
+        cancellable_stream::CancellableStream,
+        observable::{ObservedStream, ObservedStreamList},
+        timeout_stream::{Timeout, TimeoutStream},
+        BaseStream, Stream,
+    };
+    pub use crate::thread_pool::{Pool, PoolError};
+}
+
 /// Defines the default max time for a request to be read
 pub const DEFAULT_READ_REQUEST_TIMEOUT: time::Duration = time::Duration::from_secs(30);
 
-- 
2.43.0


From 0c5a7c64a4a0e6b238cbfc575c05d1f0b1229d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 02/36] fix: a stream ending inside the headers made the parser
 loop for ever

---
 wruster/src/http/headers.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 51e3f52..199a992 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -230,6 +230,10 @@ impl Header {
             let mut header_chunk = Vec::<u8>::new();
             from.read_until(b'\n', &mut header_chunk)
                 .map_err(HttpError::from)?;
+            if header_chunk.is_empty() {
+                // The stream ended before the end of the headers.
+                return Err(InvalidRequest("incomplete headers".to_string()));
+            }
             line.append(&mut header_chunk);
             debug!("header chunk read: {}", String::from_utf8_lossy(&line));
             let len = line.len();
-- 
2.43.0


From d27398a53ca920261edf0fbddcddba34f4ba8272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 03/36] fix: a header line holding only a name made the parser
 panic

---
 wruster/src/http/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 199a992..bc0ba0a 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -281,7 +281,7 @@ impl Header {
             return Err(InvalidRequest("invalid header name line".to_string()));
         };
         // After the token we MUST receive a colon.
-        if line[i] != b':' {
+        if i >= line.len() || line[i] != b':' {
             error!(
                 "invalid header line: {}, missing semicolon",
                 String::from_utf8_lossy(line)
-- 
2.43.0


From b98486ef596d5f234d4c4030a91c8e2e6346ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 04/36] fix: the white space after a header value was kept as
 part of it

---
 wruster/src/http/headers.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index bc0ba0a..9033f3c 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -306,7 +306,14 @@ impl Header {
             j += 1;
         }
         header_value_start = j;
-        for j in header_value_start..line.len() {
+        // Ignore also the optional white space after the value.
+        let mut header_value_end = line.len();
+        while header_value_end > header_value_start
+            && (line[header_value_end - 1] as char).is_optional_white_space()
+        {
+            header_value_end -= 1;
+        }
+        for j in header_value_start..header_value_end {
             let c = line[j] as char;
             if !c.is_valid_field_content() {
                 debug!(
-- 
2.43.0


From c149a3cc9d71b230c1de26e2dde2d557c0a33e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 05/36] fix: header names were matched case sensitively, so a
 CONTENT-LENGTH was ignored

---
 wruster/src/http/headers.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 9033f3c..8151f70 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -107,6 +107,9 @@ impl Headers {
     pub fn add(&mut self, header: Header) {
         let name = header.name;
         let content = header.value;
+        // Header names are case insensitive.
+        let current = self.headers.keys().find(|k| k.eq_ignore_ascii_case(&name));
+        let name = current.cloned().unwrap_or(name);
         let values = self.headers.entry(name).or_default();
         values.push(content);
     }
@@ -135,7 +138,10 @@ impl Headers {
     ```
     */
     pub fn get(&self, name: &str) -> Option<&Vec<String>> {
-        self.headers.get(name)
+        self.headers
+            .iter()
+            .find(|(k, _)| k.eq_ignore_ascii_case(name))
+            .map(|(_, values)| values)
     }
 
     /**
-- 
2.43.0


From 1dc8bc377095e3d20651e58a75026c661386853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 06/36] fix: requests with an invalid framing header were
 dropped without a 400 response, and a signed length was accepted

---
 wruster/src/http/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index a08d922..619b50f 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -414,11 +414,11 @@ impl Body {
             // Transfer-Encoding entity is not supported.
             if encoding.len() != 1 {
                 let msg = "invalid Transfer-Encoding header".to_string();
-                return Err(Unknown(msg));
+                return Err(InvalidRequest(msg));
             }
             if encoding[0] != "identity" {
                 let msg = format!("Transfer-Encoding: {} is not supported", encoding[0]);
-                return Err(Unknown(msg));
+                return Err(InvalidRequest(msg));
             }
         };
 
@@ -427,16 +427,21 @@ impl Body {
             Some(lengths) => {
                 if lengths.len() != 1 {
                     let msg = String::from("invalid Content-Length header");
-                    return Err(Unknown(msg));
+                    return Err(InvalidRequest(msg));
                 }
                 &lengths[0]
             }
         };
 
+        // Content-Length = 1*DIGIT, a sign is not allowed.
+        if !len.bytes().all(|c| c.is_ascii_digit()) {
+            let msg = format!("invalid Content-Length header, {}", len);
+            return Err(InvalidRequest(msg));
+        }
         let len = match usize::from_str(len) {
             Err(err) => {
                 let msg = format!("invalid Content-Length header, {}", err);
-                return Err(Unknown(msg));
+                return Err(InvalidRequest(msg));
             }
             Ok(size) => size,
         };
@@ -448,13 +453,13 @@ impl Body {
             Some(types) => {
                 if types.is_empty() {
                     let msg = format!("invalid Content-Type header, {:?}", types);
-                    return Err(Unknown(msg));
+                    return Err(InvalidRequest(msg));
                 };
                 let mtype: mime::Mime = match types[0].parse() {
                     Ok(t) => t,
                     Err(err) => {
                         let msg = format!("invalid Content-Type header, {:?}, {}", types, err);
-                        return Err(Unknown(msg));
+                        return Err(InvalidRequest(msg));
                     }
                 };
                 Some(mtype)
-- 
2.43.0


From aa6e2d0048f7befbe5745ab2c538e17671996eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 07/36] fix: a request line without version swallowed the next
 line as part of the uri

---
 wruster/src/http/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 619b50f..09df8a0 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -266,6 +266,11 @@ impl HttpRequestLine {
             return Err(InvalidRequest("invalid request line".to_string()));
         };
 
+        // The request line must contain the three elements.
+        if uri.contains(&b'\n') {
+            return Err(InvalidRequest("invalid request line".to_string()));
+        }
+
         let uri = String::from_utf8_lossy(&uri[..uri.len() - 1]);
 
         let mut version = Vec::new();
-- 
2.43.0


From fc8f7a2b8921a4e937c62ab6b7a160e504477f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 08/36] fix: a short write lost the rest of the request or
 status line

---
 wruster/src/http/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 09df8a0..b95ff65 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -296,7 +296,7 @@ impl HttpRequestLine {
         // Request-Line   = Method SP Request-URI SP HTTP-Version CRLF
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec5.html
         let line = format!("{:#} {} {}\r\n", self.method, self.uri, self.version);
-        to.write(line.as_bytes()).map_err(HttpError::from)?;
+        to.write_all(line.as_bytes()).map_err(HttpError::from)?;
         Ok(())
     }
 }
@@ -836,7 +836,7 @@ impl HttpResponseLine {
         // https://datatracker.ietf.org/doc/html/rfc7230#section-3.1.2
         // let payload = format!("HTTP/1.1 {:#}\r\n", self.status);
         let payload = format!("{} {}\r\n", self.http_version, self.status_code);
-        if let Err(err) = to.write(payload.as_bytes()) {
+        if let Err(err) = to.write_all(payload.as_bytes()) {
             return Err(HttpError::Unknown(err.to_string()));
         };
         Ok(())
-- 
2.43.0


From d71d96a73a3e0a532f9545f5bd5e3bf199b0ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 09/36] fix: writing a body ignored its announced length and
 the errors writing the end of a large one

---
 wruster/src/http/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index b95ff65..8e8a7b6 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -373,7 +373,7 @@ impl Body {
     to the ``to`` paramerer.
     */
     pub fn write<T: io::Write>(&mut self, to: &mut T) -> HttpResult<()> {
-        let src = &mut self.content;
+        let src = &mut self.content.by_ref().take(self.content_length);
 
         // When the content to write is large (>2MB's) the io::copy function
         // uses buffers that are too short, to avoid that we use this technique:
@@ -383,12 +383,15 @@ impl Body {
             x if x > u64::pow(2, 20) * 2 => {
                 let buff_size = usize::pow(2, 20);
                 let mut dest = BufWriter::with_capacity(buff_size, to);
-                io::copy(src, &mut dest)
+                io::copy(src, &mut dest).and_then(|n| dest.flush().map(|_| n))
             }
             _ => io::copy(src, to),
         };
         match res {
             Err(err) => Err(HttpError::Unknown(err.to_string())),
+            Ok(n) if n < self.content_length => Err(HttpError::Unknown(
+                "the body is shorter than its length".to_string(),
+            )),
             Ok(_) => Ok(()),
         }
     }
-- 
2.43.0


From f50294b6c4290fac9659738e5641ea1848e19265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 10/36] fix: responses with a body and no Content-Length were
 not framed, and an explicit zero length was repeated

---
 wruster/src/http/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 8e8a7b6..410c68b 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -134,7 +134,7 @@ impl Request {
         };
 
         start_line.write(to)?;
-        if self.body.is_none() {
+        if self.body.is_none() && self.headers.get("Content-Length").is_none() {
             self.headers.add(Header {
                 name: String::from("Content-Length"),
                 value: String::from("0"),
@@ -631,10 +631,11 @@ impl Response {
             reason_phrase: self.status.clone().into(),
         };
         start_line.write(to)?;
-        if self.body.is_none() {
+        if self.headers.get("Content-Length").is_none() {
+            let length = self.body.as_ref().map_or(0, |body| body.content_length);
             self.headers.add(Header {
                 name: String::from("Content-Length"),
-                value: String::from("0"),
+                value: length.to_string(),
             })
         }
         self.headers.write(to)?;
-- 
2.43.0


From 4fa22de63f824b6843e7ccfe372a43273a1c3307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 11/36] fix: a body cut short by the peer looked complete

---
 wruster/src/http/mod.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 410c68b..4c2ef2f 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -473,8 +473,7 @@ impl Body {
                 Some(mtype)
             }
         };
-        let c = from.take(len as u64);
-        let content = Box::new(c);
+        let content = Box::new(ExactReader(from.take(len as u64)));
         let body = Body {
             content,
             content_type,
@@ -488,7 +487,7 @@ impl Body {
     Ensures the content length specified in the body is read from the underlying reader.
     */
     pub fn ensure_read(&mut self) -> Result<(), HttpError> {
-        if self.bytes_read == self.content_length {
+        if self.bytes_read >= self.content_length {
             return Ok(());
         }
         let n = self.content_length - self.bytes_read;
@@ -513,6 +512,21 @@ impl Body {
     }
 }
 
+/// Reads all the bytes up to the limit of the inner reader, and fails if it
+/// ends before.
+struct ExactReader<T: Read>(io::Take<T>);
+
+impl<T: Read> Read for ExactReader<T> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        match self.0.read(buf)? {
+            0 if !buf.is_empty() && self.0.limit() > 0 => {
+                Err(io::Error::from(io::ErrorKind::UnexpectedEof))
+            }
+            n => Ok(n),
+        }
+    }
+}
+
 impl Read for Body {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         match self.content.read(buf) {
-- 
2.43.0


From 664a39c1f2e54cd0522d3cc10158f6ddf1478ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 12/36] fix: only a single option in the first Connection
 header was considered

---
 wruster/src/http/headers.rs | 12 ++++++++++++
 wruster/src/http/mod.rs     |  8 ++------
 wruster/src/lib.rs          |  8 ++------
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/wruster/src/http/headers.rs b/wruster/src/http/headers.rs
index 8151f70..dfe6a72 100644
--- a/wruster/src/http/headers.rs
+++ b/wruster/src/http/headers.rs
@@ -144,6 +144,18 @@ impl Headers {
             .map(|(_, values)| values)
     }
 
+    /// Returns true if any of the values of the ``Connection`` header lists the
+    /// given option.
+    pub(crate) fn has_connection_option(&self, option: &str) -> bool {
+        match self.get("Connection") {
+            None => false,
+            Some(values) => values
+                .iter()
+                .flat_map(|value| value.split(','))
+                .any(|value| value.trim().eq_ignore_ascii_case(option)),
+        }
+    }
+
     /**
     Writes the headers to a type implementing [``io::Write``]
     according to the spec: <https://datatracker.ietf.org/doc/html/rfc7230>.
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 4c2ef2f..47639df 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -188,11 +188,7 @@ impl Request {
 
     */
     pub fn is_connection_persistent(&self) -> bool {
-        let value = match self.headers.get("Connection") {
-            None => "".to_string(),
-            Some(values) => values[0].to_lowercase(),
-        };
-        if value == "close" {
+        if self.headers.has_connection_option("close") {
             return false;
         }
 
@@ -200,7 +196,7 @@ impl Request {
             return true;
         };
 
-        if self.version == "HTTP/1.0" && value == "keep-alive" {
+        if self.version == "HTTP/1.0" && self.headers.has_connection_option("keep-alive") {
             return true;
         };
         false
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 4525e7e..3e0727f 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -675,11 +675,7 @@ fn run_action(request: &mut Request, routes: Arc<Router>) -> Response {
 Evaluates if a request requires a connection to be [persistent](https://httpwg.org/specs/rfc7230.html#rfc.section.6.3).
 */
 fn is_connection_persistent(request: &http::Request) -> bool {
-    let value = match request.headers.get("Connection") {
-        None => "".to_string(),
-        Some(values) => values[0].to_lowercase(),
-    };
-    if value == "close" {
+    if request.headers.has_connection_option("close") {
         return false;
     }
 
@@ -687,7 +683,7 @@ fn is_connection_persistent(request: &http::Request) -> bool {
         return true;
     };
 
-    if request.version == "HTTP/1.0" && value == "keep-alive" {
+    if request.version == "HTTP/1.0" && request.headers.has_connection_option("keep-alive") {
         return true;
     };
     false
-- 
2.43.0


From ee7dc10d276b060051de92d254bbb372a4fa81ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 13/36] fix: the read and write time limits ignored the waits
 and the limits shorter than a second

---
 wruster/src/streams/timeout_stream.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/wruster/src/streams/timeout_stream.rs b/wruster/src/streams/timeout_stream.rs
index 115b2b0..ea44152 100644
--- a/wruster/src/streams/timeout_stream.rs
+++ b/wruster/src/streams/timeout_stream.rs
@@ -113,7 +113,7 @@ where
             Some(operation) => operation,
         };
         let next_timeout = read.next_timeout();
-        if next_timeout.as_secs() == 0 {
+        if next_timeout.is_zero() {
             return Err(io::Error::from(io::ErrorKind::TimedOut));
         }
         let stream = &self.stream;
@@ -157,7 +157,7 @@ where
             Some(operation) => operation,
         };
         let next_timeout = write.next_timeout();
-        if next_timeout.as_secs() == 0 {
+        if next_timeout.is_zero() {
             return Err(io::Error::from(io::ErrorKind::TimedOut));
         }
         if let Err(err) = stream.set_write_timeout(Some(next_timeout)) {
@@ -185,7 +185,7 @@ where
 struct Operation {
     timeout: Duration,
     started: Option<Instant>,
-    elapsed_secs: u64,
+    elapsed: Duration,
 }
 
 impl Operation {
@@ -193,17 +193,12 @@ impl Operation {
         Operation {
             timeout,
             started: None,
-            elapsed_secs: 0,
+            elapsed: Duration::ZERO,
         }
     }
 
     fn next_timeout(&mut self) -> Duration {
-        if self.elapsed_secs >= self.timeout.as_secs() {
-            Duration::from_secs(0)
-        } else {
-            let remaining = self.timeout.as_secs() - self.elapsed_secs;
-            Duration::from_secs(remaining)
-        }
+        self.timeout.saturating_sub(self.elapsed)
     }
 
     fn start(&mut self) {
@@ -212,8 +207,7 @@ impl Operation {
 
     fn stop(&mut self) {
         if let Some(started) = self.started {
-            let elapsed = started.elapsed().as_secs();
-            self.elapsed_secs += elapsed;
+            self.elapsed += started.elapsed();
         } else {
             println!("operation not initialized stopped");
         }
-- 
2.43.0


From d7c8242779414eb4e2f6b1e251aeeeaf8cca8dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 14/36] fix: a write in several parts restarted its time limit
 with each part, and repeated the first parts after an interruption

---
 wruster/src/streams/cancellable_stream.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 52d1b52..e4cb2b3 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -5,7 +5,7 @@ use std::{
         atomic::{self, AtomicBool, Ordering},
         Arc, RwLock,
     },
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 use polling::Event;
@@ -119,13 +119,21 @@ where
     fn write_int(&self, buf: &[u8]) -> io::Result<usize> {
         let mut events = Vec::new();
         let timeout = &self.write_timeout.write().unwrap().clone();
+        let started = Instant::now();
         let mut bytes_written = 0;
         let buf_len = buf.len();
         while bytes_written < buf_len {
             events.clear();
             self.poller
                 .modify(self.stream.as_raw(), Event::writable(1))?;
-            if self.poller.wait(&mut events, *timeout)? == 0 {
+            let remaining = timeout.map(|timeout| timeout.saturating_sub(started.elapsed()));
+            let ready = match self.poller.wait(&mut events, remaining) {
+                // Part of the data could be already written, so the caller
+                // must not retry.
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                result => result?,
+            };
+            if ready == 0 {
                 let stop = self.done.load(atomic::Ordering::SeqCst);
                 if stop {
                     return Err(io::Error::from(io::ErrorKind::NotConnected));
@@ -147,7 +155,10 @@ where
                     Ok(n) => {
                         bytes_written += n;
                     }
-                    Err(err) if err.kind() == io::ErrorKind::WouldBlock => {
+                    Err(err)
+                        if err.kind() == io::ErrorKind::WouldBlock
+                            || err.kind() == io::ErrorKind::Interrupted =>
+                    {
                         break;
                     }
                     Err(err) => {
-- 
2.43.0


From 72e1ae8c84bbebafdf0431db95408084be89ff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 15/36] fix: a panicking action ended its worker and the pool
 or the server with it

---
 wruster/src/thread_pool/dynamic_pool.rs |  6 +++---
 wruster/src/thread_pool/mod.rs          | 13 ++++++++++++-
 wruster/src/thread_pool/static_pool.rs  |  4 ++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/wruster/src/thread_pool/dynamic_pool.rs b/wruster/src/thread_pool/dynamic_pool.rs
index 76b7437..3144a13 100644
--- a/wruster/src/thread_pool/dynamic_pool.rs
+++ b/wruster/src/thread_pool/dynamic_pool.rs
@@ -7,7 +7,7 @@ use std::time::Duration;
 
 use atomic_refcell::AtomicRefCell;
 
-use super::{Action, PoolError};
+use super::{run_action, Action, PoolError};
 
 type DynamicWorkerFinished = Box<dyn FnOnce() + Send>;
 
@@ -31,12 +31,12 @@ impl DynamicWorker {
             // When the worker is created it will execute, at least, one action
             // so we don't want to timeout waiting for it.
             t_initialized.store(true, Ordering::SeqCst);
-            first_action();
+            run_action(first_action);
             loop {
                 let res = receiver.recv_timeout(timeout);
                 match res {
                     Ok(action) => {
-                        action();
+                        run_action(action);
                         debug!("action executed");
                         continue;
                     }
diff --git a/wruster/src/thread_pool/mod.rs b/wruster/src/thread_pool/mod.rs
index 7193301..7f8f8ee 100644
--- a/wruster/src/thread_pool/mod.rs
+++ b/wruster/src/thread_pool/mod.rs
@@ -1,4 +1,8 @@
-use std::{fmt::Debug, time::Duration};
+use std::{
+    fmt::Debug,
+    panic::{self, AssertUnwindSafe},
+    time::Duration,
+};
 
 mod dynamic_pool;
 mod static_pool;
@@ -7,6 +11,13 @@ use self::{dynamic_pool::Dynamic, static_pool::Static};
 
 type Action = Box<dyn FnOnce() + Send + 'static>;
 
+/// Runs an action so that, if it panics, the worker running it keeps working.
+fn run_action(action: Action) {
+    if panic::catch_unwind(AssertUnwindSafe(action)).is_err() {
+        error!("an action panicked");
+    }
+}
+
 const DEFAULT_TIMEOUT: Duration = Duration::from_secs(10);
 
 pub struct PoolError {
diff --git a/wruster/src/thread_pool/static_pool.rs b/wruster/src/thread_pool/static_pool.rs
index a419048..67be096 100644
--- a/wruster/src/thread_pool/static_pool.rs
+++ b/wruster/src/thread_pool/static_pool.rs
@@ -3,7 +3,7 @@ use std::sync::mpsc::{sync_channel, SyncSender, TrySendError};
 use std::sync::Arc;
 use std::thread;
 
-use super::{Action, PoolError};
+use super::{run_action, Action, PoolError};
 
 struct Worker {
     id: usize,
@@ -20,7 +20,7 @@ impl Worker {
             t_initialized.store(true, Ordering::SeqCst);
             let res = receiver.recv();
             if let Ok(action) = res {
-                action();
+                run_action(action);
                 debug!("action executed");
                 continue;
             }
-- 
2.43.0


From efd899a1a783bedc2c44778dacff70d53080aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 16/36] fix: a connection that could not be accepted, or an
 interruption, ended the server

---
 wruster/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 3e0727f..6701182 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -99,6 +99,9 @@ pub const DEFAULT_READ_REQUEST_TIMEOUT: time::Duration = time::Duration::from_se
 /// Defines the default max time for a response to be written
 pub const DEFAULT_WRITE_RESPONSE_TIMEOUT: time::Duration = time::Duration::from_secs(60);
 
+/// Time to wait after failing to accept a connection.
+const ACCEPT_RETRY_DELAY: time::Duration = time::Duration::from_millis(10);
+
 /// Defines the result type returned from the [``Server``] methods.
 pub type ServerResult = Result<(), Box<dyn StdError>>;
 
@@ -370,16 +373,24 @@ impl Server {
         loop {
             debug!("tracked streams {}", active_streams.len());
             events.clear();
-            epoller.wait(&mut events, None)?;
+            if let Err(err) = epoller.wait(&mut events, None) {
+                if err.kind() != ErrorKind::Interrupted {
+                    return Err(Box::new(err));
+                }
+            }
             for evt in &events {
                 if evt.key != 1 {
                     continue;
                 }
+                epoller.modify(&listener, Event::readable(1)).unwrap();
                 let (stream, src_addr) = match listener.accept() {
-                    Err(err) => return Err(Box::new(err)),
+                    Err(err) => {
+                        error!("error accepting a connection: {}", err);
+                        thread::sleep(ACCEPT_RETRY_DELAY);
+                        continue;
+                    }
                     Ok(connection) => connection,
                 };
-                epoller.modify(&listener, Event::readable(1)).unwrap();
                 info!("accepting connection from {}", src_addr);
                 let cconfig = Arc::clone(&routes);
                 let action_timeouts = timeouts.clone();
-- 
2.43.0


From dc69bbf4444862dc1d70188288e3e9f196540bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 17/36] fix: shutting down the server cut the ongoing responses

---
 wruster/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 6701182..bd4d0d4 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -419,7 +419,8 @@ impl Server {
                 for p in pending {
                     match p.upgrade() {
                         Some(p) => {
-                            match p.shutdown(net::Shutdown::Both) {
+                            // The response being written, if any, must be completed.
+                            match p.shutdown(net::Shutdown::Read) {
                                 Ok(()) => debug!("pending active connection closed"),
                                 Err(err) => {
                                     error!("error closing a pending active connection {}", err)
-- 
2.43.0


From de82f0966fd13dc2d0e04700dd6b0e982ed6ed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 18/36] fix: failing to start a TLS session ended the server

---
 wruster/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index bd4d0d4..f1a096a 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -286,7 +286,7 @@ impl Server {
         cert: Certificate,
     ) -> ServerResult {
         self.start(addr, routes, move |stream: TcpStream| {
-            let stream = tls::Stream::new(stream, key.clone(), cert.clone()).unwrap();
+            let stream = tls::Stream::new(stream, key.clone(), cert.clone())?;
             CancellableStream::new(stream)
         })
     }
-- 
2.43.0


From 47eaca74205be98a551a3aecd2e442b40b62a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 19/36] fix: a route matched the paths that only start with the
 same characters

---
 wruster/src/router/trie.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/wruster/src/router/trie.rs b/wruster/src/router/trie.rs
index 22ac6fb..5c48c4f 100644
--- a/wruster/src/router/trie.rs
+++ b/wruster/src/router/trie.rs
@@ -50,7 +50,7 @@ impl<T> Trie<T> {
             None => return None,
             Some(node) => node,
         };
-        child.get_value_prefix(&key[1..], None)
+        child.get_value_prefix(key[0], &key[1..], None)
     }
 }
 
@@ -109,29 +109,39 @@ impl<T> Node<T> {
         child.get_value(&key[1..])
     }
 
-    fn get_value_prefix<'a>(&'a self, key: &[u8], prefix_value: Option<&'a T>) -> Option<&T> {
+    fn get_value_prefix<'a>(
+        &'a self,
+        last: u8,
+        key: &[u8],
+        prefix_value: Option<&'a T>,
+    ) -> Option<&'a T> {
         if key.is_empty() {
             if self.value.is_none() {
                 return prefix_value;
             }
             return self.value.as_ref();
         }
+        // A value only applies to a longer key if it stands for whole segments.
+        let value = match (last, key[0]) {
+            (b'/', _) | (_, b'/' | b'?') => self.value.as_ref(),
+            _ => None,
+        };
         let pos = key[0] as usize;
         let children = &self.children;
         let child = match &children[pos] {
             None => {
-                if self.value.is_some() {
-                    return self.value.as_ref();
+                if value.is_some() {
+                    return value;
                 }
                 return prefix_value;
             }
             Some(node) => node,
         };
-        let next_parent = match &self.value {
+        let next_parent = match value {
             None => prefix_value,
             Some(value) => Some(value),
         };
-        child.get_value_prefix(&key[1..], next_parent)
+        child.get_value_prefix(key[0], &key[1..], next_parent)
     }
 
     pub fn move_value_out(&mut self, key: &[u8]) -> Option<T> {
-- 
2.43.0


From 4d4033328eefd7ea48ef7b3ca7de44394b756afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 20/36] fix: a route without a handler for the method hid the
 handlers of its parents

---
 wruster/src/router/mod.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/wruster/src/router/mod.rs b/wruster/src/router/mod.rs
index f60ec9d..1961544 100644
--- a/wruster/src/router/mod.rs
+++ b/wruster/src/router/mod.rs
@@ -69,11 +69,21 @@ impl Router {
 
     pub(crate) fn get_prefix(&self, route: String, method: HttpMethod) -> Option<Arc<HttpHandler>> {
         let routes = self.routes.borrow();
-        let method_actions = match routes.get_value_prefix(route.as_bytes()) {
-            None => return None,
-            Some(actions) => actions,
-        };
-        method_actions.get_action(method)
+        let mut route = route.as_str();
+        loop {
+            let method_actions = match routes.get_value_prefix(route.as_bytes()) {
+                None => return None,
+                Some(actions) => actions,
+            };
+            if let Some(action) = method_actions.get_action(method) {
+                return Some(action);
+            }
+            // Try with the parent path.
+            route = match route.strip_suffix('/') {
+                Some(parent) => parent,
+                None => &route[..route.rfind('/').map_or(0, |pos| pos + 1)],
+            };
+        }
     }
 }
 
-- 
2.43.0


From bddba3712be1ab5c545f473e4440d2b0e08c89a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 21/36] fix: serve_static followed targets leading out of its
 directory

---
 wruster_handlers/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index b87f6f3..8626437 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -4,7 +4,10 @@ new handlers in a wruster web server.
 */
 use std::fs;
 use std::io::Read;
-use std::{io, path::PathBuf};
+use std::{
+    io,
+    path::{Component, Path, PathBuf},
+};
 
 #[macro_use]
 extern crate log;
@@ -44,6 +47,13 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
         }
         uri = &uri[1..]
     }
+    // Only descendants of the directory can be served.
+    let is_descendant = Path::new(uri)
+        .components()
+        .all(|part| matches!(part, Component::Normal(_) | Component::CurDir));
+    if !is_descendant {
+        return Response::from_status(StatusCode::NotFound);
+    }
     let mut path = base_path;
     path.push(uri);
 
-- 
2.43.0


From c1f2078236d5c0eb6298711e166c78219c9529e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 22/36] fix: serve_static answered a directory as if it were a
 file

---
 wruster_handlers/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index 8626437..facd01e 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -67,6 +67,10 @@ pub fn serve_static(dir: &str, request: &Request) -> Response {
         }
     };
 
+    if metadata.is_dir() {
+        return Response::from_status(StatusCode::NotFound);
+    }
+
     let content = match fs::File::open(&path) {
         Ok(content) => content,
         Err(err) => {
-- 
2.43.0


From a590c37459a5c7e77a55409afacdd6455d037672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 23/36] fix: serve_static panicked when its directory was not
 accessible

---
 wruster_handlers/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wruster_handlers/src/lib.rs b/wruster_handlers/src/lib.rs
index facd01e..e84b3b4 100644
--- a/wruster_handlers/src/lib.rs
+++ b/wruster_handlers/src/lib.rs
@@ -39,7 +39,13 @@ server.wait().unwrap();
 ```
 */
 pub fn serve_static(dir: &str, request: &Request) -> Response {
-    let base_path: PathBuf = PathBuf::from(dir).canonicalize().unwrap();
+    let base_path: PathBuf = match PathBuf::from(dir).canonicalize() {
+        Ok(path) => path,
+        Err(err) => {
+            error!("error accessing the directory {}: {}", dir, err);
+            return Response::from_status(StatusCode::InternalServerError);
+        }
+    };
     let mut uri = request.uri.as_str();
     if uri.starts_with('/') {
         if uri.len() < 2 {
-- 
2.43.0


From f931cdf3fae5ace49d351224c5f3908dd121cea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 24/36] fix: a full pool of client connections discarded the
 connection being returned

---
 wruster/src/http/client/connection_pool.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/wruster/src/http/client/connection_pool.rs b/wruster/src/http/client/connection_pool.rs
index b66be95..ec087b5 100644
--- a/wruster/src/http/client/connection_pool.rs
+++ b/wruster/src/http/client/connection_pool.rs
@@ -114,12 +114,10 @@ where
     pub fn insert(&self, key: &str, connection: PoolResource<T>) {
         let mut connections = self.resources.write().unwrap();
         let connections = connections.borrow_mut();
-        match connections.len() {
-            MAX_RESOURCES => Self::remove_lru(connections),
-            _ => {
-                connections.insert(key.to_string(), connection);
-            }
+        if connections.len() >= MAX_RESOURCES && !connections.contains_key(key) {
+            Self::remove_lru(connections);
         }
+        connections.insert(key.to_string(), connection);
     }
 
     /**
-- 
2.43.0


From 7c45f91cc9429c6c3493ddffd5152c6d990cd6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 25/36] fix: the client reused connections with part of a
 response still to be read

---
 wruster/src/http/client/mod.rs | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 4557cf1..147edd8 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -55,12 +55,13 @@ impl Drop for ClientResponse {
     fn drop(&mut self) {
         if let Some(pool) = self.pool.upgrade() {
             if let Some(body) = self.response.body.as_mut() {
-                body.ensure_read().consume_error(|err| {
+                if let Err(err) = body.ensure_read() {
                     error!(
                         "error ensuring body in request has completely read: {}",
                         err
                     );
-                });
+                    return;
+                }
             }
 
             let pool = match pool.lock() {
@@ -156,20 +157,3 @@ impl Drop for Client {
         }
     }
 }
-
-trait ConsumeIfError<F, E> {
-    fn consume_error(self, consumer: F)
-    where
-        F: FnOnce(E);
-}
-
-impl<T, E, F> ConsumeIfError<F, E> for Result<T, E> {
-    fn consume_error(self, consumer: F)
-    where
-        F: FnOnce(E),
-    {
-        if let Err(err) = self {
-            consumer(err)
-        }
-    }
-}
-- 
2.43.0


From 6d154f981f9c98c693851466071794c0a5c6a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 26/36] fix: the client reused connections that were going to
 be closed or had no end of response

---
 wruster/src/http/client/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 147edd8..182196c 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -96,8 +96,9 @@ impl<'a> Client {
     }
 
     pub fn run(&'a self, addr: &str, request: Request) -> Result<ClientResponse, HttpError> {
+        let persistent = request.is_connection_persistent();
         let conn = {
-            match request.is_connection_persistent() {
+            match persistent {
                 true => {
                     let pool = self.connection_pool.lock().map_err(HttpError::from)?;
                     match pool.get(addr) {
@@ -123,11 +124,19 @@ impl<'a> Client {
         };
         // TODO: when the response does not have body we can just return back
         // the connection to the pool here.
-        let response_pool = Arc::clone(&self.connection_pool);
+        // The connection can only be reused if none of the sides closes it and
+        // the response has a known end.
+        let reusable = persistent
+            && !response.headers.has_connection_option("close")
+            && response.headers.get("Content-Length").is_some();
+        let pool = match reusable {
+            true => Arc::downgrade(&self.connection_pool),
+            false => Weak::new(),
+        };
         let response = ClientResponse {
             response,
             conn: response_conn,
-            pool: Arc::downgrade(&response_pool),
+            pool,
             addr: addr.to_string(),
         };
         Ok(response)
-- 
2.43.0


From 9d5a1a49771f95157ea49231bebc4d4f93c0d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:17 +0000
Subject: [PATCH 27/36] fix: routes registered with an ending separator can be
 reached by their own path

---
 wruster/src/router/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/wruster/src/router/mod.rs b/wruster/src/router/mod.rs
index 1961544..c38119c 100644
--- a/wruster/src/router/mod.rs
+++ b/wruster/src/router/mod.rs
@@ -48,6 +48,7 @@ impl Router {
     pub fn add(&self, route: &str, method: HttpMethod, action: HttpHandler) {
         // We prioritize keeping the code of the Trie simpler over adding the
         // routes faster.
+        let route = without_ending_separator(route);
         let mut routes = self.routes.borrow_mut();
         let router_handlers = match routes.move_value_out(route.as_bytes()) {
             None => MethodHandlers::new(),
@@ -59,6 +60,7 @@ impl Router {
 
     #[allow(dead_code)]
     fn get(&self, route: &str, method: HttpMethod) -> Option<Arc<HttpHandler>> {
+        let route = without_ending_separator(route);
         let routes = self.routes.borrow();
         let method_actions = match routes.get_value(route.as_bytes()) {
             None => return None,
@@ -87,6 +89,14 @@ impl Router {
     }
 }
 
+/// The paths of the requests are normalized, so they never end in a separator.
+fn without_ending_separator(route: &str) -> &str {
+    match route.trim_end_matches('/') {
+        "" => route,
+        trimmed => trimmed,
+    }
+}
+
 impl Default for Router {
     fn default() -> Self {
         Router::new()
-- 
2.43.0


From 9266676b83daf71d2443e196bad8c33a9cb3a3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:32 +0000
Subject: [PATCH 28/36] fix: a request line without its spaces is answered at
 its end, not after the read timeout

---
 wruster/src/http/mod.rs | 50 ++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index 47639df..aed39d2 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -238,48 +238,32 @@ impl HttpRequestLine {
         // Request-Line   = Method SP Request-URI SP HTTP-Version CRLF
         // https://www.w3.org/Protocols/rfc2616/rfc2616-sec5.html
 
-        let mut method = Vec::new();
-        from.read_until(b' ', &mut method)
+        let mut line = Vec::new();
+        from.read_until(b'\n', &mut line)
             .map_err(HttpError::from)?;
-        if method.is_empty() {
+        if line.is_empty() {
             return Err(ConnectionClosed);
         }
-        if method.len() < 2 {
-            let msg = format!("invalid request line {:?}", method);
-            return Err(InvalidRequest(msg));
+        let line = match line.strip_suffix(b"\r\n") {
+            None => return Err(InvalidRequest("invalid request line".to_string())),
+            Some(line) => line,
         };
-        let method = String::from_utf8_lossy(&method[..method.len() - 1]);
-        let method = match HttpMethod::from_str(&method) {
+
+        // The request line must contain the three elements.
+        let mut elements = line.splitn(3, |c| *c == b' ');
+        let (method, uri, version) = match (elements.next(), elements.next(), elements.next()) {
+            (Some(method), Some(uri), Some(version)) => (method, uri, version),
+            _ => return Err(InvalidRequest("invalid request line".to_string())),
+        };
+        let method = match HttpMethod::from_str(&String::from_utf8_lossy(method)) {
             Err(err) => return Err(InvalidRequest(err)),
             Ok(method) => method,
         };
-
-        let mut uri = Vec::new();
-        if let Err(err) = from.read_until(b' ', &mut uri) {
-            return Err(Unknown(err.to_string()));
-        };
-        if uri.len() < 2 {
+        if uri.is_empty() || version.is_empty() {
             return Err(InvalidRequest("invalid request line".to_string()));
         };
-
-        // The request line must contain the three elements.
-        if uri.contains(&b'\n') {
-            return Err(InvalidRequest("invalid request line".to_string()));
-        }
-
-        let uri = String::from_utf8_lossy(&uri[..uri.len() - 1]);
-
-        let mut version = Vec::new();
-        from.read_until(b'\n', &mut version)
-            .map_err(HttpError::from)?;
-        if version.len() < 3 {
-            return Err(InvalidRequest("invalid request line".to_string()));
-        };
-
-        if version[version.len() - 2] != (b'\r') {
-            return Err(InvalidRequest("invalid request line".to_string()));
-        }
-        let version = String::from_utf8_lossy(&version[..version.len() - 2]);
+        let uri = String::from_utf8_lossy(uri);
+        let version = String::from_utf8_lossy(version);
 
         Ok(HttpRequestLine {
             method,
-- 
2.43.0


From d2111856f31aa50bb35bbb82030ada0af139fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 29/36] fix: a body taken out of its message unread no longer
 leaves its rest in the connection

---
 wruster/src/http/client/mod.rs | 10 ++++++-
 wruster/src/http/mod.rs        | 50 ++++++++++++++++++++++++++++++++++
 wruster/src/lib.rs             | 11 ++++++++
 3 files changed, 70 insertions(+), 1 deletion(-)

diff --git a/wruster/src/http/client/mod.rs b/wruster/src/http/client/mod.rs
index 182196c..2a4f34c 100644
--- a/wruster/src/http/client/mod.rs
+++ b/wruster/src/http/client/mod.rs
@@ -35,6 +35,7 @@ pub struct ClientResponse {
     conn: TcpStream,
     pool: Weak<Mutex<Pool<Arc<TcpStream>>>>,
     addr: String,
+    content: Option<SharedContent>,
 }
 
 impl Deref for ClientResponse {
@@ -63,6 +64,11 @@ impl Drop for ClientResponse {
                     return;
                 }
             }
+            // Part of the body may still be unread if it was taken out of the
+            // response.
+            if matches!(&self.content, Some(content) if content.unread() > 0) {
+                return;
+            }
 
             let pool = match pool.lock() {
                 Ok(pool) => pool,
@@ -118,7 +124,7 @@ impl<'a> Client {
         request.write(&mut stream)?;
         stream.flush().map_err(HttpError::from)?;
         let stream = Box::new(stream);
-        let response = match Response::read_from(stream) {
+        let mut response = match Response::read_from(stream) {
             Ok(response) => response,
             Err(err) => return Err(err),
         };
@@ -133,11 +139,13 @@ impl<'a> Client {
             true => Arc::downgrade(&self.connection_pool),
             false => Weak::new(),
         };
+        let content = response.body.as_mut().map(Body::share);
         let response = ClientResponse {
             response,
             conn: response_conn,
             pool,
             addr: addr.to_string(),
+            content,
         };
         Ok(response)
     }
diff --git a/wruster/src/http/mod.rs b/wruster/src/http/mod.rs
index aed39d2..3dec1bb 100644
--- a/wruster/src/http/mod.rs
+++ b/wruster/src/http/mod.rs
@@ -1,8 +1,11 @@
+use std::cell::RefCell;
 use std::convert::Infallible;
 use std::fmt;
 use std::fmt::Debug;
 use std::io::{self, BufReader, BufWriter};
 use std::io::{prelude::*, Cursor};
+use std::mem;
+use std::rc::Rc;
 use std::str::FromStr;
 
 /// Contains the definition of the errors used in the Http module.
@@ -477,6 +480,20 @@ impl Body {
         }
     }
 
+    /**
+    Shares the content of the body, so it can still be reached if the body is
+    taken out of the message it belongs to.
+    */
+    pub(crate) fn share(&mut self) -> SharedContent {
+        let content = mem::replace(&mut self.content, Box::new(io::empty()));
+        let content = SharedContent(Rc::new(RefCell::new(StreamedContent {
+            content,
+            unread: self.content_length,
+        })));
+        self.content = Box::new(content.clone());
+        content
+    }
+
     /**
     Creates a Body from value of a type implementing the trait [`IntoBody`]
 
@@ -492,6 +509,39 @@ impl Body {
     }
 }
 
+/// The content of a body that is being read from a stream.
+struct StreamedContent {
+    content: Box<dyn Read>,
+    unread: u64,
+}
+
+/// A reader of the content of a body that keeps working, and counting, when
+/// the body is taken out of the message it belongs to.
+#[derive(Clone)]
+pub(crate) struct SharedContent(Rc<RefCell<StreamedContent>>);
+
+impl SharedContent {
+    /// Returns the number of bytes of the body that have not been read.
+    pub(crate) fn unread(&self) -> u64 {
+        self.0.borrow().unread
+    }
+
+    /// Discards the bytes of the body that have not been read.
+    pub(crate) fn discard(&mut self) -> io::Result<()> {
+        let unread = self.unread();
+        io::copy(&mut self.take(unread), &mut io::sink()).map(|_| ())
+    }
+}
+
+impl Read for SharedContent {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let mut shared = self.0.borrow_mut();
+        let n = shared.content.read(buf)?;
+        shared.unread = shared.unread.saturating_sub(n as u64);
+        Ok(n)
+    }
+}
+
 /// Reads all the bytes up to the limit of the inner reader, and fails if it
 /// ends before.
 struct ExactReader<T: Read>(io::Take<T>);
diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index f1a096a..39a2fa3 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -611,6 +611,7 @@ where
     T: Stream + 'static,
 {
     let connection_open: bool;
+    let mut content = None;
     let read_timeout = Some(timeouts.read_request_timeout);
     let write_timeout = Some(timeouts.write_response_timeout);
 
@@ -620,6 +621,7 @@ where
     let (request, mut response) = match Request::read_from(timeout_stream) {
         Ok(mut request) => {
             connection_open = is_connection_persistent(&request);
+            content = request.body.as_mut().map(http::Body::share);
             let response = run_action(&mut request, routes);
             (Some(request), response)
         }
@@ -657,6 +659,15 @@ where
         );
         return false;
     };
+
+    // The action could have taken the body out of the request without reading
+    // all of it.
+    if let Some(mut content) = content {
+        if let Err(err) = content.discard() {
+            error!("error reading request body, error info: {}", err);
+            return false;
+        }
+    }
     connection_open
 }
 
-- 
2.43.0


From 1c5f6f8320da708c7036c6342983d80377da5356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 30/36] fix: the rest of a TLS record bigger than the read
 buffer was never read

---
 wruster/src/streams/cancellable_stream.rs |  6 +++++-
 wruster/src/streams/mod.rs                | 10 ++++++++++
 wruster/src/streams/tls/mod.rs            |  5 +++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index e4cb2b3..39c1837 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -64,7 +64,11 @@ where
         let timeout = &self.read_timeout.write().unwrap().clone();
         let mut bytes_read = 0;
         let buf_len = buf.len();
-        if self.poller.wait(&mut events, *timeout)? == 0 {
+        if self.stream.has_data() {
+            // The rest of what the stream holds does not make the socket
+            // readable.
+            events.push(Event::readable(1));
+        } else if self.poller.wait(&mut events, *timeout)? == 0 {
             let stop = self.done.load(atomic::Ordering::SeqCst);
             if stop {
                 return Err(io::Error::from(io::ErrorKind::NotConnected));
diff --git a/wruster/src/streams/mod.rs b/wruster/src/streams/mod.rs
index 04a281d..a6c1675 100644
--- a/wruster/src/streams/mod.rs
+++ b/wruster/src/streams/mod.rs
@@ -22,6 +22,12 @@ pub trait BaseStream {
     fn write_buf(&self, buf: &[u8]) -> io::Result<usize>;
     fn read_buf(&self, buf: &mut [u8]) -> io::Result<usize>;
     fn flush_data(&self) -> io::Result<()>;
+
+    /// Returns true if the stream holds data, already taken from the socket,
+    /// to serve a read with.
+    fn has_data(&self) -> bool {
+        false
+    }
 }
 
 impl BaseStream for TcpStream {
@@ -93,6 +99,10 @@ impl BaseStream for tls::Stream {
     fn flush_data(&self) -> io::Result<()> {
         self.flush_data()
     }
+
+    fn has_data(&self) -> bool {
+        self.has_data()
+    }
 }
 
 /**
diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index 4077332..9a002ad 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -83,6 +83,11 @@ impl Stream {
         let mut stream = self.stream.lock().unwrap();
         stream.flush()
     }
+
+    pub fn has_data(&self) -> bool {
+        let conn = &self.stream.lock().unwrap().conn;
+        !conn.is_handshaking() && !conn.wants_read()
+    }
 }
 
 impl Read for Stream {
-- 
2.43.0


From 69f4e885c071c07c968ccbfa89d2de126a8cde66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 31/36] fix: the end of a response could stay behind in the TLS
 stream

---
 wruster/src/lib.rs                        | 13 ++++----
 wruster/src/streams/cancellable_stream.rs | 40 ++++++++++++++++++++---
 wruster/src/streams/mod.rs                |  9 +++++
 wruster/src/streams/timeout_stream.rs     | 20 +++++++++++-
 wruster/src/streams/tls/mod.rs            |  5 +++
 5 files changed, 76 insertions(+), 11 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index 39a2fa3..c141204 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -562,6 +562,8 @@ where
     let mut resp = Response::from_status(StatusCode::ServiceUnavailable);
     if let Err(err) = resp.write(&mut timeout_stream) {
         error!("sending too busy to {}: {}", src_addr, err.to_string())
+    } else if let Err(err) = timeout_stream.flush() {
+        error!("error flushing to: {}, {}", src_addr, err);
     }
     let s = &*shutdown_stream;
     if let Err(err) = s.shutdown(net::Shutdown::Both) {
@@ -571,7 +573,7 @@ where
 }
 
 fn handle_conversation<T>(
-    mut stream: ObservedStream<T>,
+    stream: ObservedStream<T>,
     routes: Arc<Router>,
     timeouts: Timeouts,
     source_addr: SocketAddr,
@@ -588,11 +590,6 @@ fn handle_conversation<T>(
             source_addr,
             timeouts.clone(),
         );
-        if let Err(err) = stream.flush() {
-            error!("error flushing to: {}, {}", source_addr, err);
-            return;
-        }
-        debug!("connection flushed");
     }
 
     if let Err(err) = stream.shutdown(net::Shutdown::Both) {
@@ -659,6 +656,10 @@ where
         );
         return false;
     };
+    if let Err(err) = timeout_stream.flush() {
+        error!("error flushing to: {}, {}", source_addr, err);
+        return false;
+    }
 
     // The action could have taken the body out of the request without reading
     // all of it.
diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 39c1837..978238a 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -58,8 +58,11 @@ where
     }
 
     fn read_int(&self, buf: &mut [u8]) -> io::Result<usize> {
-        self.poller
-            .modify(self.stream.as_raw(), Event::readable(1))?;
+        let event = match self.stream.has_unsent_data() {
+            true => Event::writable(1),
+            false => Event::readable(1),
+        };
+        self.poller.modify(self.stream.as_raw(), event)?;
         let mut events = Vec::new();
         let timeout = &self.read_timeout.write().unwrap().clone();
         let mut bytes_read = 0;
@@ -175,6 +178,34 @@ where
         }
         Ok(bytes_written)
     }
+
+    fn flush_int(&self) -> io::Result<()> {
+        let mut events = Vec::new();
+        let timeout = &self.write_timeout.write().unwrap().clone();
+        let started = Instant::now();
+        while self.stream.has_unsent_data() {
+            match self.stream.flush_data() {
+                Err(err)
+                    if err.kind() == io::ErrorKind::WouldBlock
+                        || err.kind() == io::ErrorKind::Interrupted => {}
+                result => return result,
+            }
+            events.clear();
+            self.poller
+                .modify(self.stream.as_raw(), Event::writable(1))?;
+            let remaining = timeout.map(|timeout| timeout.saturating_sub(started.elapsed()));
+            match self.poller.wait(&mut events, remaining) {
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                Ok(0) if self.done.load(Ordering::SeqCst) => {
+                    return Err(io::Error::from(io::ErrorKind::NotConnected))
+                }
+                Ok(0) => return Err(io::Error::from(io::ErrorKind::TimedOut)),
+                Ok(_) => {}
+                Err(err) => return Err(err),
+            }
+        }
+        Ok(())
+    }
 }
 
 impl<T> io::Read for &CancellableStream<T>
@@ -195,7 +226,7 @@ where
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.stream.flush_data()
+        self.flush_int()
     }
 }
 
@@ -219,6 +250,7 @@ where
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        self.stream.flush_data()
+        let stream = &self;
+        stream.flush_int()
     }
 }
diff --git a/wruster/src/streams/mod.rs b/wruster/src/streams/mod.rs
index a6c1675..b81b88d 100644
--- a/wruster/src/streams/mod.rs
+++ b/wruster/src/streams/mod.rs
@@ -23,6 +23,11 @@ pub trait BaseStream {
     fn read_buf(&self, buf: &mut [u8]) -> io::Result<usize>;
     fn flush_data(&self) -> io::Result<()>;
 
+    /// Returns true if the stream keeps data the socket did not accept yet.
+    fn has_unsent_data(&self) -> bool {
+        false
+    }
+
     /// Returns true if the stream holds data, already taken from the socket,
     /// to serve a read with.
     fn has_data(&self) -> bool {
@@ -103,6 +108,10 @@ impl BaseStream for tls::Stream {
     fn has_data(&self) -> bool {
         self.has_data()
     }
+
+    fn has_unsent_data(&self) -> bool {
+        self.has_unsent_data()
+    }
 }
 
 /**
diff --git a/wruster/src/streams/timeout_stream.rs b/wruster/src/streams/timeout_stream.rs
index ea44152..4885124 100644
--- a/wruster/src/streams/timeout_stream.rs
+++ b/wruster/src/streams/timeout_stream.rs
@@ -178,7 +178,25 @@ where
 
     fn flush(&mut self) -> io::Result<()> {
         let stream = &mut self.stream;
-        stream.flush()
+        let timeout = match self.write {
+            None => return stream.flush(),
+            Some(timeout) => timeout,
+        };
+        let write = self
+            .ongoing_write
+            .get_or_insert_with(|| Operation::from_timeout(timeout));
+        let next_timeout = write.next_timeout();
+        if next_timeout.is_zero() {
+            return Err(io::Error::from(io::ErrorKind::TimedOut));
+        }
+        stream.set_write_timeout(Some(next_timeout))?;
+        write.start();
+        let res = stream.flush().map_err(|err| match err.kind() {
+            ErrorKind::WouldBlock => io::Error::from(ErrorKind::TimedOut),
+            _ => err,
+        });
+        write.stop();
+        res
     }
 }
 
diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index 9a002ad..074e2ac 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -88,6 +88,11 @@ impl Stream {
         let conn = &self.stream.lock().unwrap().conn;
         !conn.is_handshaking() && !conn.wants_read()
     }
+
+    pub fn has_unsent_data(&self) -> bool {
+        let conn = &self.stream.lock().unwrap().conn;
+        conn.wants_write()
+    }
 }
 
 impl Read for Stream {
-- 
2.43.0


From 9057160afcd764bed7cde576caf3e871dd959747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 32/36] fix: writing to a TLS client that did not start the
 handshake kept the server busy for good

---
 wruster/src/streams/cancellable_stream.rs | 9 ++++++---
 wruster/src/streams/mod.rs                | 9 +++++++++
 wruster/src/streams/tls/mod.rs            | 5 +++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/wruster/src/streams/cancellable_stream.rs b/wruster/src/streams/cancellable_stream.rs
index 978238a..a6a6119 100644
--- a/wruster/src/streams/cancellable_stream.rs
+++ b/wruster/src/streams/cancellable_stream.rs
@@ -131,8 +131,11 @@ where
         let buf_len = buf.len();
         while bytes_written < buf_len {
             events.clear();
-            self.poller
-                .modify(self.stream.as_raw(), Event::writable(1))?;
+            let event = match self.stream.write_needs_read() {
+                true => Event::readable(1),
+                false => Event::writable(1),
+            };
+            self.poller.modify(self.stream.as_raw(), event)?;
             let remaining = timeout.map(|timeout| timeout.saturating_sub(started.elapsed()));
             let ready = match self.poller.wait(&mut events, remaining) {
                 // Part of the data could be already written, so the caller
@@ -153,7 +156,7 @@ where
                 return Err(io::Error::from(io::ErrorKind::TimedOut));
             }
             for evt in &events {
-                if evt.key != 1 || !evt.writable {
+                if evt.key != 1 {
                     continue;
                 }
                 let write_buf = &buf[bytes_written..];
diff --git a/wruster/src/streams/mod.rs b/wruster/src/streams/mod.rs
index b81b88d..e73427b 100644
--- a/wruster/src/streams/mod.rs
+++ b/wruster/src/streams/mod.rs
@@ -23,6 +23,11 @@ pub trait BaseStream {
     fn read_buf(&self, buf: &mut [u8]) -> io::Result<usize>;
     fn flush_data(&self) -> io::Result<()>;
 
+    /// Returns true if a write can not go on until the peer sends something.
+    fn write_needs_read(&self) -> bool {
+        false
+    }
+
     /// Returns true if the stream keeps data the socket did not accept yet.
     fn has_unsent_data(&self) -> bool {
         false
@@ -112,6 +117,10 @@ impl BaseStream for tls::Stream {
     fn has_unsent_data(&self) -> bool {
         self.has_unsent_data()
     }
+
+    fn write_needs_read(&self) -> bool {
+        self.write_needs_read()
+    }
 }
 
 /**
diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index 074e2ac..525e691 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -93,6 +93,11 @@ impl Stream {
         let conn = &self.stream.lock().unwrap().conn;
         conn.wants_write()
     }
+
+    pub fn write_needs_read(&self) -> bool {
+        let conn = &self.stream.lock().unwrap().conn;
+        conn.is_handshaking() && !conn.wants_write()
+    }
 }
 
 impl Read for Stream {
-- 
2.43.0


From 7504ab0d632d3b473aca2c96961c70388bc1d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 33/36] fix: a TLS client closing the session before the
 handshake ended kept its thread busy for good

---
 wruster/src/streams/tls/mod.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index 525e691..a56ef9d 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -51,11 +51,13 @@ impl Stream {
 
     pub fn read_int(&self, buf: &mut [u8]) -> io::Result<usize> {
         let mut stream = self.stream.lock().unwrap();
+        handshake(&mut stream)?;
         stream.read(buf)
     }
 
     pub fn write_int(&self, buf: &[u8]) -> io::Result<usize> {
         let mut stream = self.stream.lock().unwrap();
+        handshake(&mut stream)?;
         stream.write(buf)
     }
 
@@ -81,6 +83,7 @@ impl Stream {
 
     pub fn flush_data(&self) -> io::Result<()> {
         let mut stream = self.stream.lock().unwrap();
+        handshake(&mut stream)?;
         stream.flush()
     }
 
@@ -100,6 +103,26 @@ impl Stream {
     }
 }
 
+// rustls never ends trying to complete a handshake that the peer gave up with a
+// close_notify: https://rustsec.org/advisories/RUSTSEC-2024-0336.html
+fn handshake(stream: &mut StreamOwned<ServerConnection, TcpStream>) -> io::Result<()> {
+    let conn = &mut stream.conn;
+    while conn.is_handshaking() {
+        while conn.wants_write() {
+            conn.write_tls(&mut stream.sock)?;
+        }
+        if !conn.wants_read() || conn.read_tls(&mut stream.sock)? == 0 {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+        }
+        if let Err(err) = conn.process_new_packets() {
+            // There could be an alert to send describing the error.
+            let _ = conn.write_tls(&mut stream.sock);
+            return Err(io::Error::new(io::ErrorKind::InvalidData, err));
+        }
+    }
+    Ok(())
+}
+
 impl Read for Stream {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         self.read_int(buf)
-- 
2.43.0


From 6c02d7dadce31f88298c05310c0a3a2ceb64dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 34/36] fix: what follows the end of a TLS session was waited
 for in vain

---
 wruster/src/streams/tls/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index a56ef9d..2e3cb0e 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -52,7 +52,17 @@ impl Stream {
     pub fn read_int(&self, buf: &mut [u8]) -> io::Result<usize> {
         let mut stream = self.stream.lock().unwrap();
         handshake(&mut stream)?;
-        stream.read(buf)
+        match stream.read(buf) {
+            // Nothing the peer sends after ending the session is read.
+            Err(err)
+                if err.kind() == io::ErrorKind::WouldBlock
+                    && !stream.conn.wants_read()
+                    && !stream.conn.wants_write() =>
+            {
+                Ok(0)
+            }
+            result => result,
+        }
     }
 
     pub fn write_int(&self, buf: &[u8]) -> io::Result<usize> {
-- 
2.43.0


From 2aba9969d573e20ebaee0da546689338e4096fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 35/36] fix: starting a server with too few descriptors left
 panicked instead of returning an error

---
 wruster/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wruster/src/lib.rs b/wruster/src/lib.rs
index c141204..4e56dee 100644
--- a/wruster/src/lib.rs
+++ b/wruster/src/lib.rs
@@ -311,9 +311,9 @@ impl Server {
             Ok(listener) => listener,
             Err(err) => return Err(Box::new(err)),
         };
-        listener.set_nonblocking(true).unwrap();
-        let poller = polling::Poller::new().unwrap();
-        poller.add(&listener, Event::readable(1)).unwrap();
+        listener.set_nonblocking(true)?;
+        let poller = polling::Poller::new()?;
+        poller.add(&listener, Event::readable(1))?;
         let poller = Arc::new(poller);
         let epoller = Arc::clone(&poller);
         self.poller = Some(poller);
-- 
2.43.0


From 708907bdaec826864458dee8ba15fe50a2d37ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:06 +0000
Subject: [PATCH 36/36] fix: a private key preceded by other items in its file
 was not found

---
 wruster/src/streams/tls/mod.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/wruster/src/streams/tls/mod.rs b/wruster/src/streams/tls/mod.rs
index 2e3cb0e..5099e59 100644
--- a/wruster/src/streams/tls/mod.rs
+++ b/wruster/src/streams/tls/mod.rs
@@ -255,19 +255,21 @@ impl PrivateKey {
             }
         })?;
         let mut reader = BufReader::new(keyfile);
-        match rustls_pemfile::read_one(&mut reader)? {
-            Some(rustls_pemfile::Item::RSAKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            Some(rustls_pemfile::Item::PKCS8Key(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            Some(rustls_pemfile::Item::ECKey(key)) => Ok(PrivateKey(rustls::PrivateKey(key))),
-            None => Err(io::Error::new(
-                io::ErrorKind::Other,
-                format!("no private key found in {} ", path),
-            )),
-            _ => Err(io::Error::new(
-                io::ErrorKind::Other,
-                format!("no private key found in {} ", path),
-            )),
+        // The key can be preceded by other items, for instance: a certificate.
+        while let Some(item) = rustls_pemfile::read_one(&mut reader)? {
+            match item {
+                rustls_pemfile::Item::RSAKey(key)
+                | rustls_pemfile::Item::PKCS8Key(key)
+                | rustls_pemfile::Item::ECKey(key) => {
+                    return Ok(PrivateKey(rustls::PrivateKey(key)))
+                }
+                _ => continue,
+            }
         }
+        Err(io::Error::new(
+            io::ErrorKind::Other,
+            format!("no private key found in {} ", path),
+        ))
     }
 }
 
-- 
2.43.0

