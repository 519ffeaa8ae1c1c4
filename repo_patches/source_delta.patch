From d85ac9dc4fdd77f7fb38a9cae9d6fe857f83637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 01/26] fix: serialize `true` as "true" in path, query and
 header arguments

---
 src/serializers/http_header.rs | 2 +-
 src/serializers/url_path.rs    | 2 +-
 src/serializers/url_query.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index b007dbf..48b4b94 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index cbe723d..bb82d84 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -68,7 +68,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlPathSerializer<'b> {
     type SerializeStructVariant = Impossible<Self::Ok, Self::Error>;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         track!(self.bind_next_var(s))?;
         Ok(())
     }
diff --git a/src/serializers/url_query.rs b/src/serializers/url_query.rs
index 493f0e5..0963eaa 100644
--- a/src/serializers/url_query.rs
+++ b/src/serializers/url_query.rs
@@ -45,7 +45,7 @@ impl<'a, 'b> ser::Serializer for &'a mut UrlQuerySerializer<'b> {
     type SerializeStructVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
-        let s = if v { "ture" } else { "false" };
+        let s = if v { "true" } else { "false" };
         self.append(Cow::Borrowed(s));
         Ok(())
     }
-- 
2.43.0


From 47fbb137627315eb8b12c0357a88b98842d65694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 02/26] fix: decode percent-encoded path arguments as UTF-8

---
 src/deserializers/url_path.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index a4bd233..8b20631 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -338,26 +338,24 @@ where
 }
 
 fn percent_decode(s: &str) -> Result<String> {
-    let mut chars = s.chars();
-    let mut decoded = String::new();
-    while let Some(c) = chars.next() {
-        if c == '%' {
-            let h0 = track!(chars
-                .next()
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let h1 = track!(chars
-                .next()
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            let code = track!(u32::from_str_radix(&format!("{h0}{h1}"), 16)
-                .map_err(|e| track!(ErrorKind::Invalid.cause(e))))?;
-            let c = track!(char::from_u32(code)
-                .ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-            decoded.push(c);
-            continue;
+    fn hex(b: Option<u8>) -> Result<u8> {
+        let digit = b.and_then(|b| (b as char).to_digit(16));
+        let digit = track!(digit.ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
+        Ok(digit as u8)
+    }
+
+    let mut bytes = s.bytes();
+    let mut decoded = Vec::new();
+    while let Some(b) = bytes.next() {
+        if b == b'%' {
+            let h0 = track!(hex(bytes.next()))?;
+            let h1 = track!(hex(bytes.next()))?;
+            decoded.push(h0 << 4 | h1);
+        } else {
+            decoded.push(b);
         }
-        decoded.push(c);
     }
-    Ok(decoded)
+    track!(String::from_utf8(decoded).map_err(Error::from))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 672dfe758f8b32c684a99c7226c83d3ecb4c54a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 03/26] fix: skip the values of unknown query parameters

---
 src/deserializers/url_query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/deserializers/url_query.rs b/src/deserializers/url_query.rs
index 27a88f8..a4c979a 100644
--- a/src/deserializers/url_query.rs
+++ b/src/deserializers/url_query.rs
@@ -299,6 +299,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlQueryDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
+        if self.in_map {
+            let _ = track!(self.next_str())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0


From 93848983600145c3852530e8c823a7bd15c7242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 04/26] fix: accept unit path arguments for entry points
 without variables

---
 src/deserializers/url_path.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index 8b20631..89e1c53 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -218,11 +218,14 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut UrlPathDeserializer<'de> {
         track_panic!(ErrorKind::Invalid);
     }
 
-    fn deserialize_unit<V>(self, _visitor: V) -> Result<V::Value>
+    fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        track_panic!(ErrorKind::Invalid);
+        track_assert!(!self.in_seq, ErrorKind::Invalid);
+        track_assert_eq!(self.free_vars, 0, ErrorKind::Invalid);
+        track!(self.finish())?;
+        track!(visitor.visit_unit())
     }
 
     fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
-- 
2.43.0


From c247568e313dd01f6bb0fb8468b4820fa24c588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 05/26] fix: report missing path arguments as an error instead
 of panicking

---
 src/serializers/rpc_request.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index d5af33b..5c2cbf9 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -38,26 +38,26 @@ impl RpcRequestSerializer {
 
     /// Finishes the serialization and returns the resulting HTTP request and body.
     pub fn finish(mut self, body: &[u8]) -> Result<Request<TcpStream>> {
-        let mut request = self.take_request();
+        let mut request = track!(self.take_request())?;
         request.add_header(&ContentLength(body.len() as u64));
         Ok(request.finish())
     }
 
-    fn take_request(&mut self) -> RequestBuilder<TcpStream> {
+    fn take_request(&mut self) -> Result<RequestBuilder<TcpStream>> {
         if let Some(request) = self.request.take() {
-            request
+            Ok(request)
         } else {
-            assert!(self.connection.is_some());
+            track_assert!(self.connection.is_some(), ErrorKind::Invalid);
             if !self.is_path_initialized {
-                let mut serializer = track_try_unwrap!(UrlPathSerializer::new(
+                let mut serializer = track!(UrlPathSerializer::new(
                     &self.entry_point,
                     &mut self.temp_url,
-                ));
-                track_try_unwrap!(().serialize(&mut serializer));
+                ))?;
+                track!(().serialize(&mut serializer))?;
             }
             let relative_url = &self.temp_url[url::Position::BeforePath..];
             let connection = self.connection.take().unwrap();
-            connection.build_request(self.method, relative_url)
+            Ok(connection.build_request(self.method, relative_url))
         }
     }
 }
@@ -234,7 +234,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                 Ok(())
             }
             "header" => {
-                let mut request = self.take_request();
+                let mut request = track!(self.take_request())?;
                 {
                     let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
                     track!(value.serialize(&mut serializer))?;
-- 
2.43.0


From d036a323833ae7d2cabd2f8fc1d4286d1d72f2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 06/26] fix: allow request types which have a query but no path
 arguments

---
 src/serializers/rpc_request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index 5c2cbf9..b5af53f 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -221,7 +221,7 @@ impl<'a> ser::SerializeStruct for &'a mut RpcRequestSerializer {
                         &self.entry_point,
                         &mut self.temp_url,
                     ))?;
-                    track!(value.serialize(&mut serializer))?;
+                    track!(().serialize(&mut serializer))?;
                     self.is_path_initialized = true;
                 }
                 {
-- 
2.43.0


From 04ceeaa5b96425ac71a65e5c03481d2e4be3b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 07/26] fix: do not panic on struct variant requests

---
 src/serializers/rpc_request.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/serializers/rpc_request.rs b/src/serializers/rpc_request.rs
index b5af53f..c73d725 100644
--- a/src/serializers/rpc_request.rs
+++ b/src/serializers/rpc_request.rs
@@ -256,15 +256,7 @@ impl<'a> ser::SerializeStructVariant for &'a mut RpcRequestSerializer {
     where
         T: ?Sized + Serialize,
     {
-        match key {
-            "header" => {
-                let request = self.request.as_mut().unwrap();
-                let mut serializer = HttpHeaderSerializer::new(request.headers_mut());
-                track!(value.serialize(&mut serializer))?;
-                Ok(())
-            }
-            _ => track_panic!(ErrorKind::Invalid, "Unknown field: {:?}", key),
-        }
+        ser::SerializeStruct::serialize_field(self, key, value)
     }
     fn end(self) -> Result<Self::Ok> {
         Ok(())
-- 
2.43.0


From dff67b71cef8d8fd62fc0e6b267ad25f3cfdd45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:12 +0000
Subject: [PATCH 08/26] fix: reject path arguments which URLs cannot represent

---
 src/serializers/url_path.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/serializers/url_path.rs b/src/serializers/url_path.rs
index bb82d84..6b721e0 100644
--- a/src/serializers/url_path.rs
+++ b/src/serializers/url_path.rs
@@ -31,6 +31,14 @@ impl<'a> UrlPathSerializer<'a> {
     fn bind_next_var(&mut self, value: &str) -> Result<()> {
         track_assert!(self.is_started, ErrorKind::Invalid);
         track_assert!(!self.append_until_next_var(), ErrorKind::Invalid);
+
+        // `PathSegmentsMut::push` silently drops the following values.
+        let is_dropped = match value {
+            "" => self.index == 0 && self.entry_point.segments().len() > 1,
+            "." | ".." => true,
+            _ => value.contains(|c| c == '\t' || c == '\n' || c == '\r'),
+        };
+        track_assert!(!is_dropped, ErrorKind::Invalid, "value={:?}", value);
         self.segments.push(value);
         self.index += 1;
         Ok(())
-- 
2.43.0


From 2eddc435d6e88720e5a920ecc67eb2141020a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:30 +0000
Subject: [PATCH 09/26] fix: answer requests for non-hierarchical URLs instead
 of panicking

---
 src/router.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index 29771c5..2688c70 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -29,7 +29,7 @@ impl Router {
         request: &Request<TcpStream>,
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
         let mut trie = self.trie.root();
-        for segment in url.path_segments().expect("Never fails") {
+        for segment in url.path_segments().ok_or(HttpStatus::BadRequest)? {
             if let Some(child) = trie.get_child(segment) {
                 trie = child;
             } else {
-- 
2.43.0


From 2a06d2f5617cfcafbb2f6536b445c6ed2c1ba074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:30 +0000
Subject: [PATCH 10/26] fix: do not treat the first segment of a request path
 as an authority

---
 src/misc.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/misc.rs b/src/misc.rs
index 404aeaf..a4b073c 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -4,6 +4,12 @@ use url::Url;
 use {Error, Result};
 
 pub fn parse_relative_url(url: &str) -> Result<Url> {
+    if url.starts_with('/') {
+        // The origin-form: a leading "//" does not introduce an authority.
+        let url = track!(Url::parse(&format!("http://foo{}", url)).map_err(Error::from))?;
+        return Ok(url);
+    }
+
     static mut DUMMY_BASE_URL: Option<&'static Url> = None;
     static START: Once = Once::new();
 
-- 
2.43.0


From ee125cf180769a0a71e3d8ebd4ac8a293bc43eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:49 +0000
Subject: [PATCH 11/26] fix: reject header fields which would corrupt the HTTP
 message

---
 src/serializers/http_header.rs | 40 +++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index 48b4b94..c59aa5d 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -22,14 +22,17 @@ impl<'a> HttpHeaderSerializer<'a> {
         }
     }
 
-    fn append(&mut self, key_or_val: Cow<str>) {
+    fn append(&mut self, key_or_val: Cow<str>) -> Result<()> {
         if let Some(key) = self.key.take() {
             let val = &key_or_val;
+            track_assert!(is_field_name(&key), ErrorKind::Invalid, "key={:?}", key);
+            track_assert!(is_field_value(val.as_bytes()), ErrorKind::Invalid, "key={:?}", key);
             self.headers.add_raw_header(&key, val.as_bytes());
         } else {
             let key = key_or_val.into_owned();
             self.key = Some(Cow::Owned(key));
         }
+        Ok(())
     }
 }
 impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
@@ -46,8 +49,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
 
     fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
         let s = if v { "true" } else { "false" };
-        self.append(Cow::Borrowed(s));
-        Ok(())
+        track!(self.append(Cow::Borrowed(s)))
     }
     fn serialize_i8(self, v: i8) -> Result<Self::Ok> {
         track!(self.serialize_i64(v as i64))
@@ -59,8 +61,7 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_i64(v as i64))
     }
     fn serialize_i64(self, v: i64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_u8(self, v: u8) -> Result<Self::Ok> {
         track!(self.serialize_u64(v as u64))
@@ -72,28 +73,24 @@ impl<'a, 'b> ser::Serializer for &'a mut HttpHeaderSerializer<'b> {
         track!(self.serialize_u64(v as u64))
     }
     fn serialize_u64(self, v: u64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_f32(self, v: f32) -> Result<Self::Ok> {
         track!(self.serialize_f64(v as f64))
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok> {
-        self.append(Cow::Owned(v.to_string()));
-        Ok(())
+        track!(self.append(Cow::Owned(v.to_string())))
     }
     fn serialize_char(self, v: char) -> Result<Self::Ok> {
         track!(self.serialize_str(&v.to_string()))
     }
     fn serialize_str(self, v: &str) -> Result<Self::Ok> {
-        self.append(Cow::Borrowed(v));
-        Ok(())
+        track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
         use std::str;
         let v = unsafe { str::from_utf8_unchecked(v) };
-        self.append(Cow::Borrowed(v));
-        Ok(())
+        track!(self.append(Cow::Borrowed(v)))
     }
     fn serialize_none(self) -> Result<Self::Ok> {
         track_assert!(self.key.take().is_some(), ErrorKind::Invalid);
@@ -232,3 +229,20 @@ impl<'a, 'b> ser::SerializeStructVariant for &'a mut HttpHeaderSerializer<'b> {
         Ok(())
     }
 }
+
+/// Is `s` a valid (non-empty) HTTP token?
+fn is_field_name(s: &str) -> bool {
+    !s.is_empty()
+        && s.bytes().all(|b| match b {
+            b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' => true,
+            _ => b"!#$%&'*+-.^_`|~".contains(&b),
+        })
+}
+
+/// Can the peer get `s` back from a header line?
+fn is_field_value(s: &[u8]) -> bool {
+    let is_blank = |b: Option<&u8>| b == Some(&b' ') || b == Some(&b'\t');
+    !is_blank(s.first())
+        && !is_blank(s.last())
+        && s.iter().all(|&b| b == b'\t' || (b >= 0x20 && b != 0x7f))
+}
-- 
2.43.0


From 4d14076b4b2d9b04ddbbdfd8e095c3f33b422601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:04 +0000
Subject: [PATCH 12/26] fix: serve requests without any header when the request
 type ignores headers

---
 src/deserializers/http_header.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deserializers/http_header.rs b/src/deserializers/http_header.rs
index 29549da..67f621b 100644
--- a/src/deserializers/http_header.rs
+++ b/src/deserializers/http_header.rs
@@ -315,7 +315,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut HttpHeaderDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let _v = track!(self.next_bytes())?;
+        if self.in_map {
+            let _v = track!(self.next_bytes())?;
+        }
         track!(visitor.visit_unit()) // NOTE: dummy visiting
     }
 }
-- 
2.43.0


From 6f8f7fd3b6e0df9b74bc5401ba050ddaee475645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:31 +0000
Subject: [PATCH 13/26] fix: try every entry point which matches the path of a
 request

---
 src/router.rs | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 2688c70..92d78bb 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -28,16 +28,11 @@ impl Router {
         url: &Url,
         request: &Request<TcpStream>,
     ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
-        let mut trie = self.trie.root();
-        for segment in url.path_segments().ok_or(HttpStatus::BadRequest)? {
-            if let Some(child) = trie.get_child(segment) {
-                trie = child;
-            } else {
-                return Err(HttpStatus::NotFound);
-            }
-        }
-        trie.get_value(request.method())
-            .ok_or(HttpStatus::MethodNotAllowed)
+        let segments: Vec<_> = url
+            .path_segments()
+            .ok_or(HttpStatus::BadRequest)?
+            .collect();
+        self.trie.root().find(&segments, request.method())
     }
 }
 
@@ -118,11 +113,32 @@ impl TrieNode {
             leafs: HashMap::new(),
         }
     }
-    pub fn get_child<'a>(&'a self, segment: &str) -> Option<&'a Self> {
+    /// Finds the handler for the path; constant segments take precedence over variables.
+    pub fn find(
+        &self,
+        segments: &[&str],
+        method: HttpMethod,
+    ) -> ::std::result::Result<&HandleHttpRequest, HttpStatus> {
+        let (segment, rest) = match segments.split_first() {
+            None if self.leafs.is_empty() => return Err(HttpStatus::NotFound),
+            None => return self.get_value(method).ok_or(HttpStatus::MethodNotAllowed),
+            Some((segment, rest)) => (segment, rest),
+        };
+        let mut result = Err(HttpStatus::NotFound);
+        for child in self.get_children(segment) {
+            match child.find(rest, method) {
+                Ok(handler) => return Ok(handler),
+                Err(HttpStatus::NotFound) => {}
+                Err(status) => result = Err(status),
+            }
+        }
+        result
+    }
+    fn get_children<'a>(&'a self, segment: &str) -> Vec<&'a Self> {
         let segment: &'static str = unsafe { &*(segment as *const _) as _ };
-        self.children
-            .get(&Some(segment))
-            .or_else(|| self.children.get(&None))
+        let constant = self.children.get(&Some(segment));
+        let variable = self.children.get(&None);
+        constant.into_iter().chain(variable).collect()
     }
     pub fn get_value(&self, method: HttpMethod) -> Option<&HandleHttpRequest> {
         self.leafs.get(&method)
-- 
2.43.0


From d65328f6e933735084b1fcef491d62b98e2ab2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:44 +0000
Subject: [PATCH 14/26] fix: match constant path segments after
 percent-decoding

---
 src/deserializers/url_path.rs | 24 +++---------------------
 src/misc.rs                   | 24 +++++++++++++++++++++++-
 src/router.rs                 |  7 +++++--
 3 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/deserializers/url_path.rs b/src/deserializers/url_path.rs
index 89e1c53..e3fb4d1 100644
--- a/src/deserializers/url_path.rs
+++ b/src/deserializers/url_path.rs
@@ -5,6 +5,7 @@ use std::str::Split;
 use trackable::error::ErrorKindExt;
 use url::Url;
 
+use misc::percent_decode;
 use types::EntryPoint;
 use {Error, ErrorKind, Result};
 
@@ -43,6 +44,7 @@ impl<'de> UrlPathDeserializer<'de> {
                 .segments
                 .next()
                 .ok_or_else(|| ErrorKind::Invalid.error(),))?;
+            let actual = track!(percent_decode(actual))?;
             track_assert_eq!(actual, expected, ErrorKind::Invalid);
         }
         Ok(())
@@ -57,6 +59,7 @@ impl<'de> UrlPathDeserializer<'de> {
         self.index += 1;
         if let Some(expected) = self.entry_point.segments()[i].as_option() {
             let s = self.segments.next().unwrap();
+            let s = track!(percent_decode(s))?;
             track_assert_eq!(s, expected, ErrorKind::Invalid);
             self.next_value()
         } else {
@@ -340,27 +343,6 @@ where
     Ok(v)
 }
 
-fn percent_decode(s: &str) -> Result<String> {
-    fn hex(b: Option<u8>) -> Result<u8> {
-        let digit = b.and_then(|b| (b as char).to_digit(16));
-        let digit = track!(digit.ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
-        Ok(digit as u8)
-    }
-
-    let mut bytes = s.bytes();
-    let mut decoded = Vec::new();
-    while let Some(b) = bytes.next() {
-        if b == b'%' {
-            let h0 = track!(hex(bytes.next()))?;
-            let h1 = track!(hex(bytes.next()))?;
-            decoded.push(h0 << 4 | h1);
-        } else {
-            decoded.push(b);
-        }
-    }
-    track!(String::from_utf8(decoded).map_err(Error::from))
-}
-
 #[cfg(test)]
 mod test {
     use serde::Deserialize;
diff --git a/src/misc.rs b/src/misc.rs
index a4b073c..30552da 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,7 +1,8 @@
 use std::sync::{Once};
+use trackable::error::ErrorKindExt;
 use url::Url;
 
-use {Error, Result};
+use {Error, ErrorKind, Result};
 
 pub fn parse_relative_url(url: &str) -> Result<Url> {
     if url.starts_with('/') {
@@ -28,3 +29,24 @@ pub fn parse_relative_url(url: &str) -> Result<Url> {
     )?;
     Ok(url)
 }
+
+pub fn percent_decode(s: &str) -> Result<String> {
+    fn hex(b: Option<u8>) -> Result<u8> {
+        let digit = b.and_then(|b| (b as char).to_digit(16));
+        let digit = track!(digit.ok_or_else(|| ErrorKind::Invalid.cause("Invalid escaped char")))?;
+        Ok(digit as u8)
+    }
+
+    let mut bytes = s.bytes();
+    let mut decoded = Vec::new();
+    while let Some(b) = bytes.next() {
+        if b == b'%' {
+            let h0 = track!(hex(bytes.next()))?;
+            let h1 = track!(hex(bytes.next()))?;
+            decoded.push(h0 << 4 | h1);
+        } else {
+            decoded.push(b);
+        }
+    }
+    track!(String::from_utf8(decoded).map_err(Error::from))
+}
diff --git a/src/router.rs b/src/router.rs
index 92d78bb..752643f 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -5,6 +5,7 @@ use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
+use misc;
 use procedure::EntryPoint;
 use types::{HttpMethod, HttpStatus};
 use {Error, ErrorKind, Result};
@@ -135,8 +136,10 @@ impl TrieNode {
         result
     }
     fn get_children<'a>(&'a self, segment: &str) -> Vec<&'a Self> {
-        let segment: &'static str = unsafe { &*(segment as *const _) as _ };
-        let constant = self.children.get(&Some(segment));
+        let constant = misc::percent_decode(segment).ok().and_then(|segment| {
+            let segment: &'static str = unsafe { &*(segment.as_str() as *const _) as _ };
+            self.children.get(&Some(segment))
+        });
         let variable = self.children.get(&None);
         constant.into_iter().chain(variable).collect()
     }
-- 
2.43.0


From 6d1dba267c69d75bb7e95ca860de3c74db01924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:44 +0000
Subject: [PATCH 15/26] fix: make procedures of the empty entry point reachable

---
 src/router.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/router.rs b/src/router.rs
index 752643f..e011923 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -88,6 +88,11 @@ impl Trie {
             let prev = node;
             node = prev.children.entry(key).or_insert_with(|| TrieNode::new());
         }
+        if entry_point.segments().is_empty() {
+            // The path of the root URL (i.e., "/") consists of an empty segment.
+            let root = node;
+            node = root.children.entry(Some("")).or_insert_with(|| TrieNode::new());
+        }
         track_assert!(
             !node.leafs.contains_key(&method),
             ErrorKind::Invalid,
-- 
2.43.0


From 46bc3758f2611b1c2cfdaf006119fad72b8b3c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:00 +0000
Subject: [PATCH 16/26] fix: do not panic on an extremely long suspended
 duration

---
 src/pool.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 099882d..98deaf4 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -102,7 +102,7 @@ pub struct RpcClientPool {
     command_tx: mpsc::Sender<Command>,
     command_rx: mpsc::Receiver<Command>,
     seq_no: u64,
-    blacklist: HashMap<SocketAddr, SystemTime>,
+    blacklist: HashMap<SocketAddr, Option<SystemTime>>, // `None` means "forever"
     suspended_duration: Duration,
     connect_timeout: Duration,
 }
@@ -149,7 +149,7 @@ impl RpcClientPool {
         match command {
             Command::AcquireConnection { addr, reply } => {
                 if let Some(suspended_until) = self.blacklist.remove(&addr) {
-                    if suspended_until > SystemTime::now() {
+                    if suspended_until.map_or(true, |t| t > SystemTime::now()) {
                         self.blacklist.insert(addr, suspended_until);
                         let future = PooledConnection::failed(
                             ErrorKind::Other
@@ -170,7 +170,7 @@ impl RpcClientPool {
                 self.release_connection(addr, connection);
             }
             Command::AddToBlacklist { addr } => {
-                let suspended_until = SystemTime::now() + self.suspended_duration;
+                let suspended_until = SystemTime::now().checked_add(self.suspended_duration);
                 self.blacklist.insert(addr, suspended_until);
             }
         }
-- 
2.43.0


From c9a81a390a4d94634c34317c8b145e6c10ddf93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:00 +0000
Subject: [PATCH 17/26] fix: keep the HTTP status in step with the problem of a
 response

---
 src/rfc7807.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rfc7807.rs b/src/rfc7807.rs
index 04a888b..0a8a4ea 100644
--- a/src/rfc7807.rs
+++ b/src/rfc7807.rs
@@ -38,6 +38,7 @@ impl ProblemResponse {
 
     /// Sets the `Problem` instance of this response.
     pub fn set_problem(&mut self, problem: Problem) {
+        self.status = Some(problem.get_status_code());
         self.body = problem;
     }
 }
-- 
2.43.0


From 9b38ceb8726c074fe473ff6adfa462f44861e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:05 +0000
Subject: [PATCH 18/26] fix: report truncated response bodies as an error

---
 src/client.rs |  6 +++++-
 src/misc.rs   | 13 +++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 915676a..29de22e 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -10,6 +10,7 @@ use serde::{Deserialize, Serialize};
 
 use Error;
 use deserializers::RpcResponseDeserializer;
+use misc;
 use procedure::Procedure;
 use serializers::RpcRequestSerializer;
 use types::HttpMethod;
@@ -108,7 +109,10 @@ where
                     } else {
                         let future = futures::done(response.into_body_reader())
                             .and_then(|res| res.read_all_bytes().map_err(|e| track!(e)))
-                            .map(|(res, body)| (res.into_inner(), body));
+                            .and_then(|(res, body)| {
+                                track!(misc::check_end_of_body(&res).map_err(miasht::Error::from))?;
+                                Ok((res.into_inner(), body))
+                            });
                         Box::new(future)
                     };
                     Phase::D(future)
diff --git a/src/misc.rs b/src/misc.rs
index 30552da..5412d54 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,3 +1,5 @@
+use miasht::builtin::io::BodyReader;
+use std::io;
 use std::sync::{Once};
 use trackable::error::ErrorKindExt;
 use url::Url;
@@ -50,3 +52,14 @@ pub fn percent_decode(s: &str) -> Result<String> {
     }
     track!(String::from_utf8(decoded).map_err(Error::from))
 }
+
+/// Checks that the peer did not close the connection in the middle of the body.
+pub fn check_end_of_body<R>(body: &BodyReader<R>) -> io::Result<()> {
+    match *body {
+        BodyReader::FixedLength(ref r) if r.limit() > 0 => Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            format!("{} bytes of the HTTP body are missing", r.limit()),
+        )),
+        _ => Ok(()),
+    }
+}
-- 
2.43.0


From 1c47dc5398561d3534bb6485a49e796a59fbf45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:12 +0000
Subject: [PATCH 19/26] fix: do not invoke handlers with truncated bodies, nor
 parse unread bodies as requests

---
 src/server.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 682e7f3..36c6336 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -82,8 +82,17 @@ impl RpcServerBuilder {
             let future = futures::done(http_request.into_body_reader())
                 .map_err(Error::from)
                 .and_then(move |http_request| rpc_request.read_body(http_request))
+                .and_then(|(http_request, rpc_request)| {
+                    // The next request begins after the part of the body which has not been read.
+                    http_request
+                        .read_all_bytes()
+                        .map_err(Error::from)
+                        .and_then(|(http_request, _)| {
+                            track!(misc::check_end_of_body(&http_request).map_err(Error::from))?;
+                            Ok((http_request.into_inner(), rpc_request))
+                        })
+                })
                 .and_then(move |(http_request, rpc_request)| {
-                    let http_request = http_request.into_inner();
                     handler
                         .handle_rpc(rpc_request)
                         .map_err(|_| unreachable!())
-- 
2.43.0


From 5fa067e6c569f81d009900886703310e02d1d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:31 +0000
Subject: [PATCH 20/26] fix: deserialize optional response statuses

A client could not use `ProblemResponse` as its response type.
---
 src/deserializers/rpc_response.rs | 26 ++++++++++++++++++++++++--
 src/lib.rs                        |  1 +
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/rpc_response.rs b/src/deserializers/rpc_response.rs
index aece628..d9153ae 100644
--- a/src/deserializers/rpc_response.rs
+++ b/src/deserializers/rpc_response.rs
@@ -248,11 +248,10 @@ impl<'de, 'a> de::MapAccess<'de> for &'a mut RpcResponseDeserializer<'de> {
     where
         V: de::DeserializeSeed<'de>,
     {
-        use serde::de::value::U16Deserializer;
         match self.phase {
             Phase::Init => unreachable!(),
             Phase::Status => {
-                let de: U16Deserializer<Error> = self.response.status().code().into_deserializer();
+                let de = StatusDeserializer(self.response.status().code());
                 let v = track!(seed.deserialize(de))?;
                 Ok(v)
             }
@@ -265,6 +264,29 @@ impl<'de, 'a> de::MapAccess<'de> for &'a mut RpcResponseDeserializer<'de> {
     }
 }
 
+/// `Deserializer` for `status` fields, which may be optional (e.g., `ProblemResponse`).
+struct StatusDeserializer(u16);
+impl<'de> de::Deserializer<'de> for StatusDeserializer {
+    type Error = Error;
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_u16(self.0)
+    }
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+    forward_to_deserialize_any! {
+        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string bytes
+        byte_buf unit unit_struct newtype_struct seq tuple tuple_struct
+        map struct enum identifier ignored_any
+    }
+}
+
 struct Enum<'de: 'a, 'a>(&'a mut RpcResponseDeserializer<'de>);
 impl<'de, 'a> de::EnumAccess<'de> for Enum<'de, 'a> {
     type Error = Error;
diff --git a/src/lib.rs b/src/lib.rs
index 801d041..1389d4d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,6 +7,7 @@ extern crate fibers;
 extern crate futures;
 extern crate handy_async;
 extern crate miasht;
+#[macro_use]
 extern crate serde;
 #[macro_use]
 extern crate serde_derive;
-- 
2.43.0


From 881d606fc2db69d5a593d17cca96d2dfa303791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:54 +0000
Subject: [PATCH 21/26] fix: decode the status of responses wrapped in newtype
 variants

---
 src/deserializers/rpc_response.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/deserializers/rpc_response.rs b/src/deserializers/rpc_response.rs
index d9153ae..695304d 100644
--- a/src/deserializers/rpc_response.rs
+++ b/src/deserializers/rpc_response.rs
@@ -315,6 +315,7 @@ impl<'de, 'a> de::VariantAccess<'de> for Enum<'de, 'a> {
     where
         T: de::DeserializeSeed<'de>,
     {
+        self.0.phase = Phase::Init;
         seed.deserialize(self.0)
     }
     fn tuple_variant<V>(self, _len: usize, _visitor: V) -> Result<V::Value>
-- 
2.43.0


From d319e47deec60cc6d21246d8ae8ba2d165fcd5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:53 +0000
Subject: [PATCH 22/26] fix: match header fields declared with capital letters

---
 src/deserializers/http_header.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/deserializers/http_header.rs b/src/deserializers/http_header.rs
index 67f621b..dd34525 100644
--- a/src/deserializers/http_header.rs
+++ b/src/deserializers/http_header.rs
@@ -29,6 +29,7 @@ impl Phase {
 #[derive(Debug)]
 pub struct HttpHeaderDeserializer<'de> {
     in_map: bool,
+    fields: &'static [&'static str],
     phase: Phase,
     headers: Peekable<HeadersIter<'de>>,
 }
@@ -37,6 +38,7 @@ impl<'de> HttpHeaderDeserializer<'de> {
     pub fn new(headers: &'de Headers<'de>) -> Self {
         HttpHeaderDeserializer {
             in_map: false,
+            fields: &[],
             phase: Phase::Key,
             headers: headers.iter().peekable(),
         }
@@ -47,7 +49,11 @@ impl<'de> HttpHeaderDeserializer<'de> {
     fn next_bytes(&mut self) -> Result<Cow<'de, [u8]>> {
         if let Some(&(k, v)) = self.headers.peek() {
             let v = match self.phase {
-                Phase::Key => Cow::Owned(k.to_lowercase().into_bytes()),
+                // NOTE: Header names are case-insensitive
+                Phase::Key => match self.fields.iter().find(|f| f.eq_ignore_ascii_case(k)) {
+                    Some(f) => Cow::Borrowed(f.as_bytes()),
+                    None => Cow::Owned(k.to_lowercase().into_bytes()),
+                },
                 Phase::Value => {
                     let _ = self.headers.next();
                     Cow::Borrowed(v)
@@ -284,12 +290,13 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut HttpHeaderDeserializer<'de> {
     fn deserialize_struct<V>(
         self,
         _name: &'static str,
-        _fields: &'static [&'static str],
+        fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
+        self.fields = fields;
         track!(self.deserialize_map(visitor))
     }
 
-- 
2.43.0


From 2841e5b4cf273d015fc3a591b7e18885cc78a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:05 +0000
Subject: [PATCH 23/26] fix: refuse header arguments which would change the
 framing of a message

---
 src/serializers/http_header.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/serializers/http_header.rs b/src/serializers/http_header.rs
index c59aa5d..2728e70 100644
--- a/src/serializers/http_header.rs
+++ b/src/serializers/http_header.rs
@@ -26,6 +26,7 @@ impl<'a> HttpHeaderSerializer<'a> {
         if let Some(key) = self.key.take() {
             let val = &key_or_val;
             track_assert!(is_field_name(&key), ErrorKind::Invalid, "key={:?}", key);
+            track_assert!(!is_framing_field(&key), ErrorKind::Invalid, "key={:?}", key);
             track_assert!(is_field_value(val.as_bytes()), ErrorKind::Invalid, "key={:?}", key);
             self.headers.add_raw_header(&key, val.as_bytes());
         } else {
@@ -239,6 +240,11 @@ fn is_field_name(s: &str) -> bool {
         })
 }
 
+/// Does this header determine where a message ends? (It is not up to the arguments.)
+fn is_framing_field(s: &str) -> bool {
+    s.eq_ignore_ascii_case("content-length") || s.eq_ignore_ascii_case("transfer-encoding")
+}
+
 /// Can the peer get `s` back from a header line?
 fn is_field_value(s: &[u8]) -> bool {
     let is_blank = |b: Option<&u8>| b == Some(&b' ') || b == Some(&b'\t');
-- 
2.43.0


From 8c9d6440ca3571d9237b5eb87ef0569eb40c7a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:05 +0000
Subject: [PATCH 24/26] fix: distinguish IPv6 addresses by scope when choosing
 pooled connections

---
 src/pool.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 98deaf4..b177fc7 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -36,8 +36,7 @@ impl PartialOrd for ConnectionId {
 }
 impl Ord for ConnectionId {
     fn cmp(&self, other: &Self) -> Ordering {
-        let other = (other.addr.ip(), other.addr.port(), other.seq_no);
-        (self.addr.ip(), self.addr.port(), self.seq_no).cmp(&other)
+        (self.addr, self.seq_no).cmp(&(other.addr, other.seq_no))
     }
 }
 
-- 
2.43.0


From 9be3abd33f95c15a8fa66af70e4c63e0863fec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:36 +0000
Subject: [PATCH 25/26] fix: keep the received status when a problem document
 is not understood

---
 src/rfc7807.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rfc7807.rs b/src/rfc7807.rs
index 0a8a4ea..7af9fd6 100644
--- a/src/rfc7807.rs
+++ b/src/rfc7807.rs
@@ -1,6 +1,7 @@
 //! "Problem Details for HTTP APIs ([RFC 7807][RFC 7807])" related components.
 //!
 //! [RFC 7807]: https://tools.ietf.org/html/rfc7807
+use miasht::status::RawStatus;
 use serdeconv;
 use std::error;
 use std::fmt;
@@ -51,6 +52,8 @@ impl RpcResponse for ProblemResponse {
         if let Ok(body) = serdeconv::from_json_slice(&body) {
             // TODO
             self.body = body;
+        } else if let Some(status) = self.status.and_then(|c| RawStatus::new(c, "").normalize()) {
+            self.body = Problem::about_blank(status);
         }
     }
 }
-- 
2.43.0


From 5e0107014b2b78e888e37db7ba3976b279ff78ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:55 +0000
Subject: [PATCH 26/26] fix: do not pool connections which end with the
 response

---
 src/client.rs | 10 ++++++++--
 src/misc.rs   | 25 +++++++++++++++++++++++++
 src/pool.rs   |  4 +++-
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 29de22e..888feb4 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -78,7 +78,8 @@ impl<P> Future for CallInner<P>
 where
     P: Procedure,
 {
-    type Item = (P::Response, Connection<TcpStream>);
+    // The connection is returned if it can be used for further requests.
+    type Item = (P::Response, Option<Connection<TcpStream>>);
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         loop {
@@ -125,7 +126,12 @@ where
                         track!(P::Response::deserialize(&mut deserializer))?
                     };
                     rpc_response.set_body(body);
-                    return Ok(Async::Ready((rpc_response, response.finish())));
+                    let connection = if misc::is_persistent(P::method(), &response) {
+                        Some(response.finish())
+                    } else {
+                        None
+                    };
+                    return Ok(Async::Ready((rpc_response, connection)));
                 }
                 _ => unreachable!(),
             };
diff --git a/src/misc.rs b/src/misc.rs
index 5412d54..442e8d0 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -1,9 +1,12 @@
+use miasht::Version;
 use miasht::builtin::io::BodyReader;
+use miasht::client::Response;
 use std::io;
 use std::sync::{Once};
 use trackable::error::ErrorKindExt;
 use url::Url;
 
+use types::HttpMethod;
 use {Error, ErrorKind, Result};
 
 pub fn parse_relative_url(url: &str) -> Result<Url> {
@@ -53,6 +56,28 @@ pub fn percent_decode(s: &str) -> Result<String> {
     track!(String::from_utf8(decoded).map_err(Error::from))
 }
 
+/// Can the connection be used for further requests after the response?
+pub fn is_persistent<T>(method: HttpMethod, response: &Response<T>) -> bool {
+    let has = |name: &str| {
+        let mut headers = response.headers().iter();
+        headers.any(|(k, _)| k.eq_ignore_ascii_case(name))
+    };
+    let has_option = |option: &str| {
+        let mut headers = response.headers().iter();
+        headers.any(|(k, v)| {
+            k.eq_ignore_ascii_case("connection")
+                && String::from_utf8_lossy(v)
+                    .split(',')
+                    .any(|o| o.trim().eq_ignore_ascii_case(option))
+        })
+    };
+    let is_framed =
+        method == HttpMethod::Head || has("content-length") || has("transfer-encoding");
+    is_framed
+        && !has_option("close")
+        && (response.version() == Version::Http1_1 || has_option("keep-alive"))
+}
+
 /// Checks that the peer did not close the connection in the middle of the body.
 pub fn check_end_of_body<R>(body: &BodyReader<R>) -> io::Result<()> {
     match *body {
diff --git a/src/pool.rs b/src/pool.rs
index b177fc7..6831c03 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -320,7 +320,9 @@ where
     type Error = Error;
     fn poll(&mut self) -> Poll<Self::Item, Self::Error> {
         if let Async::Ready((response, connection)) = track!(self.inner.poll())? {
-            self.handle.release_connection(self.addr, connection);
+            if let Some(connection) = connection {
+                self.handle.release_connection(self.addr, connection);
+            }
             Ok(Async::Ready(response))
         } else {
             Ok(Async::NotReady)
-- 
2.43.0

