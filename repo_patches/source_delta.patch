From 2da2b0846184499447562054897a403e50ece8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 01/30] fix: don't panic when a response filter silently aborts
 a chunk

---
 src/response.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 4656a17..acd280e 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -939,8 +939,8 @@ impl<'a, 'b> Chunked<'a, 'b> {
             Some(Err(e)) => Err(Error::Io(e)),
             None => match filter_result {
                 Action::Abort(e) => Err(Error::Filter(e)),
-                Action::Next(None) => Ok(0),
-                _ => unreachable!()
+                //Nothing is written if the content was held back or silently dropped
+                _ => Ok(0)
             }
         }
     }
-- 
2.43.0


From 0efaa28407f385149e37d6ae148ea81ccd54a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 02/30] fix: end the response filters in order and report their
 errors

---
 src/response.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index acd280e..3c9462f 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1200,25 +1200,12 @@ fn filter_content<'a, 'd: 'a, Content: Into<Data<'d>>>(filters: &'a [Box<Respons
 }
 
 fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_storage: &mut AnyMap) -> Result<Vec<Action<'a>>, Error> {
-    let otuputs: Vec<_> = filters.into_iter()
-        .rev()
-        .map(|filter| {
-            let filter_context = FilterContext {
-                storage: filter_storage,
-                global: global,
-            };
-
-            filter.end(filter_context)
-        })
-        .take_while(|a| if let Action::Next(_) = *a { true } else { false })
-        .map(Some)
-        .collect();
-
-    let mut write_queue = vec![];
-
-    for (filter, action) in filters.into_iter().zip(otuputs.into_iter().chain(::std::iter::repeat(None))) {
+    let mut write_queue: Vec<Action<'a>> = vec![];
+
+    for filter in filters {
         let mut error = None;
 
+        //Whatever the previous filters had left to write has to pass through this one...
         write_queue = write_queue.into_iter().filter_map(|action| match action {
             Action::Next(content) => {
                 let filter_context = FilterContext {
@@ -1238,8 +1225,16 @@ fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_st
             return Err(Error::Filter(e))
         }
 
-        if let Some(action) = action {
-            write_queue.push(action);
+        //...before it ends.
+        let filter_context = FilterContext {
+            storage: filter_storage,
+            global: global,
+        };
+
+        match filter.end(filter_context) {
+            Action::SilentAbort => break,
+            Action::Abort(e) => return Err(Error::Filter(e)),
+            action => write_queue.push(action)
         }
     }
 
-- 
2.43.0


From 088546609f4472e34205cbccdfb1d3cf9e4d77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 03/30] fix: report the number of consumed bytes when writing
 to a chunked response

---
 src/response.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 3c9462f..3390853 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -983,7 +983,8 @@ impl<'a, 'b> Chunked<'a, 'b> {
 
 impl<'a, 'b> Write for Chunked<'a, 'b> {
     fn write(&mut self, content: &[u8]) -> io::Result<usize> {
-        response_to_io_result(self.try_send(content))
+        //The filters may change the size, but it's always the whole content that is consumed
+        response_to_io_result(self.try_send(content)).map(|_| content.len())
     }
 
     fn write_all(&mut self, content: &[u8]) -> io::Result<()> {
-- 
2.43.0


From 163082632b8bcb71cd92979f8c5a9942a34af3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 04/30] fix: respond with an error if the response is dropped
 during a panic

---
 src/response.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 3390853..9a0822d 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -41,6 +41,7 @@ use std::string::{FromUtf8Error};
 use std::fs::File;
 use std::path::{Path, PathBuf};
 use std::fmt;
+use std::thread;
 
 use hyper;
 
@@ -836,7 +837,17 @@ impl<'a, 'b> Drop for Response<'a, 'b> {
     ///Writes status code and headers and closes the connection.
     fn drop(&mut self) {
         if self.writer.is_some() {
-            self.send_sized(&[][..]);
+            if thread::panicking() {
+                //Don't make it look like a success and don't risk another
+                //panic in the filters. Hyper will send an empty 500 (internal
+                //server error) response.
+                if let Some(mut writer) = self.writer.take() {
+                    writer.headers_mut().remove_raw("content-length");
+                    writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
+                }
+            } else {
+                self.send_sized(&[][..]);
+            }
         }
     }
 }
-- 
2.43.0


From 7bd90b39227514e5994a0c335996be3aebe74ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 05/30] fix: don't finish a chunked response that is
 interrupted by a panic

---
 src/response.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 9a0822d..b86ae07 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -459,6 +459,14 @@ impl<'a> MaybeMock<hyper::server::response::Response<'a, hyper::net::Streaming>>
             Ok(())
         }
     }
+
+    ///Leave the response unfinished and don't reuse the connection.
+    fn abort(self) {
+        if let MaybeMock::Actual(response) = self {
+            let (_, _, _, headers) = response.deconstruct();
+            headers.set(Connection(vec![ConnectionOption::Close]));
+        }
+    }
 }
 
 impl<'a> Write for MaybeMock<hyper::server::response::Response<'a, hyper::net::Streaming>> {
@@ -965,8 +973,14 @@ impl<'a, 'b> Chunked<'a, 'b> {
     }
 
     fn finish(&mut self) -> Result<(), Error> {
+        //Keep the writer in place while the filters are running, in case they panic
+        let write_queue = match self.writer {
+            Some(Ok(_)) => filter_end(self.filters, self.global, &mut self.filter_storage),
+            _ => Ok(vec![])
+        };
+
         let mut writer = try!(self.writer.take().expect("can only finish once"));
-        let write_queue = try!(filter_end(self.filters, self.global, &mut self.filter_storage));
+        let write_queue = try!(write_queue);
 
         for action in write_queue {
             try!{
@@ -1012,7 +1026,12 @@ impl<'a, 'b> Write for Chunked<'a, 'b> {
 impl<'a, 'b> Drop for Chunked<'a, 'b> {
     ///Finishes writing and closes the connection.
     fn drop(&mut self) {
-        if self.writer.is_some() {
+        if thread::panicking() {
+            //Leave the body unfinished, so the client can tell that it's cut off
+            if let Some(Ok(writer)) = self.writer.take() {
+                writer.abort();
+            }
+        } else if self.writer.is_some() {
             self.finish();
         }
     }
-- 
2.43.0


From ffc58afe3874c29d759be526a3f688fb9d064822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 06/30] fix: close congested connections and drop the content
 length when a filter aborts

---
 src/response.rs | 109 +++++++++++++++++++++++++++++-------------------
 1 file changed, 65 insertions(+), 44 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index b86ae07..a600175 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -653,56 +653,71 @@ impl<'a, 'b> Response<'a, 'b> {
     }
 
     fn send_sized<'d, Content: Into<Data<'d>>>(&mut self, content: Content) -> Result<(), Error> {
-        let mut writer = self.writer.take().expect("response used after drop");
         let mut filter_storage = self.filter_storage.take().expect("response used after drop");
 
         if self.filters.is_empty() {
+            let mut writer = self.writer.take().expect("response used after drop");
             if self.force_close {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
             writer.send(content.into().as_bytes()).map_err(|e| e.into())
         } else {
-            let mut buffer = vec![];
-
-            let (status, write_queue) = try!(filter_headers(
-                self.filters,
-                writer.status(),
-                writer.headers_mut(),
-                self.global,
-                &mut filter_storage
-            ));
+            let result = self.filter_sized(content, &mut filter_storage);
+            let mut writer = self.writer.take().expect("response used after drop");
             if self.force_close {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
-            *writer.status_mut() = status;
-            for action in write_queue {
-                match action {
-                    Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+
+            match result {
+                Ok(buffer) => writer.send(&buffer).map_err(|e| e.into()),
+                Err(e) => {
+                    //The content is lost, so its length is not valid anymore
+                    writer.headers_mut().remove_raw("content-length");
+                    Err(e)
                 }
             }
+        }
+    }
+
+    fn filter_sized<'d, Content: Into<Data<'d>>>(&mut self, content: Content, filter_storage: &mut AnyMap) -> Result<Vec<u8>, Error> {
+        let mut buffer = vec![];
+        let writer = self.writer.as_mut().expect("response used after drop");
 
-            let filter_result = filter_content(self.filters, content, self.global, &mut filter_storage);
-            match filter_result {
+        let (status, write_queue) = try!(filter_headers(
+            self.filters,
+            writer.status(),
+            writer.headers_mut(),
+            self.global,
+            filter_storage
+        ));
+        *writer.status_mut() = status;
+        for action in write_queue {
+            match action {
                 Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
+                Action::Next(None) => {},
                 Action::Abort(e) => return Err(Error::Filter(e)),
-                _ => {}
+                Action::SilentAbort => break
             }
+        }
 
-            let write_queue = try!(filter_end(self.filters, self.global, &mut filter_storage));
-            for action in write_queue {
-                match action {
-                    Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
-                }
-            }
+        let filter_result = filter_content(self.filters, content, self.global, filter_storage);
+        match filter_result {
+            Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
+            Action::Abort(e) => return Err(Error::Filter(e)),
+            _ => {}
+        }
 
-            writer.send(&buffer).map_err(|e| e.into())
+        let write_queue = try!(filter_end(self.filters, self.global, filter_storage));
+        for action in write_queue {
+            match action {
+                Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
+                Action::Next(None) => {},
+                Action::Abort(e) => return Err(Error::Filter(e)),
+                Action::SilentAbort => break
+            }
         }
+
+        Ok(buffer)
     }
 
     ///Send a static file with a specified MIME type to the client.
@@ -780,22 +795,28 @@ impl<'a, 'b> Response<'a, 'b> {
     ///Write the status code and headers to the client and turn the `Response`
     ///into a `Chunked` response.
     pub fn into_chunked(mut self) -> Chunked<'a, 'b> {
-        let mut writer = self.writer.take().expect("response used after drop");
+        let filter_result = {
+            let writer = self.writer.as_mut().expect("response used after drop");
 
-        //Make sure it's chunked
-        writer.headers_mut().remove::<::header::ContentLength>();
-        writer.headers_mut().remove_raw("content-length");
+            //Make sure it's chunked
+            writer.headers_mut().remove::<::header::ContentLength>();
+            writer.headers_mut().remove_raw("content-length");
 
-        let writer = filter_headers(
-            self.filters,
-            writer.status(),
-            writer.headers_mut(),
-            self.global,
-            self.filter_storage_mut()
-        ).and_then(|(status, write_queue)|{
-            if self.force_close {
-                writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
-            }
+            filter_headers(
+                self.filters,
+                writer.status(),
+                writer.headers_mut(),
+                self.global,
+                self.filter_storage.as_mut().expect("response used after drop")
+            )
+        };
+
+        let mut writer = self.writer.take().expect("response used after drop");
+        if self.force_close {
+            writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
+        }
+
+        let writer = filter_result.and_then(|(status, write_queue)|{
             *writer.status_mut() = status;
             let mut writer = try!(writer.start());
 
-- 
2.43.0


From 4647648c558fb5db118f88a2996a1c7a1ebcb2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 07/30] fix: don't reuse the connection if a file could not be
 sent in its entirety

---
 src/response.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index a600175..e122972 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -32,7 +32,7 @@
 //![raw]: struct.Raw.html
 
 use std;
-use std::io::{self, Write};
+use std::io::{self, Read, Write};
 use std::error;
 use std::borrow::Cow;
 use std::convert::From;
@@ -372,8 +372,21 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
             Err(e) => return Err(FileError::Open(e, response)),
         };
 
-        let mut writer = unsafe { response.into_raw(metadata.len()) };
-        io::copy(&mut self, &mut writer).map_err(FileError::Send).map(|_| ())
+        let length = metadata.len();
+        let mut writer = unsafe { response.into_raw(length) };
+
+        //The file may grow or shrink while it's being sent
+        match io::copy(&mut (&mut self).take(length), &mut writer) {
+            Ok(sent) if sent == length => writer.end().map_err(FileError::Send),
+            Ok(_) => {
+                writer.abort();
+                Err(FileError::Send(io::Error::new(io::ErrorKind::UnexpectedEof, "the file is shorter than expected")))
+            },
+            Err(e) => {
+                writer.abort();
+                Err(FileError::Send(e))
+            }
+        }
     }
 }
 
@@ -1133,6 +1146,13 @@ impl<'a> Raw<'a> {
         writer.end()
     }
 
+    ///Leave the response unfinished and don't reuse the connection.
+    fn abort(mut self) {
+        if let Some(Ok(writer)) = self.writer.take() {
+            writer.abort();
+        }
+    }
+
     fn borrow_writer(&mut self) -> io::Result<&mut MaybeMock<hyper::server::response::Response<'a, hyper::net::Streaming>>> {
         match self.writer {
             Some(Ok(ref mut writer)) => Ok(writer),
-- 
2.43.0


From 9093b152dee3af88908abec8431c4c49945fa43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 08/30] fix: don't count broken connections as used threads

---
 src/server/instance.rs | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 327f455..a4535ba 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -1,4 +1,6 @@
+use std::cell::RefCell;
 use std::net::SocketAddr;
+use std::sync::Arc;
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 use time;
@@ -62,7 +64,7 @@ pub struct ServerInstance<R> {
 
     threads: usize,
     keep_alive: Option<KeepAlive>,
-    threads_in_use: AtomicUsize,
+    threads_in_use: Arc<AtomicUsize>,
 
     context_filters: Vec<Box<ContextFilter>>,
     response_filters: Vec<Box<ResponseFilter>>,
@@ -81,7 +83,7 @@ impl<R: HandleRequest + 'static> ServerInstance<R> {
             content_type: config.content_type,
             threads: config.threads.unwrap_or_else(|| (num_cpus::get() * 5) / 4),
             keep_alive: config.keep_alive,
-            threads_in_use: AtomicUsize::new(0),
+            threads_in_use: Arc::new(AtomicUsize::new(0)),
             context_filters: config.context_filters,
             response_filters: config.response_filters,
             global: config.global,
@@ -229,10 +231,41 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
     }
 
     fn on_connection_start(&self) {
-        self.threads_in_use.fetch_add(1, Ordering::SeqCst);
+        ACTIVE_CONNECTION.with(|active| {
+            let mut active = active.borrow_mut();
+            //A thread can only be used once, so drop what's left of any previous connection
+            *active = None;
+            *active = Some(ActiveConnection::new(&self.threads_in_use));
+        });
     }
 
     fn on_connection_end(&self) {
+        ACTIVE_CONNECTION.with(|active| *active.borrow_mut() = None);
+    }
+}
+
+thread_local! {
+    //The end of a connection is not always announced. The thread may panic or
+    //the connection may break before it has been set up.
+    static ACTIVE_CONNECTION: RefCell<Option<ActiveConnection>> = RefCell::new(None);
+}
+
+///Counts as a used thread until it's dropped.
+struct ActiveConnection {
+    threads_in_use: Arc<AtomicUsize>
+}
+
+impl ActiveConnection {
+    fn new(threads_in_use: &Arc<AtomicUsize>) -> ActiveConnection {
+        threads_in_use.fetch_add(1, Ordering::SeqCst);
+        ActiveConnection {
+            threads_in_use: threads_in_use.clone()
+        }
+    }
+}
+
+impl Drop for ActiveConnection {
+    fn drop(&mut self) {
         self.threads_in_use.fetch_sub(1, Ordering::SeqCst);
     }
 }
-- 
2.43.0


From d3780fe461be70358ad6dd4db2e609b2486a588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 09/30] fix: don't match the parents of wildcard routes when
 looking for hyperlinks

---
 src/handler/tree_router.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 6855d5d..182cf75 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -178,9 +178,10 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                     }
                 }
 
-                matches.push((&current.item, environment.route_state.clone()));
-
+                //The other branches are either duplicates or unfinished wildcards
                 if branch == Static {
+                    matches.push((&current.item, environment.route_state.clone()));
+
                     let base_link = Link {
                         method: None,
                         path: vec![],
-- 
2.43.0


From 7fcb34aefbc1d68bd5f6e0c1dd303712839d0831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 10/30] fix: don't let a failed match affect the status of the
 next one

---
 src/handler/tree_router.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 182cf75..4b08960 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -272,8 +272,12 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             hyperlinks.dedup();
             let (mut new_environment, old_hyperlinks) = environment.replace_hyperlinks(hyperlinks);
 
+            let status = new_environment.response.status();
+
             for (handler, snapshot) in matches {
                 new_environment.route_state = snapshot;
+                //Forget about any previous failed attempts
+                new_environment.response.set_status(status);
                 if let Err(returned_environment) = handler.handle_request(new_environment) {
                     new_environment = returned_environment;
                 } else {
-- 
2.43.0


From 34ac1c508f880d5cc7a7212d6ef1f54d5312a078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 11/30] fix: don't reuse a connection with an unread request
 body

---
 src/context/body.rs    | 53 ++++++++++++++++++++++++++++++++++++++----
 src/response.rs        | 31 ++++++++++++++++++------
 src/server/instance.rs |  5 ++--
 3 files changed, 76 insertions(+), 13 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 0fc8b7c..0088114 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -4,6 +4,8 @@
 use multipart::server::{HttpRequest, Multipart};
 
 use std::io::{self, Read};
+use std::sync::Arc;
+use std::sync::atomic::{AtomicBool, Ordering};
 
 use hyper::buffer::BufReader;
 use hyper::http::h1::HttpReader;
@@ -14,7 +16,7 @@ use header::Headers;
 
 ///A reader for a request body.
 pub struct BodyReader<'a, 'b: 'a> {
-    reader: MaybeMock<HttpReader<&'a mut BufReader<&'b mut NetworkStream>>>,
+    reader: MaybeMock<TrackedReader<'a, 'b>>,
 
     #[cfg(feature = "multipart")]
     multipart_boundary: Option<String>
@@ -42,7 +44,7 @@ impl<'a, 'b> BodyReader<'a, 'b> {
         };
 
         BodyReader {
-            reader: MaybeMock::Actual(reader),
+            reader: MaybeMock::Actual(TrackedReader::new(reader)),
             multipart_boundary: boundary
         }
     }
@@ -52,7 +54,7 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     ///Internal and may change without warning.
     pub fn from_reader(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, _headers: &Headers) -> BodyReader<'a, 'b> {
         BodyReader {
-            reader: MaybeMock::Actual(reader)
+            reader: MaybeMock::Actual(TrackedReader::new(reader))
         }
     }
 
@@ -91,6 +93,16 @@ impl<'a, 'b> BodyReader<'a, 'b> {
 }
 
 impl<'a, 'b> BodyReader<'a, 'b> {
+    #[doc(hidden)]
+    ///Internal and may change without warning. A shared flag that tells if
+    ///the whole body has been read.
+    pub fn finished_flag(&self) -> Arc<AtomicBool> {
+        match self.reader {
+            MaybeMock::Actual(ref reader) => reader.finished.clone(),
+            MaybeMock::Mock => Arc::new(AtomicBool::new(true))
+        }
+    }
+
     ///Try to create a `multipart/form-data` reader from the request body.
     ///
     ///```
@@ -194,7 +206,7 @@ impl<'a, 'b> Read for BodyReader<'a, 'b> {
 #[cfg(feature = "multipart")]
 pub struct MultipartRequest<'r, 'a: 'r, 'b: 'a> {
     boundary: &'r str,
-    reader: &'r mut HttpReader<&'a mut BufReader<&'b mut NetworkStream>>
+    reader: &'r mut TrackedReader<'a, 'b>
 }
 
 #[cfg(feature = "multipart")]
@@ -218,6 +230,39 @@ impl<'r, 'a, 'b> Read for MultipartRequest<'r, 'a, 'b> {
     }
 }
 
+///A body reader that keeps track of whether there is anything left to read.
+struct TrackedReader<'a, 'b: 'a> {
+    reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>,
+    finished: Arc<AtomicBool>
+}
+
+impl<'a, 'b> TrackedReader<'a, 'b> {
+    fn new(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>) -> TrackedReader<'a, 'b> {
+        let finished = Arc::new(AtomicBool::new(is_finished(&reader)));
+        TrackedReader {
+            reader: reader,
+            finished: finished
+        }
+    }
+}
+
+impl<'a, 'b> Read for TrackedReader<'a, 'b> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let result = self.reader.read(buf);
+        self.finished.store(is_finished(&self.reader), Ordering::Relaxed);
+        result
+    }
+}
+
+fn is_finished<R>(reader: &HttpReader<R>) -> bool {
+    match *reader {
+        HttpReader::SizedReader(_, remaining) => remaining == 0,
+        HttpReader::ChunkedReader(_, remaining) => remaining == Some(0),
+        HttpReader::EofReader(_) => false,
+        HttpReader::EmptyReader(_) => true
+    }
+}
+
 enum MaybeMock<R: Read> {
     Actual(R),
     Mock
diff --git a/src/response.rs b/src/response.rs
index e122972..81fd57e 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -42,6 +42,8 @@ use std::fs::File;
 use std::path::{Path, PathBuf};
 use std::fmt;
 use std::thread;
+use std::sync::Arc;
+use std::sync::atomic::{AtomicBool, Ordering};
 
 use hyper;
 
@@ -510,7 +512,8 @@ pub struct Response<'a, 'b> {
     filters: &'b [Box<ResponseFilter>],
     global: &'b Global,
     filter_storage: Option<AnyMap>,
-    force_close: bool
+    force_close: bool,
+    body_finished: Option<Arc<AtomicBool>>
 }
 
 impl<'a, 'b> Response<'a, 'b> {
@@ -527,10 +530,23 @@ impl<'a, 'b> Response<'a, 'b> {
             filters: filters,
             global: global,
             filter_storage: Some(AnyMap::new()),
-            force_close: force_close
+            force_close: force_close,
+            body_finished: None
         }
     }
 
+    #[doc(hidden)]
+    ///Internal and may change without warning. Anything that is left of the
+    ///request body would be mistaken for the next request, so the connection
+    ///can't be reused unless this flag is set.
+    pub fn close_unless(&mut self, body_finished: Arc<AtomicBool>) {
+        self.body_finished = Some(body_finished);
+    }
+
+    fn must_close(&self) -> bool {
+        self.force_close || self.body_finished.as_ref().map_or(false, |f| !f.load(Ordering::Relaxed))
+    }
+
     ///Create a non-functional `Response` for testing purposes.
     pub fn mock(global: &'b Global) -> Response<'static, 'b> {
         Response {
@@ -538,7 +554,8 @@ impl<'a, 'b> Response<'a, 'b> {
             filters: &[],
             global: global,
             filter_storage: Some(AnyMap::new()),
-            force_close: false
+            force_close: false,
+            body_finished: None
         }
     }
 
@@ -670,14 +687,14 @@ impl<'a, 'b> Response<'a, 'b> {
 
         if self.filters.is_empty() {
             let mut writer = self.writer.take().expect("response used after drop");
-            if self.force_close {
+            if self.must_close() {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
             writer.send(content.into().as_bytes()).map_err(|e| e.into())
         } else {
             let result = self.filter_sized(content, &mut filter_storage);
             let mut writer = self.writer.take().expect("response used after drop");
-            if self.force_close {
+            if self.must_close() {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
 
@@ -825,7 +842,7 @@ impl<'a, 'b> Response<'a, 'b> {
         };
 
         let mut writer = self.writer.take().expect("response used after drop");
-        if self.force_close {
+        if self.must_close() {
             writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
         }
 
@@ -862,7 +879,7 @@ impl<'a, 'b> Response<'a, 'b> {
     pub unsafe fn into_raw(mut self, content_length: u64) -> Raw<'a> {
         let mut writer = self.writer.take().expect("response used after drop");
 
-        if self.force_close {
+        if self.must_close() {
             writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
         }
         writer.headers_mut().remove_raw("content-length");
diff --git a/src/server/instance.rs b/src/server/instance.rs
index a4535ba..d73f9d8 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -158,6 +158,9 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
         response.headers_mut().set(ContentType(self.content_type.clone()));
         response.headers_mut().set(hyper::header::Server(self.server.clone()));
 
+        let body = context::body::BodyReader::from_reader(request_reader, &request_headers);
+        response.close_unless(body.finished_flag());
+
         let path_components = match request_uri {
             RequestUri::AbsoluteUri(url) => Some(parse_url(&url)),
             RequestUri::AbsolutePath(path) => Some(parse_path(&path)),
@@ -181,8 +184,6 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
                     });
                 }
 
-                let body = context::body::BodyReader::from_reader(request_reader, &request_headers);
-
                 let mut context = Context {
                     headers: request_headers,
                     http_version: request_version,
-- 
2.43.0


From 36cd6075dfb48824d445c79981765ca5fc226710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 12/30] fix: don't panic when ending a chunked response that
 failed to start

---
 src/response.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 81fd57e..488e0dd 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1030,7 +1030,11 @@ impl<'a, 'b> Chunked<'a, 'b> {
             _ => Ok(vec![])
         };
 
-        let mut writer = try!(self.writer.take().expect("can only finish once"));
+        let mut writer = match self.writer.take() {
+            Some(writer) => try!(writer),
+            //It failed before and the error has already been reported
+            None => return Err(Error::Io(io::Error::new(io::ErrorKind::BrokenPipe, "end after close")))
+        };
         let write_queue = try!(write_queue);
 
         for action in write_queue {
-- 
2.43.0


From b9258665b52372f0d7c0caebbf08ac670c3a0787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 13/30] fix: don't send the wrong content length when a filter
 panics

---
 src/response.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index 488e0dd..119ff9c 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -713,6 +713,9 @@ impl<'a, 'b> Response<'a, 'b> {
         let mut buffer = vec![];
         let writer = self.writer.as_mut().expect("response used after drop");
 
+        //The length is not known until the end, and a filter may still panic
+        writer.headers_mut().remove_raw("content-length");
+
         let (status, write_queue) = try!(filter_headers(
             self.filters,
             writer.status(),
-- 
2.43.0


From 801a345cb524541df0bae450121eb9bdd09738b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:36 +0000
Subject: [PATCH 14/30] fix: don't hang on multipart bodies without an end

---
 src/context/body.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 0088114..3f74735 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -159,7 +159,8 @@ impl<'a, 'b> BodyReader<'a, 'b> {
             self.multipart_boundary.as_ref().and_then(move |boundary|
                 Multipart::from_request(MultipartRequest {
                     boundary: boundary,
-                    reader: reader
+                    reader: reader,
+                    reads_after_end: 0
                 }).ok()
             )
         } else {
@@ -206,9 +207,16 @@ impl<'a, 'b> Read for BodyReader<'a, 'b> {
 #[cfg(feature = "multipart")]
 pub struct MultipartRequest<'r, 'a: 'r, 'b: 'a> {
     boundary: &'r str,
-    reader: &'r mut TrackedReader<'a, 'b>
+    reader: &'r mut TrackedReader<'a, 'b>,
+    reads_after_end: u32
 }
 
+//The parser reads from an exhausted body a few times for each piece of data
+//that is left in its buffer, but it will also keep doing it, forever, when it
+//looks for a boundary that isn't there.
+#[cfg(feature = "multipart")]
+const MAX_READS_AFTER_END: u32 = 1 << 16;
+
 #[cfg(feature = "multipart")]
 impl<'r, 'a, 'b> HttpRequest for MultipartRequest<'r, 'a, 'b> {
     type Body = Self;
@@ -226,7 +234,16 @@ impl<'r, 'a, 'b> HttpRequest for MultipartRequest<'r, 'a, 'b> {
 impl<'r, 'a, 'b> Read for MultipartRequest<'r, 'a, 'b> {
     ///Read the request body.
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        self.reader.read(buf)
+        let result = self.reader.read(buf);
+
+        if result.as_ref().ok() == Some(&0) && !buf.is_empty() {
+            self.reads_after_end += 1;
+            if self.reads_after_end > MAX_READS_AFTER_END {
+                return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "missing multipart boundary"));
+            }
+        }
+
+        result
     }
 }
 
-- 
2.43.0


From 787596409559a84daec411d4521d3a2ee3b88a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:57 +0000
Subject: [PATCH 15/30] fix: don't finish a dropped chunked response when a
 filter panics

---
 src/response.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 119ff9c..c825dac 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -484,6 +484,19 @@ impl<'a> MaybeMock<hyper::server::response::Response<'a, hyper::net::Streaming>>
     }
 }
 
+///Leaves the response unfinished if it's dropped during a panic.
+struct AbortOnPanic<'a>(Option<MaybeMock<hyper::server::response::Response<'a, hyper::net::Streaming>>>);
+
+impl<'a> Drop for AbortOnPanic<'a> {
+    fn drop(&mut self) {
+        if thread::panicking() {
+            if let Some(writer) = self.0.take() {
+                writer.abort();
+            }
+        }
+    }
+}
+
 impl<'a> Write for MaybeMock<hyper::server::response::Response<'a, hyper::net::Streaming>> {
     fn write(&mut self, buffer: &[u8]) -> io::Result<usize> {
         if let MaybeMock::Actual(ref mut response) = *self {
@@ -1027,18 +1040,14 @@ impl<'a, 'b> Chunked<'a, 'b> {
     }
 
     fn finish(&mut self) -> Result<(), Error> {
-        //Keep the writer in place while the filters are running, in case they panic
-        let write_queue = match self.writer {
-            Some(Ok(_)) => filter_end(self.filters, self.global, &mut self.filter_storage),
-            _ => Ok(vec![])
-        };
-
         let mut writer = match self.writer.take() {
-            Some(writer) => try!(writer),
+            //The filters may panic, even when this is called from drop
+            Some(writer) => AbortOnPanic(Some(try!(writer))),
             //It failed before and the error has already been reported
             None => return Err(Error::Io(io::Error::new(io::ErrorKind::BrokenPipe, "end after close")))
         };
-        let write_queue = try!(write_queue);
+        let write_queue = try!(filter_end(self.filters, self.global, &mut self.filter_storage));
+        let mut writer = writer.0.take().expect("the writer is only taken once");
 
         for action in write_queue {
             try!{
-- 
2.43.0


From 29637428a40b0f61b7abbd62d9e7b9b0b4d4c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:24 +0000
Subject: [PATCH 16/30] fix: read multipart bodies that arrive in very small
 pieces

---
 src/context/body.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 3f74735..d3ad1cb 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -160,7 +160,8 @@ impl<'a, 'b> BodyReader<'a, 'b> {
                 Multipart::from_request(MultipartRequest {
                     boundary: boundary,
                     reader: reader,
-                    reads_after_end: 0
+                    reads_after_end: 0,
+                    error: None
                 }).ok()
             )
         } else {
@@ -208,7 +209,8 @@ impl<'a, 'b> Read for BodyReader<'a, 'b> {
 pub struct MultipartRequest<'r, 'a: 'r, 'b: 'a> {
     boundary: &'r str,
     reader: &'r mut TrackedReader<'a, 'b>,
-    reads_after_end: u32
+    reads_after_end: u32,
+    error: Option<io::Error>
 }
 
 //The parser reads from an exhausted body a few times for each piece of data
@@ -217,6 +219,11 @@ pub struct MultipartRequest<'r, 'a: 'r, 'b: 'a> {
 #[cfg(feature = "multipart")]
 const MAX_READS_AFTER_END: u32 = 1 << 16;
 
+//The parser gives up on the headers of an entry when a read adds too few bytes,
+//so small pieces of the body have to be put together.
+#[cfg(feature = "multipart")]
+const MIN_READ_LEN: usize = 16;
+
 #[cfg(feature = "multipart")]
 impl<'r, 'a, 'b> HttpRequest for MultipartRequest<'r, 'a, 'b> {
     type Body = Self;
@@ -234,16 +241,33 @@ impl<'r, 'a, 'b> HttpRequest for MultipartRequest<'r, 'a, 'b> {
 impl<'r, 'a, 'b> Read for MultipartRequest<'r, 'a, 'b> {
     ///Read the request body.
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        let result = self.reader.read(buf);
+        if let Some(error) = self.error.take() {
+            return Err(error);
+        }
 
-        if result.as_ref().ok() == Some(&0) && !buf.is_empty() {
+        let mut length = 0;
+        while length < MIN_READ_LEN && length < buf.len() {
+            match self.reader.read(&mut buf[length..]) {
+                Ok(0) => break,
+                Ok(l) => length += l,
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted && length > 0 => {},
+                Err(e) => if length > 0 {
+                    self.error = Some(e);
+                    break;
+                } else {
+                    return Err(e);
+                }
+            }
+        }
+
+        if length == 0 && !buf.is_empty() {
             self.reads_after_end += 1;
             if self.reads_after_end > MAX_READS_AFTER_END {
                 return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "missing multipart boundary"));
             }
         }
 
-        result
+        Ok(length)
     }
 }
 
-- 
2.43.0


From 2416f6b30ff1adfed59d37073cb840ddda9dd220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 17/30] fix: recognize multipart boundaries that are also known
 mime values

---
 src/context/body.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index d3ad1cb..50564b7 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -28,17 +28,13 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     ///Internal and may change without warning.
     pub fn from_reader(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, headers: &Headers) -> BodyReader<'a, 'b> {
         use header::ContentType;
-        use mime::{Mime, TopLevel, SubLevel, Attr, Value};
+        use mime::{Mime, TopLevel, SubLevel, Attr};
 
         let boundary = match headers.get() {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
-                    })
+                    .map(|&(_, ref boundary)| boundary.as_str().to_owned())
             },
             _ => None
         };
@@ -62,17 +58,13 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     #[cfg(feature = "multipart")]
     pub fn mock(headers: &'b Headers) -> BodyReader<'static, 'static> {
         use header::ContentType;
-        use mime::{Mime, TopLevel, SubLevel, Attr, Value};
+        use mime::{Mime, TopLevel, SubLevel, Attr};
 
         let boundary = match headers.get() {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
-                    })
+                    .map(|&(_, ref boundary)| boundary.as_str().to_owned())
             },
             _ => None
         };
-- 
2.43.0


From 686aeb7b8271384130a3577a636709d228319562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 18/30] fix: don't look for the query in the fragment of a
 request target

---
 src/server/instance.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index d73f9d8..db7e84e 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -272,9 +272,13 @@ impl Drop for ActiveConnection {
 }
 
 fn parse_path(path: &str) -> ParsedUri {
+    //The fragment comes last and may contain a '?'
+    let (path, fragment) = parse_fragment(path);
+    let fragment = fragment.map(|f| percent_decode(f.as_bytes()).collect::<Vec<_>>().into());
+
     match path.find('?') {
         Some(index) => {
-            let (query, fragment) = parse_fragment(&path[index+1..]);
+            let query = &path[index+1..];
 
             let mut path: Vec<_> = percent_decode(path[..index].as_bytes()).collect();
             if path.is_empty() {
@@ -285,12 +289,10 @@ fn parse_path(path: &str) -> ParsedUri {
                 host: None,
                 uri_path: UriPath::Path(path.into()),
                 query: utils::parse_parameters(query.as_bytes()),
-                fragment: fragment.map(|f| percent_decode(f.as_bytes()).collect::<Vec<_>>().into()),
+                fragment: fragment
             }
         },
         None => {
-            let (path, fragment) = parse_fragment(&path);
-
             let mut path: Vec<_> = percent_decode(path.as_bytes()).collect();
             if path.is_empty() {
                 path.push(b'/');
@@ -300,7 +302,7 @@ fn parse_path(path: &str) -> ParsedUri {
                 host: None,
                 uri_path: UriPath::Path(path.into()),
                 query: Parameters::new(),
-                fragment: fragment.map(|f| percent_decode(f.as_bytes()).collect::<Vec<_>>().into())
+                fragment: fragment
             }
         }
     }
-- 
2.43.0


From cf4a3dc56f0c9ae59924b38284b12eec35e72516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 19/30] fix: give the route back when a tree router rejects a
 request

A rejected request can be passed on to another handler, for example by
OrElse, but the other handler was given a route where the segments that
matched in the tree were already consumed. It could thus match the wrong
path in another router.
---
 src/handler/tree_router.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 4b08960..9faac53 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -172,6 +172,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                     let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
                     if let Err(returned_environment) = current.item.handle_request(new_environment) {
                         environment = returned_environment.replace_hyperlinks(old_hyperlinks).0;
+                        environment.route_state.go_to(now);
                         return Err(environment);
                     } else {
                         return Ok(());
@@ -288,7 +289,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             environment = new_environment.replace_hyperlinks(old_hyperlinks).0;
         }
 
-
+        environment.route_state.go_to(now);
         Err(environment)
     }
 
-- 
2.43.0


From 5210ac40a401265f395b9eab4cb56f37146614b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 20/30] fix: don't drop the handler when on_route ends at an
 existing node

The handler was silently ignored if the route, or a longer one, had been
added before, so the result depended on the order of the routes.
---
 src/handler/tree_router.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 9faac53..f4f7e3d 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -589,6 +589,10 @@ impl<'a, T> Builder<'a, T> {
         let label = if let Some(label) = label_iter.next() {
             label
         } else {
+            let mut new_context = context.into_owned();
+            new_context.insert(VariableNames(variables.into_owned()));
+            self.node.item = T::from_handler(new_context, handler);
+
             return Builder {
                 node: self.node,
                 variables: self.variables.clone(),
@@ -604,11 +608,14 @@ impl<'a, T> Builder<'a, T> {
             variables.to_mut().push(label[1..].to_owned().into());
         }
 
-        let node = self.node.find_or_insert_router(label, || {
-            let mut new_context = context.clone().into_owned();
-            new_context.insert(VariableNames(variables.clone().into_owned()));
-            T::from_handler(new_context, handler)
-        });
+        let mut new_context = context.into_owned();
+        new_context.insert(VariableNames(variables.clone().into_owned()));
+        let mut item = Some(T::from_handler(new_context, handler));
+
+        let node = self.node.find_or_insert_router(label, || item.take().unwrap());
+        if let Some(item) = item {
+            node.item = item;
+        }
 
         Builder {
             node: node,
-- 
2.43.0


From af38ca710b27058c3e5ef616a9b84db982e6f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 21/30] fix: don't call videos images in the table of file
 types

---
 build/mime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/mime.rs b/build/mime.rs
index 0f9b1fb..e48cdb0 100644
--- a/build/mime.rs
+++ b/build/mime.rs
@@ -37,7 +37,7 @@ pub fn gen() {
             "text" => "MaybeKnown::Known(::mime::TopLevel::Text)".into(),
             "image" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
             "audio" => "MaybeKnown::Known(::mime::TopLevel::Audio)".into(),
-            "video" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
+            "video" => "MaybeKnown::Known(::mime::TopLevel::Video)".into(),
             "application" => "MaybeKnown::Known(::mime::TopLevel::Application)".into(),
             "multipart" => "MaybeKnown::Known(::mime::TopLevel::Multipart)".into(),
             "message" => "MaybeKnown::Known(::mime::TopLevel::Message)".into(),
-- 
2.43.0


From f92bdf82deae4ff1b56a14b46c8fac6ca693a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 22/30] fix: keep the bytes of queries in absolute request
 targets

The query of an absolute request target was decoded as text by the url
library, where bytes that aren't UTF-8 were replaced and empty parameters
vanished, while the same query after a plain path was kept as it was.
---
 src/server/instance.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index db7e84e..433b2ec 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -319,9 +319,7 @@ fn parse_url(url: &Url) -> ParsedUri {
     let mut path = vec![];
     path.extend(percent_decode(url.path().as_bytes()));
 
-    let query = url.query_pairs()
-        .map(|(k, v)| (k.into_owned(), v.into_owned()))
-        .collect();
+    let query = url.query().map_or_else(Parameters::new, |query| utils::parse_parameters(query.as_bytes()));
 
     let host = url.host_str().map(|host| (host.into(), url.port()));
 
-- 
2.43.0


From 2cde48bf00a4791b9a101fd763d3eafec4dfd31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 23/30] fix: ignore the content length of chunked request
 bodies

---
 src/context/body.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 50564b7..27f5c0c 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -12,7 +12,7 @@ use hyper::http::h1::HttpReader;
 use hyper::net::NetworkStream;
 
 use context::Parameters;
-use header::Headers;
+use header::{Encoding, Headers, TransferEncoding};
 
 ///A reader for a request body.
 pub struct BodyReader<'a, 'b: 'a> {
@@ -40,7 +40,7 @@ impl<'a, 'b> BodyReader<'a, 'b> {
         };
 
         BodyReader {
-            reader: MaybeMock::Actual(TrackedReader::new(reader)),
+            reader: MaybeMock::Actual(TrackedReader::new(reader, headers)),
             multipart_boundary: boundary
         }
     }
@@ -48,9 +48,9 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     #[doc(hidden)]
     #[cfg(not(feature = "multipart"))]
     ///Internal and may change without warning.
-    pub fn from_reader(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, _headers: &Headers) -> BodyReader<'a, 'b> {
+    pub fn from_reader(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, headers: &Headers) -> BodyReader<'a, 'b> {
         BodyReader {
-            reader: MaybeMock::Actual(TrackedReader::new(reader))
+            reader: MaybeMock::Actual(TrackedReader::new(reader, headers))
         }
     }
 
@@ -270,7 +270,17 @@ struct TrackedReader<'a, 'b: 'a> {
 }
 
 impl<'a, 'b> TrackedReader<'a, 'b> {
-    fn new(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>) -> TrackedReader<'a, 'b> {
+    fn new(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, headers: &Headers) -> TrackedReader<'a, 'b> {
+        //Hyper prefers Content-Length, but it has to be ignored if the body is chunked
+        let reader = match reader {
+            HttpReader::SizedReader(reader, len) => if is_chunked(headers) {
+                HttpReader::ChunkedReader(reader, None)
+            } else {
+                HttpReader::SizedReader(reader, len)
+            },
+            reader => reader
+        };
+
         let finished = Arc::new(AtomicBool::new(is_finished(&reader)));
         TrackedReader {
             reader: reader,
@@ -287,6 +297,12 @@ impl<'a, 'b> Read for TrackedReader<'a, 'b> {
     }
 }
 
+fn is_chunked(headers: &Headers) -> bool {
+    headers.get::<TransferEncoding>()
+        .and_then(|encodings| encodings.last())
+        .map_or(false, |encoding| *encoding == Encoding::Chunked)
+}
+
 fn is_finished<R>(reader: &HttpReader<R>) -> bool {
     match *reader {
         HttpReader::SizedReader(_, remaining) => remaining == 0,
-- 
2.43.0


From 69d9fb025dbef77413fc5274267afc5867bb2e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:18 +0000
Subject: [PATCH 24/30] fix: apply the builder context to the handler of a
 merged tree without path variables

---
 src/handler/tree_router.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index f4f7e3d..2e23e3d 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -353,16 +353,21 @@ impl<T: FromHandler<H>, H> FromHandler<H> for TreeRouter<T> {
 
 impl<T: ApplyContext> ApplyContext for TreeRouter<T> {
     fn apply_context(&mut self, mut context: BuilderContext) {
-        if let Some(VariableNames(variables)) = context.remove() {
+        let variables = context.remove::<VariableNames>();
+
+        if let Some(ref variables) = variables {
             let mut variable_context = BuilderContext::new();
-            variable_context.insert(VariableNames(variables.clone()));
+            variable_context.insert(variables.clone());
 
             self.item.prepend_context(variable_context);
-            self.item.apply_context(context.clone());
-
-            context.insert(VariableNames(variables));
         }
 
+        //The rest of the context is meant for the item, even without variables
+        self.item.apply_context(context.clone());
+
+        if let Some(variables) = variables {
+            context.insert(variables);
+        }
 
         for (_, mut node) in &mut self.static_routes {
             node.apply_context(context.clone());
-- 
2.43.0


From c3f88eae48da114e71dfb8ce5821c1b536f4d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:25 +0000
Subject: [PATCH 25/30] fix: don't report the end of a raw response as a
 success after a lost error

---
 src/response.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index c825dac..cb416ba 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1173,19 +1173,29 @@ impl<'a> Raw<'a> {
     pub fn end(mut self) -> io::Result<()> {
         let writer = match self.writer.take() {
             Some(Ok(writer)) => writer,
-            None => return Ok(()), //It has already ended
+            //It failed before and the error has already been taken
+            None => return Err(io::Error::new(io::ErrorKind::BrokenPipe, "end after close")),
             Some(Err(e)) => return Err(e)
         };
         writer.end()
     }
 
     ///Leave the response unfinished and don't reuse the connection.
-    fn abort(mut self) {
+    fn abort(&mut self) {
         if let Some(Ok(writer)) = self.writer.take() {
             writer.abort();
         }
     }
 
+    ///A part of the content is missing if a write fails, so the response can't
+    ///be completed anymore. Hyper would forget about it.
+    fn check_write<T>(&mut self, result: io::Result<T>) -> io::Result<T> {
+        if result.is_err() {
+            self.abort();
+        }
+        result
+    }
+
     fn borrow_writer(&mut self) -> io::Result<&mut MaybeMock<hyper::server::response::Response<'a, hyper::net::Streaming>>> {
         match self.writer {
             Some(Ok(ref mut writer)) => Ok(writer),
@@ -1199,13 +1209,13 @@ impl<'a> Raw<'a> {
 
 impl<'a> Write for Raw<'a> {
     fn write(&mut self, content: &[u8]) -> io::Result<usize> {
-        let writer = try!(self.borrow_writer());
-        writer.write(content)
+        let result = try!(self.borrow_writer()).write(content);
+        self.check_write(result)
     }
 
     fn write_all(&mut self, content: &[u8]) -> io::Result<()> {
-        let writer = try!(self.borrow_writer());
-        writer.write_all(content)
+        let result = try!(self.borrow_writer()).write_all(content);
+        self.check_write(result)
     }
 
     fn flush(&mut self) -> io::Result<()> {
-- 
2.43.0


From 0d44f621a18a55346b660066d3d97ab75a3c6279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 26/30] fix: don't continue a chunked response after a part of
 it was lost

---
 src/response.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index cb416ba..c481e90 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1022,7 +1022,14 @@ impl<'a, 'b> Chunked<'a, 'b> {
 
         match write_result {
             Some(Ok(l)) => Ok(l),
-            Some(Err(e)) => Err(Error::Io(e)),
+            Some(Err(e)) => {
+                //A part of the content is missing, so the response can't be
+                //completed anymore. Hyper would forget about it.
+                if let Some(Ok(writer)) = self.writer.take() {
+                    writer.abort();
+                }
+                Err(Error::Io(e))
+            },
             None => match filter_result {
                 Action::Abort(e) => Err(Error::Filter(e)),
                 //Nothing is written if the content was held back or silently dropped
-- 
2.43.0


From 8f2b7be9cb90324c40bed3f352071eb46f619885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 27/30] fix: don't read on after an error in a chunked request
 body

---
 src/context/body.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 27f5c0c..acb0d9c 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -266,7 +266,8 @@ impl<'r, 'a, 'b> Read for MultipartRequest<'r, 'a, 'b> {
 ///A body reader that keeps track of whether there is anything left to read.
 struct TrackedReader<'a, 'b: 'a> {
     reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>,
-    finished: Arc<AtomicBool>
+    finished: Arc<AtomicBool>,
+    failed: bool
 }
 
 impl<'a, 'b> TrackedReader<'a, 'b> {
@@ -284,16 +285,35 @@ impl<'a, 'b> TrackedReader<'a, 'b> {
         let finished = Arc::new(AtomicBool::new(is_finished(&reader)));
         TrackedReader {
             reader: reader,
-            finished: finished
+            finished: finished,
+            failed: false
         }
     }
 }
 
 impl<'a, 'b> Read for TrackedReader<'a, 'b> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if self.failed {
+            return Err(io::Error::new(io::ErrorKind::Other, "the body could not be read"));
+        }
+
         let result = self.reader.read(buf);
-        self.finished.store(is_finished(&self.reader), Ordering::Relaxed);
-        result
+
+        //Hyper loses track of the chunks after an error. It would report the
+        //end of the body or continue in the middle of something.
+        if let (&HttpReader::ChunkedReader(..), &Err(_)) = (&self.reader, &result) {
+            self.failed = true;
+        }
+
+        self.finished.store(!self.failed && is_finished(&self.reader), Ordering::Relaxed);
+
+        match result {
+            Err(ref e) if self.failed && e.kind() == io::ErrorKind::Interrupted => {
+                //There's no use in trying again
+                Err(io::Error::new(io::ErrorKind::Other, "the body could not be read"))
+            },
+            result => result
+        }
     }
 }
 
-- 
2.43.0


From f4b503723db47027304db6a4d5270cebd6cd4050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:49 +0000
Subject: [PATCH 28/30] fix: don't complete a chunked response that filter data
 couldn't be written to

Data from the filters' begin and end steps is written outside of try_send, and
a failed write there left the response to be ended properly and the connection
to be reused, as if nothing was missing.
---
 src/response.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index c481e90..6efe662 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -868,7 +868,11 @@ impl<'a, 'b> Response<'a, 'b> {
 
             for action in write_queue {
                 match action {
-                    Action::Next(Some(content)) => try!(writer.write_all(content.as_bytes())),
+                    Action::Next(Some(content)) => if let Err(e) = writer.write_all(content.as_bytes()) {
+                        //A part of the content is missing, as in `try_send`
+                        writer.abort();
+                        return Err(Error::Io(e));
+                    },
                     Action::Next(None) => {},
                     Action::Abort(e) => return Err(Error::Filter(e)),
                     Action::SilentAbort => break
@@ -1057,12 +1061,14 @@ impl<'a, 'b> Chunked<'a, 'b> {
         let mut writer = writer.0.take().expect("the writer is only taken once");
 
         for action in write_queue {
-            try!{
-                match action {
-                    Action::Next(Some(content)) => writer.write_all(content.as_bytes()),
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    _ => Ok(())
-                }
+            match action {
+                Action::Next(Some(content)) => if let Err(e) = writer.write_all(content.as_bytes()) {
+                    //A part of the content is missing, as in `try_send`
+                    writer.abort();
+                    return Err(Error::Io(e));
+                },
+                Action::Abort(e) => return Err(Error::Filter(e)),
+                _ => {}
             }
         }
 
-- 
2.43.0


From d04240dfa5201122e36a666457c96e659c10f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 29/30] fix: don't reuse a connection where a part of the
 content couldn't be written

The content of a response with a known size is sent by hyper, which forgets
about a failed write and lets the next response begin in the middle of it.
---
 src/response.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 6efe662..16dc110 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -450,8 +450,20 @@ impl<'a> MaybeMock<hyper::server::response::Response<'a>> {
     }
 
     fn send(self, payload: &[u8]) -> io::Result<()> {
-        if let MaybeMock::Actual(response) = self {
-            response.send(payload)
+        if let MaybeMock::Actual(mut response) = self {
+            response.headers_mut().set(::header::ContentLength(payload.len() as u64));
+            let mut response = try!(response.start());
+            match response.write_all(payload) {
+                Ok(()) => response.end(),
+                Err(e) => {
+                    //A part of the content is missing, unless this kind of
+                    //response doesn't have any. Hyper would forget about it.
+                    if e.kind() != io::ErrorKind::WriteZero {
+                        MaybeMock::Actual(response).abort();
+                    }
+                    Err(e)
+                }
+            }
         } else {
             Ok(())
         }
-- 
2.43.0


From a6c27b1bc6e9c57da94dce3a50eda627c996e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:56 +0000
Subject: [PATCH 30/30] fix: don't panic when a route with an empty segment is
 added to a tree

A request with repeated slashes has empty segments, and get_path looks for
them, but path and on_path panicked while they were building `a//b`.
---
 src/handler/tree_router.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 2e23e3d..70b3ab0 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -462,7 +462,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if let Some(&b':') | Some(&b'*') = segment.get(0) {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
@@ -511,7 +511,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if let Some(&b':') | Some(&b'*') = segment.get(0) {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
-- 
2.43.0

