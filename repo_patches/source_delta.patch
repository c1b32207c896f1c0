From b41df6484d2d81010e350a6f32187c2e78ae9079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 1/8] fix: give Rc/Arc the ID the serializer assigned them when
 their contents contain other Rc/Arc

The serializer numbered shared objects before their contents and the
deserializer numbered them after, so a value sharing an Rc that itself
contained an Rc was decoded to a different object (or panicked).
---
 src/builtins.rs |  6 ++++--
 src/serde.rs    | 46 ++++++++++++++++++++++++++++++++++------------
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/builtins.rs b/src/builtins.rs
index 026655f..ef00733 100644
--- a/src/builtins.rs
+++ b/src/builtins.rs
@@ -180,8 +180,9 @@ unsafe impl<T: 'static + Object> NonTrivialObject for Rc<T> {
         let id = d.deserialize::<usize>()?;
         match std::num::NonZeroUsize::new(id) {
             None => {
+                let id = d.reserve_cyclic();
                 let rc = Self::new(d.deserialize()?);
-                d.learn_cyclic(rc.clone());
+                d.learn_reserved_cyclic(id, rc.clone());
                 Ok(rc)
             }
             Some(id) => Ok(d.get_cyclic::<Rc<T>>(id).clone()),
@@ -205,8 +206,9 @@ unsafe impl<T: 'static + Object> NonTrivialObject for Arc<T> {
         let id = d.deserialize::<usize>()?;
         match std::num::NonZeroUsize::new(id) {
             None => {
+                let id = d.reserve_cyclic();
                 let rc = Self::new(d.deserialize()?);
-                d.learn_cyclic(rc.clone());
+                d.learn_reserved_cyclic(id, rc.clone());
                 Ok(rc)
             }
             Some(id) => Ok(d.get_cyclic::<Arc<T>>(id).clone()),
diff --git a/src/serde.rs b/src/serde.rs
index 516fd33..1968f3f 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -117,7 +117,7 @@ pub struct Deserializer {
     data: Vec<u8>,
     pub(crate) handles: std::vec::IntoIter<OwnedHandle>,
     pos: usize,
-    cyclics: Vec<Box<dyn Any>>,
+    cyclics: Vec<Option<Box<dyn Any>>>,
 }
 
 impl Deserializer {
@@ -186,13 +186,33 @@ impl Deserializer {
     }
 
     /// Store a reference to a newly built potentially cyclic object.
+    ///
+    /// If the contents of the object may themselves contain potentially cyclic objects, the ID has
+    /// to be allocated before the contents are deserialized. Use [`Deserializer::reserve_cyclic`]
+    /// and [`Deserializer::learn_reserved_cyclic`] in this case.
     pub fn learn_cyclic<T: 'static>(&mut self, obj: T) {
-        self.cyclics.push(Box::new(obj));
+        let id = self.reserve_cyclic();
+        self.learn_reserved_cyclic(id, obj);
+    }
+
+    /// Allocate an ID for a potentially cyclic object that is about to be built.
+    ///
+    /// IDs are allocated in the same order in which [`Serializer::learn_cyclic`] has been called.
+    pub fn reserve_cyclic(&mut self) -> NonZeroUsize {
+        self.cyclics.push(None);
+        NonZeroUsize::new(self.cyclics.len()).expect("Too many cyclic objects")
+    }
+
+    /// Store a reference to a newly built potentially cyclic object under a reserved ID.
+    pub fn learn_reserved_cyclic<T: 'static>(&mut self, id: NonZeroUsize, obj: T) {
+        self.cyclics[id.get() - 1] = Some(Box::new(obj));
     }
 
     /// Get a reference to an object built earlier.
     pub fn get_cyclic<T: 'static>(&self, id: NonZeroUsize) -> &T {
         self.cyclics[id.get() - 1]
+            .as_ref()
+            .expect("The cyclic object has not been built yet")
             .downcast_ref()
             .expect("The cyclic object is of unexpected type")
     }
@@ -281,17 +301,19 @@ impl fmt::Debug for Deserializer {
 ///         match std::num::NonZeroUsize::new(id) {
 ///             None => {
 ///                 // If 0 is stored, this is the first time we see this object -- decode its
-///                 // contents
+///                 // contents. The contents may include other cyclic objects, and the serializer
+///                 // has seen this object before them, so allocate the ID first.
+///                 let id = d.reserve_cyclic();
 ///                 let rc = Rc::<T>::new(d.deserialize()?);
-///                 // Tell the deserializer about this object. Note that you don't specify the ID:
-///                 // learn_cyclic infers it automatically. To make sure numeration is consistent
-///                 // with the serializer, call learn_cyclic in the same order in both. For
-///                 // instance, when encoding a set, make sure that data is serialized in the same
-///                 // order as it is deserialized. This should already be the case unless you
-///                 // serialize data in a very bizarre way. Also, notice that learn_cyclic does not
-///                 // have to store the exact object you are deserializing in: in this case, we
-///                 // store the Rc itself, not CustomRc.
-///                 d.learn_cyclic(rc.clone());
+///                 // Tell the deserializer about this object. Note that you don't choose the ID:
+///                 // reserve_cyclic infers it automatically. To make sure numeration is consistent
+///                 // with the serializer, call reserve_cyclic in the same order as learn_cyclic is
+///                 // called in the serializer. For instance, when encoding a set, make sure that
+///                 // data is serialized in the same order as it is deserialized. This should
+///                 // already be the case unless you serialize data in a very bizarre way. Also,
+///                 // notice that learn_reserved_cyclic does not have to store the exact object you
+///                 // are deserializing in: in this case, we store the Rc itself, not CustomRc.
+///                 d.learn_reserved_cyclic(id, rc.clone());
 ///                 Ok(Self(rc))
 ///             }
 ///             Some(id) => {
-- 
2.43.0


From ac0a9c4c634c6010b4e83e01e59b7b425b0276c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 2/8] fix: report an error when file descriptors of a received
 object are dropped by the kernel

On reaching the descriptor limit, recvmsg sets MSG_CTRUNC and drops
descriptors. This went unnoticed, and decoding the object panicked.
---
 src/platform/unix/internals.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index 6ed9670..213bf58 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -121,6 +121,7 @@ pub(crate) struct SingleObjectReceiver<'a, T: Object> {
     value: MaybeUninit<T>,
     fds: Vec<OwnedFd>,
     flags: RecvFlags,
+    fds_truncated: bool,
     terminated: bool,
     marker: PhantomData<fn() -> T>,
 }
@@ -140,6 +141,7 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
             } else {
                 RecvFlags::DONTWAIT
             },
+            fds_truncated: false,
             terminated: false,
             marker: PhantomData,
         }
@@ -193,8 +195,15 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 self.fds.extend(rights);
             }
 
+            // If the file descriptor limit is exceeded, the kernel drops the rest of the file
+            // descriptors and raises this flag. The error is reported when the whole object is
+            // consumed so that the next object on the stream can still be received.
+            if message.flags.bits() & libc::MSG_CTRUNC as u32 != 0 {
+                self.fds_truncated = true;
+            }
+
             if message.bytes == 0 {
-                if self.data_pos == 0 && self.fds.is_empty() {
+                if self.data_pos == 0 && self.fds.is_empty() && !self.fds_truncated {
                     return Ok(None);
                 } else {
                     return Err(Error::new(ErrorKind::Other, "Unterminated data on stream"));
@@ -215,6 +224,13 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
 
             self.terminated = true;
 
+            if self.fds_truncated {
+                return Err(Error::new(
+                    ErrorKind::Other,
+                    "Failed to receive file descriptors: limit exceeded",
+                ));
+            }
+
             if implements!(T: PlainOldData) {
                 return Ok(Some(unsafe { self.value.assume_init_read() }));
             }
-- 
2.43.0


From 9c52387f1e255d5f04baeac0f42d59df46c10e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 3/8] fix: resume sending/receiving an object after an
 interrupted system call

A signal arriving while a multi-packet object is being transferred made
send/recv fail halfway through, after which the next object on the
channel was glued to the partial one.
---
 src/platform/unix/internals.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index 213bf58..0690526 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -1,6 +1,7 @@
 use crate::{imp::implements, pod::PlainOldData, Deserializer, Object, Serializer};
 use rustix::{
     cmsg_space,
+    io::Errno,
     net::{
         self, recvmsg, sendmsg, AddressFamily, RecvAncillaryBuffer, RecvAncillaryMessage,
         RecvFlags, SendAncillaryBuffer, SendAncillaryMessage, SendFlags, SocketFlags, SocketType,
@@ -86,7 +87,7 @@ impl<'a> SingleObjectSender<'a> {
                 &self.fds[self.fds_pos..fds_end],
             )));
 
-            let n_written = sendmsg(
+            let n_written = match sendmsg(
                 self.socket_fd,
                 &[
                     IoSlice::new(&[is_last as u8]),
@@ -94,7 +95,11 @@ impl<'a> SingleObjectSender<'a> {
                 ],
                 &mut cmsg_buffer,
                 self.flags,
-            )?;
+            ) {
+                // Bailing out would leave an unterminated object on the stream
+                Err(Errno::INTR) => continue,
+                result => result?,
+            };
 
             self.data_pos += n_written - 1;
             self.fds_pos = fds_end;
@@ -178,12 +183,16 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 IoSliceMut::new(&mut data[self.data_pos..]),
             ];
 
-            let message = recvmsg(
+            let message = match recvmsg(
                 self.socket_fd,
                 &mut iovecs,
                 &mut cmsg_buffer,
                 self.flags | RecvFlags::CMSG_CLOEXEC,
-            )?;
+            ) {
+                // Bailing out would lose the part of the object that has already been received
+                Err(Errno::INTR) => continue,
+                result => result?,
+            };
 
             for cmsg in cmsg_buffer.drain() {
                 let RecvAncillaryMessage::ScmRights(rights) = cmsg else {
-- 
2.43.0


From da77ec1b30d6e6dfc1da01f2bacd74f2d02b7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 4/8] fix: retry waitpid when it is interrupted by a signal

Otherwise the outcome of the child was lost, and the child could neither
be joined again nor killed.
---
 src/asynchronous.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index 9eadaed..2f489c1 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -531,10 +531,12 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
         // This is synchronous, but should be really fast
         #[cfg(unix)]
         {
-            let status = rustix::process::waitpid(
-                Some(self.proc_handle),
-                rustix::process::WaitOptions::empty(),
-            )?
+            let status = rustix::io::retry_on_intr(|| {
+                rustix::process::waitpid(
+                    Some(self.proc_handle),
+                    rustix::process::WaitOptions::empty(),
+                )
+            })?
             .unwrap();
             if status.exit_status() == Some(0) {
                 value.ok_or_else(|| {
-- 
2.43.0


From ac21415dcf2eb40b8c4ac6fc7f6299cf19296b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 5/8] fix: number cyclic objects inside temporaries
 consistently with the deserializer

serialize_temporary started numbering from scratch, while the
deserializer uses one numbering for the whole stream, so a temporary
containing Rc/Arc was decoded incorrectly.
---
 src/serde.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 1968f3f..cf60db1 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -22,6 +22,7 @@ pub struct Serializer<'fd> {
     data: Vec<u8>,
     handles: Vec<BorrowedHandle<'fd>>,
     cyclic_ids: HashMap<*const c_void, NonZeroUsize>,
+    cyclic_count: usize,
 }
 
 impl<'fd> Serializer<'fd> {
@@ -31,6 +32,7 @@ impl<'fd> Serializer<'fd> {
             data: Vec::new(),
             handles: Vec::new(),
             cyclic_ids: HashMap::new(),
+            cyclic_count: 0,
         }
     }
 
@@ -54,12 +56,16 @@ impl<'fd> Serializer<'fd> {
     ///
     /// Panics if the object contains file handles.
     pub fn serialize_temporary<T: Object>(&mut self, data: T) {
+        // The addresses of cyclic objects inside the temporary are not going to be valid for long,
+        // so don't remember them, but do number the objects just like the deserializer does
         let mut s1 = Serializer::new();
+        s1.cyclic_count = self.cyclic_count;
         s1.serialize(&data);
         assert!(
             s1.handles.is_empty(),
             "serialize_temporary invoked with an object containing file handles"
         );
+        self.cyclic_count = s1.cyclic_count;
         self.write(&s1.into_vec());
     }
 
@@ -75,11 +81,13 @@ impl<'fd> Serializer<'fd> {
 
     /// Check if an object has already been serialized in this session and return its index.
     pub fn learn_cyclic(&mut self, ptr: *const c_void) -> Option<NonZeroUsize> {
-        let len_before = self.cyclic_ids.len();
         match self.cyclic_ids.entry(ptr) {
             hash_map::Entry::Occupied(occupied) => Some(*occupied.get()),
             hash_map::Entry::Vacant(vacant) => {
-                vacant.insert(NonZeroUsize::new(len_before + 1).expect("Too many cyclic objects"));
+                self.cyclic_count += 1;
+                vacant.insert(
+                    NonZeroUsize::new(self.cyclic_count).expect("Too many cyclic objects"),
+                );
                 None
             }
         }
-- 
2.43.0


From 80f997155611c0a503826082effff233fa84aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 6/8] fix: allow fields called "s" in enum variants in
 #[derive(Object)]

The binding of the field shadowed the serializer in the generated code,
which then failed to compile.
---
 crossmist-derive/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crossmist-derive/src/lib.rs b/crossmist-derive/src/lib.rs
index 6e88a70..a4fcd22 100644
--- a/crossmist-derive/src/lib.rs
+++ b/crossmist-derive/src/lib.rs
@@ -426,9 +426,15 @@ pub fn derive_object(input: TokenStream) -> TokenStream {
                         let (refs, sers): (Vec<_>, Vec<_>) = fields
                             .named
                             .iter()
-                            .map(|field| {
+                            .enumerate()
+                            .map(|(i, field)| {
                                 let ident = &field.ident;
-                                (quote! { ref #ident }, quote! { s.serialize(#ident); })
+                                // Don't bind to the name of the field: it might be "s"
+                                let binding = format_ident!("a{}", i);
+                                (
+                                    quote! { #ident: ref #binding },
+                                    quote! { s.serialize(#binding); },
+                                )
                             })
                             .unzip();
                         quote! {
-- 
2.43.0


From ee2ecf0820c91616432693cb0fbfaeb7e77af958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 7/8] fix: wait for the child process even if receiving its
 result fails

---
 src/asynchronous.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/asynchronous.rs b/src/asynchronous.rs
index 2f489c1..8bde1d7 100644
--- a/src/asynchronous.rs
+++ b/src/asynchronous.rs
@@ -521,11 +521,14 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
     /// it exits via [`std::process::exit`] or alike instead of returning a value, unless the return
     /// type is `()`. In that case, `Ok(())` is returned.
     pub async fn join(mut self) -> Result<T> {
-        let mut value = self.output_rx.recv().await?;
-        if let Some(void) = imp::if_void::<T>() {
+        let mut value = self.output_rx.recv().await;
+        if let (Ok(value), Some(void)) = (&mut value, imp::if_void::<T>()) {
             // The value should be None at this moment
-            value = Some(void);
+            *value = Some(void);
         }
+        // The process has to be waited for even if receiving the value fails. Make sure it does not
+        // get stuck sending something we are not going to receive
+        drop(self.output_rx);
         let mut guard = self.may_kill.lock().expect("Kill mutex is poisoned");
         *guard = false;
         // This is synchronous, but should be really fast
@@ -538,6 +541,7 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
                 )
             })?
             .unwrap();
+            let value = value?;
             if status.exit_status() == Some(0) {
                 value.ok_or_else(|| {
                     Error::new(
@@ -574,6 +578,7 @@ impl<Stream: AsyncStream, T: Object> Child<Stream, T> {
                 )
                 .ok()?;
             }
+            let value = value?;
             if code == 0 {
                 value.ok_or_else(|| {
                     Error::new(
-- 
2.43.0


From 3ba2428358cace8eae04556b473f61c7b9a50855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:09 +0000
Subject: [PATCH 8/8] fix: treat ECONNRESET as transient when receiving

A peer that closes the channel without reading everything it was sent makes the
next recvmsg fail with ECONNRESET once, even if the peer's own messages are still
queued. Failing the receive there reports an error where the next value or the
end of the stream should be, and, in the middle of an object, loses the part that
was already received, so that the rest is interpreted as another object.
---
 src/platform/unix/internals.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/platform/unix/internals.rs b/src/platform/unix/internals.rs
index 0690526..992e450 100644
--- a/src/platform/unix/internals.rs
+++ b/src/platform/unix/internals.rs
@@ -189,8 +189,10 @@ impl<'a, T: Object> SingleObjectReceiver<'a, T> {
                 &mut cmsg_buffer,
                 self.flags | RecvFlags::CMSG_CLOEXEC,
             ) {
-                // Bailing out would lose the part of the object that has already been received
-                Err(Errno::INTR) => continue,
+                // Bailing out would lose the part of the object that has already been received.
+                // ECONNRESET is reported once if the peer closes the channel without reading
+                // everything we have sent, but what it has sent itself can still be received.
+                Err(Errno::INTR | Errno::CONNRESET) => continue,
                 result => result?,
             };
 
-- 
2.43.0

