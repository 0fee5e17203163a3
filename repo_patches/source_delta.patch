From 848f44578e2a612e7f0114e6da001ccb4e2a47f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 01/38] fix: a handle stays usable after a failed operation

PoolBinding::detach/attach panicked (unreachable!) when the binding was
already in the requested state, which is the case for the next operation on a
handle whose previous query failed, and for every handle made by
Client::connect.
---
 src/pool/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 5d94fa0..892e956 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -84,14 +84,14 @@ impl PoolBinding {
     pub(crate) fn attach(&mut self) {
         match self.take() {
             PoolBinding::Detached(pool) => *self = PoolBinding::Attached(pool),
-            _ => unreachable!(),
+            binding => *self = binding,
         }
     }
 
     pub(crate) fn detach(&mut self) {
         match self.take() {
             PoolBinding::Attached(pool) => *self = PoolBinding::Detached(pool),
-            _ => unreachable!(),
+            binding => *self = binding,
         }
     }
 }
-- 
2.43.0


From 48edfa6af8ed44bf2c8c1c2aca576c9ed6673ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 02/38] fix: a connection closed by the server yields an error,
 not a panic

hello, execute, insert and the draining of an unfinished result unwrapped a
packet that is absent when the server closes the connection early.
---
 src/io/transport.rs | 7 ++++---
 src/lib.rs          | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 75f8f0e..b3c0a32 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -18,7 +18,7 @@ use pin_project::pin_project;
 
 use crate::{
     binary::Parser,
-    errors::{DriverError, Error, Result},
+    errors::{ConnectionError, DriverError, Error, Result},
     io::{read_to_end::read_to_end, Stream as InnerStream},
     pool::{Inner, Pool},
     types::{Block, Cmd, Packet},
@@ -119,7 +119,7 @@ impl ClickhouseTransport {
             }
         }
 
-        let mut transport = h.unwrap();
+        let mut transport: Self = h.ok_or_else(|| Error::Connection(ConnectionError::Broken))?;
         transport.inconsistent = false;
         Ok(transport)
     }
@@ -316,7 +316,8 @@ impl PacketStream {
             }
         }
 
-        Ok((h.unwrap(), b))
+        let transport = h.ok_or_else(|| Error::Connection(ConnectionError::Broken))?;
+        Ok((transport, b))
     }
 
     pub(crate) fn take_transport(&mut self) -> Option<ClickhouseTransport> {
diff --git a/src/lib.rs b/src/lib.rs
index c475868..85ff115 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -324,7 +324,8 @@ impl ClientHandle {
         }
 
         self.inner = h;
-        self.context.server_info = info.unwrap();
+        self.context.server_info =
+            info.ok_or_else(|| Error::Connection(ConnectionError::Broken))?;
         Ok(())
     }
 
@@ -422,7 +423,7 @@ impl ClientHandle {
                             }
                         }
 
-                        Ok(h.unwrap())
+                        h.ok_or_else(|| Error::Connection(ConnectionError::Broken))
                     }
                 })
                 .await
@@ -498,7 +499,7 @@ impl ClientHandle {
     ) -> Result<(ClickhouseTransport, Block)> {
         let stream = transport.call(Cmd::SendQuery(query, context));
         let (transport, b) = stream.read_block().await?;
-        let dst_block = b.unwrap();
+        let dst_block = b.ok_or_else(|| Error::Driver(DriverError::UnexpectedPacket))?;
         Ok((transport, dst_block))
     }
 
-- 
2.43.0


From 3b3e03dc76af2d9c35c9cde15a88f5f2015829a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 03/38] fix: packets received before the server closes the
 connection are delivered

When the last packets and the close arrived together, the buffered packets were
discarded, so e.g. a server exception was reported as an unexpected EOF.
---
 src/io/transport.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index b3c0a32..84639b0 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -286,15 +286,16 @@ impl Stream for ClickhouseTransport {
             }
         }
 
-        if *this.done {
-            return Poll::Ready(None);
-        }
-
         // Try to parse the new data!
         let ret = this.try_parse_msg();
 
         *this.buf_is_incomplete = matches!(ret, Poll::Pending);
 
+        // Packets received before the connection was closed are still delivered
+        if *this.done && ret.is_pending() {
+            return Poll::Ready(None);
+        }
+
         ret
     }
 }
-- 
2.43.0


From 84ed7413e48679498bd245044893b64cc5754293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 04/38] fix: a connection that failed while reading a result is
 not returned to the pool

After an I/O, parse or protocol error the block stream stayed in the Reading
state and its Drop put the broken transport back into the pool.
---
 src/types/query_result/stream_blocks.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/types/query_result/stream_blocks.rs b/src/types/query_result/stream_blocks.rs
index 83f6103..4e800b0 100644
--- a/src/types/query_result/stream_blocks.rs
+++ b/src/types/query_result/stream_blocks.rs
@@ -86,7 +86,10 @@ impl<'a> Stream for BlockStream<'a> {
             };
 
             let packet = match self.inner.poll_next_unpin(cx) {
-                Poll::Ready(Some(Err(err))) => return Poll::Ready(Some(Err(err.into()))),
+                Poll::Ready(Some(Err(err))) => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(err.into())));
+                }
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(None) => {
                     self.state = BlockStreamState::Error;
@@ -116,7 +119,10 @@ impl<'a> Stream for BlockStream<'a> {
                         return Poll::Ready(Some(Ok(block)));
                     }
                 }
-                _ => return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket)))),
+                _ => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket))));
+                }
             }
         }
     }
-- 
2.43.0


From 875a5c786f9fd97c0a2df60c99692a248fb3156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:33 +0000
Subject: [PATCH 05/38] fix: a query without the check ping first skips an
 abandoned result

With ping_before_query=false a query following a half-read stream on the same
connection received the remaining packets of the previous query. An exception
of the abandoned query is no longer reported as the next operation's.
---
 src/io/transport.rs |  5 ++++-
 src/lib.rs          | 39 ++++++++++++++++++++++-----------------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 84639b0..b4213ff 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -113,7 +113,10 @@ impl ClickhouseTransport {
                     h = Some(inner);
                 }
                 Ok(Packet::Eof(inner)) => h = Some(inner),
-                Ok(Packet::Exception(e)) => return Err(Error::Server(e)),
+                // This exception belongs to the abandoned query
+                Ok(Packet::Exception(_)) => {
+                    return Err(Error::Connection(ConnectionError::Broken))
+                }
                 Err(e) => return Err(Error::Io(e)),
                 _ => {}
             }
diff --git a/src/lib.rs b/src/lib.rs
index 85ff115..595820f 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -551,25 +551,30 @@ impl ClientHandle {
             Err(err) => return Box::pin(stream::once(future::err(err))),
         };
 
-        if ping_before_query {
-            let fut: BoxFuture<'a, BoxStream<'a, Result<Block>>> = Box::pin(async move {
-                let inner: BoxStream<'a, Result<Block>> = match self.check_connection().await {
-                    Ok(_) => match f(self) {
-                        Ok(s) => Box::pin(s),
-                        Err(err) => Box::pin(stream::once(future::err(err))),
-                    },
+        let fut: BoxFuture<'a, BoxStream<'a, Result<Block>>> = Box::pin(async move {
+            let ready = if ping_before_query {
+                self.check_connection().await
+            } else {
+                self.clear().await
+            };
+            let inner: BoxStream<'a, Result<Block>> = match ready {
+                Ok(_) => match f(self) {
+                    Ok(s) => Box::pin(s),
                     Err(err) => Box::pin(stream::once(future::err(err))),
-                };
-                inner
-            });
-
-            Box::pin(fut.flatten_stream())
-        } else {
-            match f(self) {
-                Ok(s) => Box::pin(s),
+                },
                 Err(err) => Box::pin(stream::once(future::err(err))),
-            }
-        }
+            };
+            inner
+        });
+
+        Box::pin(fut.flatten_stream())
+    }
+
+    /// Skips the rest of an unfinished result, if there is one.
+    async fn clear(&mut self) -> Result<()> {
+        let transport = self.get_inner()?.clear().await?;
+        self.inner = Some(transport);
+        Ok(())
     }
 
     /// Check connection and try to reconnect if necessary.
-- 
2.43.0


From e58749869d8a6715888c6d33f4e1192f62f2e2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 06/38] fix: fetch_all of a result without blocks or with
 differing blocks does not panic

---
 src/types/block/mod.rs        | 15 ++++++++++++++-
 src/types/query_result/mod.rs |  8 ++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 4ab5446..4e34297 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -275,8 +275,21 @@ impl<K: ColumnType> Block<K> {
 }
 
 impl Block<Simple> {
+    /// Returns true if the blocks have the same number of columns of the same types.
+    pub(crate) fn has_same_structure(&self, other: &Self) -> bool {
+        self.column_count() == other.column_count()
+            && self
+                .columns
+                .iter()
+                .zip(other.columns.iter())
+                .all(|(l, r)| l.sql_type() == r.sql_type())
+    }
+
     pub(crate) fn concat(blocks: &[Self]) -> Block<Complex> {
-        let first = blocks.first().expect("blocks should not be empty.");
+        let first = match blocks.first() {
+            None => return Block::default(),
+            Some(first) => first,
+        };
 
         for block in blocks {
             assert_eq!(
diff --git a/src/types/query_result/mod.rs b/src/types/query_result/mod.rs
index 720b21d..69219f6 100644
--- a/src/types/query_result/mod.rs
+++ b/src/types/query_result/mod.rs
@@ -7,7 +7,7 @@ use log::info;
 use std::{marker::PhantomData, sync::Arc};
 
 use crate::{
-    errors::Result,
+    errors::{DriverError, Error, Result},
     try_opt,
     types::{
         block::BlockRef, query_result::stream_blocks::BlockStream, Block, Cmd, Complex, Query, Row,
@@ -33,8 +33,12 @@ impl<'a> QueryResult<'a> {
             async {
                 let blocks = self
                     .stream_blocks_(false)
-                    .try_fold(Vec::new(), |mut blocks, block| {
+                    .try_fold(Vec::<Block>::new(), |mut blocks, block| {
                         if !block.is_empty() {
+                            if blocks.first().is_some_and(|b| !b.has_same_structure(&block)) {
+                                let err = Error::Driver(DriverError::UnexpectedPacket);
+                                return future::ready(Err(err));
+                            }
                             blocks.push(block);
                         }
                         future::ready(Ok(blocks))
-- 
2.43.0


From 72bfd83df74015423764c35c9588d7ab43e82a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:51 +0000
Subject: [PATCH 07/38] fix: execute and insert without a timeout do not time
 out immediately

A switched-off limit (insert_timeout=none) was turned into a zero duration.
---
 src/lib.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 595820f..1f21ef1 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -392,12 +392,10 @@ impl ClientHandle {
     where
         Query: From<Q>,
     {
-        let timeout = try_opt!(self.context.options.get())
-            .execute_timeout
-            .unwrap_or_else(|| Duration::from_secs(0));
+        let timeout = try_opt!(self.context.options.get()).execute_timeout;
         let context = self.context.clone();
         let query = Query::from(sql);
-        with_timeout(
+        with_opt_timeout(
             async {
                 self.wrap_future(move |c| {
                     info!("[execute query] {}", query.get_sql());
@@ -446,13 +444,11 @@ impl ClientHandle {
     }
 
     async fn insert_(&mut self, query: Query, block: &Block) -> Result<ClickhouseTransport> {
-        let timeout = try_opt!(self.context.options.get())
-            .insert_timeout
-            .unwrap_or_else(|| Duration::from_secs(0));
+        let timeout = try_opt!(self.context.options.get()).insert_timeout;
 
         let context = self.context.clone();
 
-        with_timeout(
+        with_opt_timeout(
             async {
                 self.wrap_future(move |c| {
                     info!("[insert]     {}", query.get_sql());
@@ -626,6 +622,17 @@ fn column_name_to_string(name: &str) -> Result<String> {
     Ok(format!("`{name}`"))
 }
 
+/// Without a limit the future is allowed to run as long as it needs.
+async fn with_opt_timeout<F, T>(future: F, timeout: Option<Duration>) -> F::Output
+where
+    F: Future<Output = Result<T>>,
+{
+    match timeout {
+        None => future.await,
+        Some(timeout) => with_timeout(future, timeout).await,
+    }
+}
+
 #[cfg(feature = "async_std")]
 async fn with_timeout<F, T>(future: F, duration: Duration) -> F::Output
 where
-- 
2.43.0


From 426e0095ce147467f770d44b39d9a37f2a60ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 08/38] fix: a percent-encoded database name in a connection
 string is decoded

---
 src/types/options.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index 5f02fb2..4c2b683 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -612,7 +612,7 @@ fn get_password_from_url(url: &Url) -> Option<Cow<'_, str>> {
     Some(percent_decode(password.as_bytes()).decode_utf8_lossy())
 }
 
-fn get_database_from_url(url: &Url) -> Result<Option<&str>> {
+fn get_database_from_url(url: &Url) -> Result<Option<Cow<'_, str>>> {
     match url.path_segments() {
         None => Ok(None),
         Some(mut segments) => {
@@ -623,7 +623,9 @@ fn get_database_from_url(url: &Url) -> Result<Option<&str>> {
             }
 
             match head {
-                Some(database) if !database.is_empty() => Ok(Some(database)),
+                Some(database) if !database.is_empty() => Ok(Some(
+                    percent_decode(database.as_bytes()).decode_utf8_lossy(),
+                )),
                 _ => Ok(None),
             }
         }
-- 
2.43.0


From ecd4a76a770bbca79b61064a3985ec98959d8344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 09/38] fix: replacing a dead connection is bounded by
 send_retries

A server that accepts connections but does not answer pings was reconnected to
forever, because successful reconnects did not count as attempts.
---
 src/retry_guard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/retry_guard.rs b/src/retry_guard.rs
index 6d68962..68c553d 100644
--- a/src/retry_guard.rs
+++ b/src/retry_guard.rs
@@ -29,7 +29,7 @@ pub(crate) async fn retry_guard(
         }
 
         match reconnect(handle, source, pool.clone()).await {
-            Ok(()) => continue,
+            Ok(()) => {}
             Err(err) => {
                 skip_check = true;
                 if attempt >= max_attempt {
-- 
2.43.0


From d980dcb63a3fe7856b0261e481b3a8e6bf87232a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:14 +0000
Subject: [PATCH 10/38] fix: a pool never owns more than pool_max connections
 nor keeps more than pool_min idle

The number of connections was derived from several queues and counters that are
updated one after another (and did not include a connection whose handshake is
being polled at the moment), so concurrent callers could exceed pool_max. Now a
permit is held from the start of the connection attempt until the socket is
closed. Idle connections are limited by the capacity of their queue.
---
 src/io/transport.rs |  15 ++++--
 src/lib.rs          |  16 ++++--
 src/pool/mod.rs     | 116 +++++++++++++++++++++++++++-----------------
 src/retry_guard.rs  |   2 +-
 4 files changed, 95 insertions(+), 54 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index b4213ff..bef579a 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -20,7 +20,7 @@ use crate::{
     binary::Parser,
     errors::{ConnectionError, DriverError, Error, Result},
     io::{read_to_end::read_to_end, Stream as InnerStream},
-    pool::{Inner, Pool},
+    pool::{Inner, Permit, Pool},
     types::{Block, Cmd, Packet},
 };
 use futures_core::Stream;
@@ -68,6 +68,7 @@ enum PacketStreamState {
 pub(crate) struct TransportStatus {
     inside: AtomicBool,
     pool: sync::Weak<Inner>,
+    _permit: Option<Permit>,
 }
 
 pub(crate) struct PacketStream {
@@ -77,7 +78,12 @@ pub(crate) struct PacketStream {
 }
 
 impl ClickhouseTransport {
-    pub fn new(inner: InnerStream, compress: bool, pool: Option<Pool>) -> Self {
+    pub fn new(
+        inner: InnerStream,
+        compress: bool,
+        pool: Option<&Pool>,
+        permit: Option<Permit>,
+    ) -> Self {
         ClickhouseTransport {
             inner,
             done: false,
@@ -91,7 +97,7 @@ impl ClickhouseTransport {
                 compress,
             },
             inconsistent: false,
-            status: Arc::new(TransportStatus::new(pool)),
+            status: Arc::new(TransportStatus::new(pool, permit)),
         }
     }
 
@@ -143,7 +149,7 @@ impl Drop for TransportStatus {
 }
 
 impl TransportStatus {
-    fn new(pool: Option<Pool>) -> TransportStatus {
+    fn new(pool: Option<&Pool>, permit: Option<Permit>) -> TransportStatus {
         let pool = match pool {
             None => sync::Weak::new(),
             Some(p) => Arc::downgrade(&p.inner),
@@ -152,6 +158,7 @@ impl TransportStatus {
         TransportStatus {
             inside: AtomicBool::new(true),
             pool,
+            _permit: permit,
         }
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 1f21ef1..0291bd7 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -119,7 +119,7 @@ use crate::{
     connecting_stream::ConnectingStream,
     errors::{DriverError, Error, Result},
     io::ClickhouseTransport,
-    pool::PoolBinding,
+    pool::{Permit, PoolBinding},
     retry_guard::retry_guard,
     types::{
         block::{ChunkIterator, INSERT_BLOCK_SIZE},
@@ -257,7 +257,10 @@ impl Client {
         Self::open(source, None).await
     }
 
-    pub(crate) async fn open(source: OptionsSource, pool: Option<Pool>) -> Result<ClientHandle> {
+    pub(crate) async fn open(
+        source: OptionsSource,
+        pool: Option<(Pool, Permit)>,
+    ) -> Result<ClientHandle> {
         let options = try_opt!(source.get());
         let compress = options.compression;
         let timeout = options.connection_timeout;
@@ -271,7 +274,7 @@ impl Client {
             async move {
                 let addr = match &pool {
                     None => &options.addr,
-                    Some(p) => p.get_addr(),
+                    Some((p, _)) => p.get_addr(),
                 };
 
                 info!("try to connect to {}", addr);
@@ -282,7 +285,12 @@ impl Client {
                 stream.set_nodelay(options.nodelay)?;
                 stream.set_keepalive(options.keepalive)?;
 
-                let transport = ClickhouseTransport::new(stream, compress, pool.clone());
+                let (pool, permit) = match pool {
+                    None => (None, None),
+                    Some((pool, permit)) => (Some(pool), Some(permit)),
+                };
+                let transport =
+                    ClickhouseTransport::new(stream, compress, pool.as_ref(), permit);
                 let mut handle = ClientHandle {
                     inner: Some(transport),
                     context,
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 892e956..33a19c1 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -1,8 +1,8 @@
 use std::{
-    fmt, mem,
+    cmp, fmt, mem,
     pin::Pin,
     sync::atomic::{self, Ordering},
-    sync::Arc,
+    sync::{self, Arc},
     task::{Context, Poll, Waker},
 };
 
@@ -26,6 +26,8 @@ pub(crate) struct Inner {
     idle: crossbeam::queue::ArrayQueue<ClientHandle>,
     tasks: crossbeam::queue::SegQueue<Waker>,
     ongoing: atomic::AtomicUsize,
+    // Number of connections that are being established, idle or lent
+    total: atomic::AtomicUsize,
     hosts: Vec<Url>,
     connections_num: atomic::AtomicUsize,
 }
@@ -33,16 +35,42 @@ pub(crate) struct Inner {
 impl Inner {
     pub(crate) fn release_conn(&self) {
         self.ongoing.fetch_sub(1, Ordering::AcqRel);
+        self.wake_tasks();
+    }
+
+    fn wake_tasks(&self) {
         while let Some(task) = self.tasks.pop() {
             task.wake()
         }
     }
+}
+
+/// The right to own one of the `pool_max` connections. It's held from the moment
+/// when the connection starts to be established until the connection is closed.
+pub(crate) struct Permit(sync::Weak<Inner>);
+
+impl Permit {
+    fn try_new(pool: &Pool) -> Option<Self> {
+        pool.inner
+            .total
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |total| {
+                if total < pool.max {
+                    Some(total + 1)
+                } else {
+                    None
+                }
+            })
+            .ok()
+            .map(|_| Permit(Arc::downgrade(&pool.inner)))
+    }
+}
 
-    fn conn_count(&self) -> usize {
-        let is_new_some = self.new.len();
-        let ongoing = self.ongoing.load(Ordering::Acquire);
-        let idle_count = self.idle.len();
-        is_new_some + idle_count + ongoing
+impl Drop for Permit {
+    fn drop(&mut self) {
+        if let Some(inner) = self.0.upgrade() {
+            inner.total.fetch_sub(1, Ordering::AcqRel);
+            inner.wake_tasks();
+        }
     }
 }
 
@@ -160,9 +188,10 @@ impl Pool {
 
         let inner = Arc::new(Inner {
             new: crossbeam::queue::ArrayQueue::new(1),
-            idle: crossbeam::queue::ArrayQueue::new(max),
+            idle: crossbeam::queue::ArrayQueue::new(cmp::max(1, cmp::min(min, max))),
             tasks: crossbeam::queue::SegQueue::new(),
             ongoing: atomic::AtomicUsize::new(0),
+            total: atomic::AtomicUsize::new(0),
             connections_num: atomic::AtomicUsize::new(0),
             hosts,
         });
@@ -190,83 +219,80 @@ impl Pool {
     }
 
     fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<ClientHandle>> {
-        self.handle_futures(cx)?;
+        if let Some(client) = self.handle_futures(cx)? {
+            return Poll::Ready(Ok(self.lend_conn(client)));
+        }
 
         match self.take_conn() {
             Some(client) => Poll::Ready(Ok(client)),
             None => {
-                let new_conn_created = {
-                    let conn_count = self.inner.conn_count();
-
-                    if conn_count < self.max && self.inner.new.push(self.new_connection()).is_ok() {
-                        true
-                    } else {
-                        self.inner.tasks.push(cx.waker().clone());
-                        false
-                    }
-                };
-                if new_conn_created {
+                if self.try_new_connection() {
                     self.poll(cx)
                 } else {
+                    self.inner.tasks.push(cx.waker().clone());
                     Poll::Pending
                 }
             }
         }
     }
 
-    fn new_connection(&self) -> BoxFuture<'static, Result<ClientHandle>> {
+    fn try_new_connection(&self) -> bool {
+        if !self.inner.new.is_empty() {
+            return false;
+        }
+        match Permit::try_new(self) {
+            Some(permit) => self.inner.new.push(self.new_connection(permit)).is_ok(),
+            None => false,
+        }
+    }
+
+    fn new_connection(&self, permit: Permit) -> BoxFuture<'static, Result<ClientHandle>> {
         let source = self.options.clone();
-        let pool = Some(self.clone());
+        let pool = Some((self.clone(), permit));
         Box::pin(async move { Client::open(source, pool).await })
     }
 
-    fn handle_futures(&mut self, cx: &mut Context<'_>) -> Result<()> {
+    fn handle_futures(&mut self, cx: &mut Context<'_>) -> Result<Option<ClientHandle>> {
         if let Some(mut new) = self.inner.new.pop() {
             match new.poll_unpin(cx) {
-                Poll::Ready(Ok(client)) => {
-                    self.inner.idle.push(client).unwrap();
-                }
+                Poll::Ready(result) => return result.map(Some),
                 Poll::Pending => {
                     // NOTE: it is okay to drop the construction task
                     // because another construction will be attempted
                     // later in Pool::poll
                     let _ = self.inner.new.push(new);
                 }
-                Poll::Ready(Err(err)) => {
-                    return Err(err);
-                }
             }
         }
 
-        Ok(())
+        Ok(None)
     }
 
     fn take_conn(&mut self) -> Option<ClientHandle> {
-        if let Some(mut client) = self.inner.idle.pop() {
-            client.pool = PoolBinding::Attached(self.clone());
-            client.set_inside(false);
-            self.inner.ongoing.fetch_add(1, Ordering::AcqRel);
-            Some(client)
-        } else {
-            None
-        }
+        let client = self.inner.idle.pop()?;
+        Some(self.lend_conn(client))
     }
 
-    fn return_conn(&mut self, mut client: ClientHandle) {
-        let min = self.min;
+    fn lend_conn(&mut self, mut client: ClientHandle) -> ClientHandle {
+        client.pool = PoolBinding::Attached(self.clone());
+        client.set_inside(false);
+        self.inner.ongoing.fetch_add(1, Ordering::AcqRel);
+        client
+    }
 
+    fn return_conn(&mut self, mut client: ClientHandle) {
         let is_attached = client.pool.is_attached();
         client.pool = PoolBinding::None;
         client.set_inside(true);
 
-        if self.inner.idle.len() < min && is_attached && client.inner.is_some() {
+        // NOTE: the capacity of the queue is `pool_min`
+        if self.min > 0 && is_attached && client.inner.is_some() {
             let _ = self.inner.idle.push(client);
+        } else {
+            drop(client);
         }
         self.inner.ongoing.fetch_sub(1, Ordering::AcqRel);
-
-        while let Some(task) = self.inner.tasks.pop() {
-            task.wake()
-        }
+        self.inner.wake_tasks();
     }
 
     pub(crate) fn get_addr(&self) -> &Url {
diff --git a/src/retry_guard.rs b/src/retry_guard.rs
index 68c553d..3634370 100644
--- a/src/retry_guard.rs
+++ b/src/retry_guard.rs
@@ -60,7 +60,7 @@ async fn check(c: &mut ClientHandle) -> Result<()> {
 async fn reconnect(c: &mut ClientHandle, source: &OptionsSource, pool: Option<Pool>) -> Result<()> {
     warn!("[reconnect]");
     let mut nc = match pool {
-        None => Client::open(source.clone(), pool).await?,
+        None => Client::open(source.clone(), None).await?,
         Some(p) => p.get_handle().await?,
     };
     mem::swap(c, &mut nc);
-- 
2.43.0


From 2aeb0ce62efd5936c024c8f6cc4a450f1609a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:52 +0000
Subject: [PATCH 11/38] fix: a task waiting for a connection is not forgotten

Waiters were only woken when a handle was released. A waiter whose connection
attempt was polled by (and so would only wake) another task that has meanwhile
been served, cancelled or got an error, and a waiter registered right after a
release, could sleep forever although the pool had a free connection or room.
---
 src/pool/futures/get_handle.rs | 25 +++++++++++++++++++----
 src/pool/mod.rs                | 37 +++++++++++++++++++++++-----------
 2 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/pool/futures/get_handle.rs b/src/pool/futures/get_handle.rs
index df584e8..8d1182b 100644
--- a/src/pool/futures/get_handle.rs
+++ b/src/pool/futures/get_handle.rs
@@ -4,20 +4,24 @@ use std::{
     task::{Context, Poll},
 };
 
-use pin_project::pin_project;
+use pin_project::{pin_project, pinned_drop};
 
 use crate::{errors::Result, pool::Pool, ClientHandle};
 
 /// Future that resolves to a `ClientHandle`.
-#[pin_project]
+#[pin_project(PinnedDrop)]
 pub struct GetHandle {
     #[pin]
     pool: Pool,
+    is_waiting: bool,
 }
 
 impl GetHandle {
     pub(crate) fn new(pool: &Pool) -> Self {
-        Self { pool: pool.clone() }
+        Self {
+            pool: pool.clone(),
+            is_waiting: false,
+        }
     }
 }
 
@@ -25,6 +29,19 @@ impl Future for GetHandle {
     type Output = Result<ClientHandle>;
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
-        self.project().pool.poll(cx)
+        let this = self.project();
+        let result = this.pool.poll(cx);
+        *this.is_waiting = result.is_pending();
+        result
+    }
+}
+
+#[pinned_drop]
+impl PinnedDrop for GetHandle {
+    fn drop(self: Pin<&mut Self>) {
+        // The connection being established should be polled by someone else
+        if self.is_waiting {
+            self.pool.inner.wake_tasks();
+        }
     }
 }
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 33a19c1..9f82d8a 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -38,7 +38,7 @@ impl Inner {
         self.wake_tasks();
     }
 
-    fn wake_tasks(&self) {
+    pub(crate) fn wake_tasks(&self) {
         while let Some(task) = self.tasks.pop() {
             task.wake()
         }
@@ -219,20 +219,33 @@ impl Pool {
     }
 
     fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<ClientHandle>> {
-        if let Some(client) = self.handle_futures(cx)? {
-            return Poll::Ready(Ok(self.lend_conn(client)));
-        }
+        let mut registered = false;
+        loop {
+            if let Some(client) = self.handle_futures(cx)? {
+                // Another connection can be established now
+                self.inner.wake_tasks();
+                return Poll::Ready(Ok(self.lend_conn(client)));
+            }
 
-        match self.take_conn() {
-            Some(client) => Poll::Ready(Ok(client)),
-            None => {
-                if self.try_new_connection() {
-                    self.poll(cx)
-                } else {
-                    self.inner.tasks.push(cx.waker().clone());
-                    Poll::Pending
+            if let Some(client) = self.take_conn() {
+                // The connection being established should be polled by someone else
+                if !self.inner.new.is_empty() {
+                    self.inner.wake_tasks();
                 }
+                return Poll::Ready(Ok(client));
+            }
+
+            if self.try_new_connection() {
+                continue;
+            }
+
+            if registered {
+                return Poll::Pending;
             }
+
+            // Something could be released before the waker has been registered
+            self.inner.tasks.push(cx.waker().clone());
+            registered = true;
         }
     }
 
-- 
2.43.0


From e62b9156e74342d17bcaca229f61b0d16a120b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:45 +0000
Subject: [PATCH 12/38] fix: lengths and offsets in a response are checked
 before they are used

A response that announces huge lengths, decreasing offsets, an overlong
varint or an inconsistent compressed frame made the client abort on
allocation, panic or decode garbage; now it is a bounded read or an error.
---
 src/binary/mod.rs                |  2 +-
 src/binary/read_ex.rs            | 39 +++++++++++++++++++++++++-------
 src/types/block/compressed.rs    | 20 ++++++++--------
 src/types/column/array.rs        | 11 +++------
 src/types/column/date.rs         |  6 +----
 src/types/column/datetime64.rs   |  6 +----
 src/types/column/fixed_string.rs | 13 +++--------
 src/types/column/ip.rs           |  8 ++++---
 src/types/column/list.rs         | 29 ++++++++++++++++++------
 src/types/column/map.rs          | 11 +++------
 src/types/column/nullable.rs     |  3 +--
 src/types/column/numeric.rs      |  6 +----
 src/types/column/string_pool.rs  |  8 ++++---
 src/types/column/util.rs         | 27 +++++++++++++++++++++-
 14 files changed, 114 insertions(+), 75 deletions(-)

diff --git a/src/binary/mod.rs b/src/binary/mod.rs
index f128314..f26fbb3 100644
--- a/src/binary/mod.rs
+++ b/src/binary/mod.rs
@@ -1,4 +1,4 @@
-pub(crate) use self::{encoder::Encoder, parser::Parser, read_ex::ReadEx, uvarint::put_uvarint};
+pub(crate) use self::{encoder::Encoder, parser::Parser, read_ex::{ReadEx, MAX_TRUSTED_LEN}, uvarint::put_uvarint};
 
 mod encoder;
 mod parser;
diff --git a/src/binary/read_ex.rs b/src/binary/read_ex.rs
index cb47f22..fdb9e90 100644
--- a/src/binary/read_ex.rs
+++ b/src/binary/read_ex.rs
@@ -1,4 +1,4 @@
-use std::{io, mem::MaybeUninit};
+use std::{cmp, io, mem::MaybeUninit};
 
 use crate::{
     errors::{DriverError, Error, Result},
@@ -7,6 +7,7 @@ use crate::{
 
 pub(crate) trait ReadEx {
     fn read_bytes(&mut self, rv: &mut [u8]) -> Result<()>;
+    fn read_vec(&mut self, len: usize) -> Result<Vec<u8>>;
     fn read_scalar<V>(&mut self) -> Result<V>
     where
         V: Copy + Unmarshal<V> + StatBuffer;
@@ -18,6 +19,10 @@ pub(crate) trait ReadEx {
 
 const MAX_STACK_BUFFER_LEN: usize = 1024;
 
+/// A length announced by the peer is only trusted up to this size: larger buffers grow
+/// together with the data that actually arrives.
+pub(crate) const MAX_TRUSTED_LEN: usize = 1 << 20;
+
 impl<T> ReadEx for T
 where
     T: io::Read,
@@ -41,6 +46,17 @@ where
         Ok(())
     }
 
+    fn read_vec(&mut self, len: usize) -> Result<Vec<u8>> {
+        let mut rv = Vec::new();
+        while rv.len() < len {
+            let start = rv.len();
+            let step = cmp::min(len - start, cmp::max(start, MAX_TRUSTED_LEN));
+            rv.resize(start + step, 0_u8);
+            self.read_bytes(&mut rv[start..])?;
+        }
+        Ok(rv)
+    }
+
     fn read_scalar<V>(&mut self) -> Result<V>
     where
         V: Copy + Unmarshal<V> + StatBuffer,
@@ -52,8 +68,7 @@ where
 
     fn read_string(&mut self) -> Result<String> {
         let str_len = self.read_uvarint()? as usize;
-        let mut buffer = vec![0_u8; str_len];
-        self.read_bytes(buffer.as_mut())?;
+        let buffer = self.read_vec(str_len)?;
         Ok(String::from_utf8(buffer)?)
     }
 
@@ -69,8 +84,7 @@ where
                 )?;
             }
         } else {
-            let mut buffer = vec![0_u8; str_len];
-            self.read_bytes(buffer.as_mut())?;
+            self.read_vec(str_len)?;
         }
 
         Ok(())
@@ -84,12 +98,16 @@ where
             let b: u8 = self.read_scalar()?;
 
             if b < 0x80 {
-                if i > 9 || i == 9 && b > 1 {
+                if i == 9 && b > 1 {
                     return Err(Error::Driver(DriverError::Overflow));
                 }
                 return Ok(x | (u64::from(b) << s));
             }
 
+            if i >= 9 {
+                return Err(Error::Driver(DriverError::Overflow));
+            }
+
             x |= u64::from(b & 0x7f) << s;
             s += 7;
 
@@ -99,8 +117,13 @@ where
 
     fn read_str_into_buffer(&mut self, pool: &mut StringPool) -> Result<()> {
         let str_len = self.read_uvarint()? as usize;
-        let buffer = pool.allocate(str_len);
-        self.read_bytes(buffer)?;
+        if str_len > MAX_TRUSTED_LEN {
+            let bytes = self.read_vec(str_len)?;
+            pool.allocate(str_len).copy_from_slice(&bytes);
+        } else {
+            let buffer = pool.allocate(str_len);
+            self.read_bytes(buffer)?;
+        }
         Ok(())
     }
 }
diff --git a/src/types/block/compressed.rs b/src/types/block/compressed.rs
index d2c43a8..675249d 100644
--- a/src/types/block/compressed.rs
+++ b/src/types/block/compressed.rs
@@ -15,6 +15,7 @@ use crate::{
 };
 
 const DBMS_MAX_COMPRESSED_SIZE: u32 = 0x4000_0000; // 1GB
+const HEADER_SIZE: u32 = 9;
 
 pub(crate) struct CompressedReader<'a, R> {
     reader: &'a mut R,
@@ -53,7 +54,7 @@ where
     R: Read + ReadEx,
 {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        if self.is_empty() {
+        while self.is_empty() {
             self.fill()?;
         }
 
@@ -83,14 +84,15 @@ where
         return Err(raise_error("compressed data too big".to_string()));
     }
 
-    buffer.resize(compressed as usize, 0_u8);
-    {
-        let mut cursor = io::Cursor::new(&mut buffer);
-        cursor.write_u8(0x82)?;
-        cursor.write_u32::<LittleEndian>(compressed)?;
-        cursor.write_u32::<LittleEndian>(original)?;
+    if compressed < HEADER_SIZE {
+        return Err(raise_error("compressed data too small".to_string()));
     }
-    reader.read_bytes(&mut buffer[9..])?;
+
+    buffer.clear();
+    buffer.write_u8(0x82)?;
+    buffer.write_u32::<LittleEndian>(compressed)?;
+    buffer.write_u32::<LittleEndian>(original)?;
+    buffer.extend(reader.read_vec((compressed - HEADER_SIZE) as usize)?);
 
     if h != city_hash_128(&buffer) {
         return Err(raise_error("data was corrupted".to_string()));
@@ -106,7 +108,7 @@ where
         )
     };
 
-    if status < 0 {
+    if status < 0 || status as u32 != original {
         return Err(raise_error("can't decompress data".to_string()));
     }
 
diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index b083012..71b7e1b 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -9,6 +9,7 @@ use crate::{
         column::{
             column_data::{ArcColumnData, BoxColumnData},
             list::List,
+            util::check_offsets,
             ArcColumnWrapper, ColumnData,
         },
         SqlType, Value, ValueRef,
@@ -27,14 +28,8 @@ impl ArrayColumnData {
         rows: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut offsets = List::with_capacity(rows);
-        offsets.resize(rows, 0_u64);
-        reader.read_bytes(offsets.as_mut())?;
-
-        let size = match rows {
-            0 => 0,
-            _ => offsets.at(rows - 1) as usize,
-        };
+        let offsets = List::load(reader, rows)?;
+        let size = check_offsets(&offsets)?;
         let inner =
             <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, type_name, size, tz)?;
 
diff --git a/src/types/column/date.rs b/src/types/column/date.rs
index 534ee44..83e54f8 100644
--- a/src/types/column/date.rs
+++ b/src/types/column/date.rs
@@ -63,11 +63,7 @@ where
         size: usize,
         tz: Tz,
     ) -> Result<DateColumnData<T>> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
-        }
-        reader.read_bytes(data.as_mut())?;
+        let data = List::load(reader, size)?;
         Ok(DateColumnData { data, tz })
     }
 }
diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 7aa80d4..c1f9763 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -31,11 +31,7 @@ impl DateTime64ColumnData {
         precision: u32,
         tz: Tz,
     ) -> Result<DateTime64ColumnData> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
-        }
-        reader.read_bytes(data.as_mut())?;
+        let data = List::load(reader, size)?;
         Ok(DateTime64ColumnData {
             data,
             params: (precision, tz),
diff --git a/src/types/column/fixed_string.rs b/src/types/column/fixed_string.rs
index 024c433..aae0c70 100644
--- a/src/types/column/fixed_string.rs
+++ b/src/types/column/fixed_string.rs
@@ -7,7 +7,7 @@ use crate::{
     types::{
         column::{
             column_data::{BoxColumnData, LowCardinalityAccessor},
-            util::extract_nulls_and_values,
+            util::{extract_nulls_and_values, total_len},
         },
         value::get_str_buffer,
         Column, ColumnType, SqlType, Value, ValueRef,
@@ -40,15 +40,8 @@ impl FixedStringColumnData {
     }
 
     pub(crate) fn load<T: ReadEx>(reader: &mut T, size: usize, str_len: usize) -> Result<Self> {
-        let mut instance = Self::with_capacity(size, str_len);
-
-        for _ in 0..size {
-            let old_len = instance.buffer.len();
-            instance.buffer.resize(old_len + str_len, 0_u8);
-            reader.read_bytes(&mut instance.buffer[old_len..old_len + str_len])?;
-        }
-
-        Ok(instance)
+        let buffer = reader.read_vec(total_len(size, str_len)?)?;
+        Ok(Self { buffer, str_len })
     }
 }
 
diff --git a/src/types/column/ip.rs b/src/types/column/ip.rs
index 3d66239..33e3b68 100644
--- a/src/types/column/ip.rs
+++ b/src/types/column/ip.rs
@@ -9,7 +9,10 @@ use crate::{
     binary::{Encoder, ReadEx},
     errors::Result,
     types::{
-        column::{column_data::BoxColumnData, nullable::NullableColumnData, ColumnWrapper},
+        column::{
+            column_data::BoxColumnData, nullable::NullableColumnData, util::total_len,
+            ColumnWrapper,
+        },
         SqlType, Value, ValueRef,
     },
 };
@@ -272,8 +275,7 @@ impl<V: IpVersion> IpColumnData<V> {
     }
 
     pub(crate) fn load<R: ReadEx>(reader: &mut R, size: usize) -> Result<Self> {
-        let mut inner = vec![0; size * V::size()];
-        reader.read_bytes(inner.as_mut())?;
+        let inner = reader.read_vec(total_len(size, V::size())?)?;
 
         Ok(Self {
             inner,
diff --git a/src/types/column/list.rs b/src/types/column/list.rs
index a873be9..8c69c2a 100644
--- a/src/types/column/list.rs
+++ b/src/types/column/list.rs
@@ -1,6 +1,10 @@
-use std::{fmt, mem, slice};
+use std::{cmp, fmt, mem, ptr, slice};
 
-use crate::types::{Marshal, StatBuffer, Unmarshal};
+use crate::{
+    binary::{ReadEx, MAX_TRUSTED_LEN},
+    errors::Result,
+    types::{Marshal, StatBuffer, Unmarshal},
+};
 
 #[derive(Clone)]
 pub struct List<T>
@@ -37,12 +41,23 @@ where
         }
     }
 
-    pub fn resize(&mut self, new_len: usize, value: T) {
-        self.data.resize(new_len, value);
-    }
+    /// Reads `size` items, without allocating for more than what actually arrives.
+    pub(super) fn load<R: ReadEx>(reader: &mut R, size: usize) -> Result<List<T>> {
+        let item = mem::size_of::<T>();
+        let mut list = Self { data: Vec::new() };
+
+        while list.len() < size {
+            let start = list.len();
+            let step = cmp::min(size - start, cmp::max(start, MAX_TRUSTED_LEN / item));
+            list.data.reserve(step);
+            unsafe {
+                ptr::write_bytes(list.data.as_mut_ptr().add(start), 0, step);
+                list.data.set_len(start + step);
+            }
+            reader.read_bytes(&mut list.as_mut()[start * item..])?;
+        }
 
-    pub(super) unsafe fn set_len(&mut self, new_len: usize) {
-        self.data.set_len(new_len);
+        Ok(list)
     }
 
     pub(super) unsafe fn as_ptr(&self) -> *const T {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 73e014a..16c2fdf 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -5,6 +5,7 @@ use crate::{
         column::{
             column_data::{ArcColumnData, BoxColumnData},
             list::List,
+            util::check_offsets,
             ArcColumnWrapper, ColumnData, ColumnFrom, ColumnWrapper,
         },
         HasSqlType, Marshal, SqlType, StatBuffer, Unmarshal, Value, ValueRef,
@@ -27,14 +28,8 @@ impl MapColumnData {
         rows: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut offsets = List::with_capacity(rows);
-        offsets.resize(rows, 0_u64);
-        reader.read_bytes(offsets.as_mut())?;
-
-        let size = match rows {
-            0 => 0,
-            _ => offsets.at(rows - 1) as usize,
-        };
+        let offsets = List::load(reader, rows)?;
+        let size = check_offsets(&offsets)?;
 
         let keys = <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, types.0, size, tz)?;
         let values = <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, types.1, size, tz)?;
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index d9b2b6e..75267b6 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -27,8 +27,7 @@ impl NullableColumnData {
         size: usize,
         tz: Tz,
     ) -> Result<Self> {
-        let mut nulls = vec![0; size];
-        reader.read_bytes(nulls.as_mut())?;
+        let nulls = reader.read_vec(size)?;
         let inner =
             <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, type_name, size, tz)?;
         Ok(NullableColumnData { inner, nulls })
diff --git a/src/types/column/numeric.rs b/src/types/column/numeric.rs
index 239aa83..8a70b89 100644
--- a/src/types/column/numeric.rs
+++ b/src/types/column/numeric.rs
@@ -161,11 +161,7 @@ where
     }
 
     pub(crate) fn load<R: ReadEx>(reader: &mut R, size: usize) -> Result<VectorColumnData<T>> {
-        let mut data = List::with_capacity(size);
-        unsafe {
-            data.set_len(size);
-        }
-        reader.read_bytes(data.as_mut())?;
+        let data = List::load(reader, size)?;
         Ok(Self { data })
     }
 
diff --git a/src/types/column/string_pool.rs b/src/types/column/string_pool.rs
index d69a6b1..6de2c4d 100644
--- a/src/types/column/string_pool.rs
+++ b/src/types/column/string_pool.rs
@@ -1,4 +1,6 @@
-use std::{io::Write, slice};
+use std::{cmp, io::Write, slice};
+
+use crate::binary::MAX_TRUSTED_LEN;
 
 const AVG_STR_SIZE: usize = 80;
 
@@ -53,10 +55,10 @@ where
 impl StringPool {
     pub(crate) fn with_capacity(capacity: usize) -> StringPool {
         StringPool {
-            pointers: Vec::with_capacity(capacity),
+            pointers: Vec::with_capacity(cmp::min(capacity, MAX_TRUSTED_LEN)),
             chunks: Vec::new(),
             position: 0,
-            capacity,
+            capacity: cmp::min(capacity, MAX_TRUSTED_LEN / AVG_STR_SIZE),
         }
     }
 
diff --git a/src/types/column/util.rs b/src/types/column/util.rs
index 7feae39..0e2d192 100644
--- a/src/types/column/util.rs
+++ b/src/types/column/util.rs
@@ -1,8 +1,33 @@
+use std::borrow::Cow;
+
 use crate::{
-    types::{column::ColumnData, FromSql},
+    errors::DriverError,
+    types::{
+        column::{list::List, ColumnData},
+        FromSql,
+    },
     Result,
 };
 
+/// The size in bytes of `size` items of `item` bytes each.
+pub(crate) fn total_len(size: usize, item: usize) -> Result<usize> {
+    size.checked_mul(item)
+        .ok_or_else(|| DriverError::Deserialize(Cow::from("Column is too big.")).into())
+}
+
+/// Offsets of arrays and maps never decrease; the last one is the number of nested items.
+pub(crate) fn check_offsets(offsets: &List<u64>) -> Result<usize> {
+    let mut last = 0;
+    for i in 0..offsets.len() {
+        let offset = offsets.at(i);
+        if offset < last {
+            return Err(DriverError::Deserialize(Cow::from("Invalid offsets.")).into());
+        }
+        last = offset;
+    }
+    Ok(last as usize)
+}
+
 pub(crate) fn extract_nulls_and_values<'a, T, C>(
     column_data: &'a C,
     start: usize,
-- 
2.43.0


From 64d49cdd1af68506897ac193b3c6ee229597f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:37 +0000
Subject: [PATCH 13/38] fix: low cardinality columns follow the native format
 when nullable or nested

The state prefix of a nested low cardinality column precedes the data of the
whole column, the dictionary of a nullable one holds plain values with key 0
for NULL, and a dictionary that arrived larger than the column does not
truncate the index of a pushed value.
---
 src/types/column/factory.rs         | 38 ++++++++++++--
 src/types/column/low_cardinality.rs | 79 +++++++++++++++++++++++++----
 src/types/column/mod.rs             |  9 +++-
 3 files changed, 111 insertions(+), 15 deletions(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 274eca3..2728ecd 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -9,7 +9,7 @@ use combine::{
 };
 
 use crate::{
-    binary::ReadEx,
+    binary::{Encoder, ReadEx},
     errors::Result,
     types::{
         column::{
@@ -23,7 +23,7 @@ use crate::{
             fixed_string::FixedStringColumnData,
             ip::{IpColumnData, Ipv4, Ipv6, Uuid},
             list::List,
-            low_cardinality::LowCardinalityColumnData,
+            low_cardinality::{self, LowCardinalityColumnData},
             map::MapColumnData,
             nullable::NullableColumnData,
             numeric::VectorColumnData,
@@ -54,6 +54,38 @@ macro_rules! match_str {
 }
 
 impl dyn ColumnData {
+    /// The state of every low cardinality part of a column precedes the data of the whole column.
+    pub(crate) fn load_prefix<T: ReadEx>(reader: &mut T, type_name: &str) -> Result<()> {
+        if let Some(inner_type) = parse_nullable_type(type_name) {
+            Self::load_prefix(reader, inner_type)
+        } else if let Some(inner_type) = parse_array_type(type_name) {
+            Self::load_prefix(reader, inner_type)
+        } else if let Some((key_type, value_type)) = parse_map_type(type_name) {
+            Self::load_prefix(reader, key_type)?;
+            Self::load_prefix(reader, value_type)
+        } else if let Some((_, inner_type)) = parse_simple_agg_fun(type_name) {
+            Self::load_prefix(reader, inner_type)
+        } else if parse_low_cardinality(type_name).is_some() {
+            low_cardinality::read_prefix(reader)
+        } else {
+            Ok(())
+        }
+    }
+
+    pub(crate) fn save_prefix(encoder: &mut Encoder, sql_type: &SqlType) {
+        match sql_type {
+            SqlType::Nullable(inner)
+            | SqlType::Array(inner)
+            | SqlType::SimpleAggregateFunction(_, inner) => Self::save_prefix(encoder, inner),
+            SqlType::Map(key, value) => {
+                Self::save_prefix(encoder, key);
+                Self::save_prefix(encoder, value);
+            }
+            SqlType::LowCardinality(_) => low_cardinality::write_prefix(encoder),
+            _ => (),
+        }
+    }
+
     #[allow(clippy::cognitive_complexity)]
     pub(crate) fn load_data<W: ColumnWrapper, T: ReadEx>(
         reader: &mut T,
@@ -254,7 +286,7 @@ fn parse_fixed_string(source: &str) -> Option<usize> {
     }
 }
 
-fn parse_nullable_type(source: &str) -> Option<&str> {
+pub(super) fn parse_nullable_type(source: &str) -> Option<&str> {
     if !source.starts_with("Nullable") {
         return None;
     }
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index a69eac9..b7d44cd 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -1,5 +1,6 @@
 use chrono_tz::Tz;
-use std::{borrow::Cow, collections::HashMap, mem, ptr, sync::Arc};
+use either::Either;
+use std::{borrow::Cow, cmp, collections::HashMap, mem, ptr, sync::Arc};
 
 use crate::{
     binary::{Encoder, ReadEx},
@@ -7,6 +8,7 @@ use crate::{
     types::{
         column::{
             column_data::{ArcColumnData, BoxColumnData, LowCardinalityAccessor},
+            factory::parse_nullable_type,
             ArcColumnWrapper, ColumnData, VectorColumnData,
         },
         SqlType, Value, ValueRef,
@@ -143,7 +145,7 @@ impl LowCardinalityIndex {
     }
 
     fn push(&mut self, value: usize) {
-        if self.len() + 1 > self.max_len() {
+        while cmp::max(self.len() + 1, value) > self.max_len() {
             *self = self.inc_max_len();
         }
         match self {
@@ -180,7 +182,9 @@ impl Default for LowCardinalityInternals {
 }
 
 pub(crate) struct LowCardinalityColumnData {
+    // The dictionary; that of a nullable column holds plain values and its key 0 means NULL.
     pub(crate) inner: ArcColumnData,
+    pub(crate) nullable: bool,
     pub(crate) index: LowCardinalityIndex,
     pub(crate) value_map: Option<HashMap<Value, usize>>,
 }
@@ -192,9 +196,14 @@ impl LowCardinalityColumnData {
         size: usize,
         tz: Tz,
     ) -> Result<Self> {
+        let (inner_type, nullable) = match parse_nullable_type(inner_type) {
+            Some(inner_type) => (inner_type, true),
+            None => (inner_type, false),
+        };
         let (inner, index) = read_inner(reader, inner_type, size, tz)?;
         Ok(LowCardinalityColumnData {
             inner,
+            nullable,
             index,
             value_map: None,
         })
@@ -205,12 +214,18 @@ impl LowCardinalityColumnData {
         timezone: Tz,
         capacity: usize,
     ) -> Result<LowCardinalityColumnData> {
+        let (inner, nullable) = match inner {
+            SqlType::Nullable(inner) => (*inner, true),
+            inner => (inner, false),
+        };
+
         Ok(LowCardinalityColumnData {
             inner: <dyn ColumnData>::from_type::<ArcColumnWrapper>(
                 inner.clone(),
                 timezone,
                 capacity,
             )?,
+            nullable,
             index: LowCardinalityIndex::UInt8(VectorColumnData::<u8>::with_capacity(capacity)),
             value_map: None,
         })
@@ -230,7 +245,6 @@ fn read_inner<R: ReadEx>(
         return Ok((inner, keys));
     }
 
-    read_prefix(reader)?;
     let flags: u64 = reader.read_scalar()?;
     let index_type = IndexType::from_flags(flags)?;
 
@@ -255,13 +269,23 @@ fn read_inner<R: ReadEx>(
     )?;
 
     let keys_rows: u64 = reader.read_scalar()?;
-    let keys = LowCardinalityIndex::load(reader, keys_rows as usize, index_type)?;
-    assert_eq!(flags, keys.get_flags());
+    if keys_rows != size as u64 {
+        return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+            "Invalid number of low cardinality indexes.",
+        ))));
+    }
+
+    let keys = LowCardinalityIndex::load(reader, size, index_type)?;
+    if (0..size).any(|i| keys.get_by_index(i) >= inner.len()) {
+        return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+            "Invalid low cardinality index.",
+        ))));
+    }
 
     Ok((inner, keys))
 }
 
-fn read_prefix<R: ReadEx>(reader: &mut R) -> Result<()> {
+pub(crate) fn read_prefix<R: ReadEx>(reader: &mut R) -> Result<()> {
     let version: u64 = reader.read_scalar()?;
     if version != LOW_CARDINALITY_VERSION {
         return Err(Error::Driver(DriverError::Deserialize(Cow::from(
@@ -271,11 +295,16 @@ fn read_prefix<R: ReadEx>(reader: &mut R) -> Result<()> {
     Ok(())
 }
 
+pub(crate) fn write_prefix(encoder: &mut Encoder) {
+    encoder.write(LOW_CARDINALITY_VERSION);
+}
+
 impl LowCardinalityColumnData {
     fn get_value_map(&self) -> HashMap<Value, usize> {
         (0..self.index.len())
-            .map(|index| {
-                let value_index = self.index.get_by_index(index);
+            .map(|index| self.index.get_by_index(index))
+            .filter(|value_index| !self.nullable || *value_index != 0)
+            .map(|value_index| {
                 let value: Value = self.inner.at(value_index).into();
                 (value, value_index)
             })
@@ -285,7 +314,11 @@ impl LowCardinalityColumnData {
 
 impl ColumnData for LowCardinalityColumnData {
     fn sql_type(&self) -> SqlType {
-        SqlType::LowCardinality(self.inner.sql_type().into())
+        let mut inner_type = self.inner.sql_type();
+        if self.nullable {
+            inner_type = SqlType::Nullable(inner_type.into());
+        }
+        SqlType::LowCardinality(inner_type.into())
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
@@ -293,7 +326,6 @@ impl ColumnData for LowCardinalityColumnData {
             return;
         }
 
-        encoder.write(LOW_CARDINALITY_VERSION);
         encoder.write(self.index.get_flags());
 
         encoder.write(self.inner.len() as u64);
@@ -315,6 +347,23 @@ impl ColumnData for LowCardinalityColumnData {
             };
         };
 
+        let value = match value {
+            Value::Nullable(Either::Right(value)) if self.nullable => *value,
+            value => value,
+        };
+
+        if self.nullable && self.inner.len() == 0 {
+            let default_value = Value::default(self.inner.sql_type());
+            Arc::get_mut(&mut self.inner)
+                .expect("Column shouldn't be shared")
+                .push(default_value);
+        }
+
+        if self.nullable && matches!(value, Value::Nullable(Either::Left(_))) {
+            self.index.push(0);
+            return;
+        }
+
         match value_map.get_mut(&value) {
             None => {
                 let new_index = self.inner.len();
@@ -330,12 +379,20 @@ impl ColumnData for LowCardinalityColumnData {
 
     fn at(&self, index: usize) -> ValueRef {
         let ix = self.index.get_by_index(index);
-        self.inner.at(ix)
+        if !self.nullable {
+            return self.inner.at(ix);
+        }
+
+        ValueRef::Nullable(match ix {
+            0 => Either::Left(self.inner.sql_type().into()),
+            _ => Either::Right(Box::new(self.inner.at(ix))),
+        })
     }
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
             inner: self.inner.clone(),
+            nullable: self.nullable,
             index: self.index.clone(),
             value_map: None,
         })
diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index c08439f..8600806 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -180,6 +180,9 @@ impl<K: ColumnType> Column<K> {
     pub(crate) fn read<R: ReadEx>(reader: &mut R, size: usize, tz: Tz) -> Result<Column<K>> {
         let name = reader.read_string()?;
         let type_name = reader.read_string()?;
+        if size > 0 {
+            <dyn ColumnData>::load_prefix(reader, &type_name)?;
+        }
         let data =
             <dyn ColumnData>::load_data::<ArcColumnWrapper, _>(reader, &type_name, size, tz)?;
         let column = Self {
@@ -207,8 +210,12 @@ impl<K: ColumnType> Column<K> {
 
     pub(crate) fn write(&self, encoder: &mut Encoder) {
         encoder.string(&self.name);
-        encoder.string(self.data.sql_type().to_string().as_ref());
+        let sql_type = self.data.sql_type();
+        encoder.string(sql_type.to_string().as_ref());
         let len = self.data.len();
+        if len > 0 {
+            <dyn ColumnData>::save_prefix(encoder, &sql_type);
+        }
         self.data.save(encoder, 0, len);
     }
 
-- 
2.43.0


From 020fbb8b6e92c72456ecf52e2fc1f6a59e6fb0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:40 +0000
Subject: [PATCH 14/38] fix: typed column iterators return the values of every
 column they accept

Dates are not shifted by the server's time zone, nullable and nested dates can
be iterated, map keys of any type are found at any depth, a collected column
checks the type before iterating, addresses and UUIDs check it at all, and
low cardinality strings no longer rely on an invalid null pointer (in
optimised builds their iterators were compiled away).
---
 src/types/column/array.rs           |   4 +
 src/types/column/iter/mod.rs        | 118 ++++++++++++++++++----------
 src/types/column/low_cardinality.rs |   9 ++-
 src/types/column/map.rs             |  23 ++++--
 src/types/column/nullable.rs        |   6 +-
 src/types/column/simple_agg_func.rs |   4 +
 src/types/mod.rs                    |   8 +-
 7 files changed, 118 insertions(+), 54 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index 71b7e1b..8b39224 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -116,6 +116,10 @@ impl ColumnData for ArrayColumnData {
         }
     }
 
+    unsafe fn get_internals(&self, data_ptr: *mut (), level: u8, props: u32) -> Result<()> {
+        self.inner.get_internals(data_ptr, level, props)
+    }
+
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Array(inner_target) = target {
             if let Some(inner) = self.inner.cast_to(&self.inner, inner_target) {
diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index f34956f..fc5eb70 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -1,6 +1,6 @@
 #![allow(clippy::cast_ptr_alignment)]
 
-use chrono::prelude::*;
+use chrono::{prelude::*, Days};
 use chrono_tz::Tz;
 use std::{
     collections::HashMap,
@@ -27,10 +27,13 @@ use crate::{
 };
 
 fn check_type(src: &SqlType, dst: &SqlType) -> bool {
-    if let SqlType::SimpleAggregateFunction(_, nested) = src {
-        check_type(nested, dst)
-    } else {
-        src == dst
+    strip_agg_func(src) == dst
+}
+
+fn strip_agg_func(source: &SqlType) -> &SqlType {
+    match source {
+        SqlType::SimpleAggregateFunction(_, nested) => strip_agg_func(nested),
+        source => source,
     }
 }
 
@@ -186,7 +189,6 @@ pub struct DateIterator<'a> {
     ptr: *const u16,
     index: usize,
     len: usize,
-    tz: Tz,
     _marker: marker::PhantomData<&'a ()>,
 }
 
@@ -455,11 +457,7 @@ impl<'a> DateIterator<'a> {
         let current_value = *self.ptr.add(index);
         self.index += 1;
 
-        let time = self
-            .tz
-            .timestamp_opt(i64::from(current_value) * 24 * 3600, 0)
-            .unwrap();
-        time.date_naive()
+        unix_epoch_day(current_value)
     }
 
     #[inline(always)]
@@ -816,9 +814,16 @@ impl<'a> Iterable<'a, Simple> for Ipv4Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv4) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv4.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -841,9 +846,16 @@ impl<'a> Iterable<'a, Simple> for Ipv6Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv6) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv6.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -866,9 +878,16 @@ impl<'a> Iterable<'a, Simple> for uuid::Uuid {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Uuid) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Uuid.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -895,14 +914,17 @@ impl<'a> Iterable<'a, Simple> for &[u8] {
         props: u32,
     ) -> Result<Self::Iter> {
         let mut size: usize = 0;
-        let inner = match column_type {
-            SqlType::LowCardinality(&SqlType::String)
-            | SqlType::LowCardinality(&SqlType::FixedString(_)) => {
+        let inner = match strip_agg_func(&column_type) {
+            SqlType::LowCardinality(SqlType::String)
+            | SqlType::LowCardinality(SqlType::FixedString(_)) => {
                 let mut internals = LowCardinalityInternals::default();
                 unsafe {
-                    column.get_internals(&mut internals, 1, 0)?;
+                    column.get_internals(&mut internals, 1, props)?;
                     size = (*internals.index).len();
-                    StringInnerIterator::LowCardinality(internals.index, internals.accessor)
+                    let accessor = internals
+                        .accessor
+                        .ok_or(Error::FromSql(FromSqlError::UnsupportedOperation))?;
+                    StringInnerIterator::LowCardinality(internals.index, accessor)
                 }
             }
             SqlType::String => {
@@ -923,13 +945,13 @@ impl<'a> Iterable<'a, Simple> for &[u8] {
                     column.get_internal(
                         &[&mut buffer, &mut size as *mut usize as *mut *const u8],
                         0,
-                        0,
+                        props,
                     )?;
                     assert_ne!(buffer, ptr::null());
                     buffer
                 };
 
-                StringInnerIterator::FixedString(buffer, str_len)
+                StringInnerIterator::FixedString(buffer, *str_len)
             }
             _ => {
                 return Err(Error::FromSql(FromSqlError::InvalidType {
@@ -953,9 +975,9 @@ impl<'a> Iterable<'a, Simple> for Decimal {
     fn iter_with_props(
         column: &'a Column<Simple>,
         column_type: SqlType,
-        _props: u32,
+        props: u32,
     ) -> Result<Self::Iter> {
-        let SqlType::Decimal(precision, scale) = column_type else {
+        let &SqlType::Decimal(precision, scale) = strip_agg_func(&column_type) else {
             return Err(Error::FromSql(FromSqlError::InvalidType {
                 src: column.sql_type().to_string(),
                 dst: SqlType::Decimal(255, 255).to_string(),
@@ -973,7 +995,7 @@ impl<'a> Iterable<'a, Simple> for Decimal {
                     &mut nobits as *mut NoBits as *mut *const u8,
                 ],
                 0,
-                0,
+                props,
             )?;
             assert_ne!(ptr, ptr::null());
             (ptr, size, nobits)
@@ -1038,13 +1060,13 @@ impl<'a> Iterable<'a, Simple> for DateTime<Tz> {
         let len;
         let lc_index;
 
-        match column_type {
+        match strip_agg_func(&column_type) {
             SqlType::LowCardinality(SqlType::DateTime(_)) => {
                 let mut lc_inter = LowCardinalityInternals::default();
                 dt_inter = DateTimeInternals::default();
                 unsafe {
-                    column.get_internals(&mut lc_inter, 1, 0)?;
-                    column.get_internals(&mut dt_inter, 0, 0)?;
+                    column.get_internals(&mut lc_inter, 1, props)?;
+                    column.get_internals(&mut dt_inter, 0, props)?;
                     len = (*lc_inter.index).len();
                 }
                 lc_index = Some(lc_inter.index);
@@ -1093,13 +1115,13 @@ impl<'a> Iterable<'a, Simple> for NaiveDateTime {
         let len;
         let lc_index;
 
-        match column_type {
+        match strip_agg_func(&column_type) {
             SqlType::LowCardinality(SqlType::DateTime(_)) => {
                 let mut lc_inter = LowCardinalityInternals::default();
                 dt_inter = DateTimeInternals::default();
                 unsafe {
-                    column.get_internals(&mut lc_inter, 1, 0)?;
-                    column.get_internals(&mut dt_inter, 0, 0)?;
+                    column.get_internals(&mut lc_inter, 1, props)?;
+                    column.get_internals(&mut dt_inter, 0, props)?;
                     len = (*lc_inter.index).len();
                 }
                 lc_index = Some(lc_inter.index);
@@ -1153,13 +1175,13 @@ impl<'a> Iterable<'a, Simple> for NaiveDate {
         let mut dt_inter;
         let len;
         let lc_index;
-        match column_type {
+        match strip_agg_func(&column_type) {
             SqlType::LowCardinality(SqlType::Date) => {
                 let mut lc_inter = LowCardinalityInternals::default();
                 dt_inter = DateTimeInternals::default();
                 unsafe {
-                    column.get_internals(&mut lc_inter, 1, 0)?;
-                    column.get_internals(&mut dt_inter, 0, 0)?;
+                    column.get_internals(&mut lc_inter, 1, props)?;
+                    column.get_internals(&mut dt_inter, 0, props)?;
                     len = (*lc_inter.index).len();
                 }
                 lc_index = Some(lc_inter.index);
@@ -1182,12 +1204,15 @@ impl<'a> Iterable<'a, Simple> for NaiveDate {
             index: 0,
             ptr: dt_inter.begin as *const u16,
             len,
-            tz: dt_inter.tz,
             _marker: marker::PhantomData,
         })
     }
 }
 
+fn unix_epoch_day(days: u16) -> NaiveDate {
+    NaiveDate::default() + Days::new(days.into())
+}
+
 fn date_iter(column: &Column<Simple>, props: u32) -> Result<DateTimeInternals> {
     let mut internals = DateTimeInternals::default();
     unsafe { column.get_internals(&mut internals, 0, props) }?;
@@ -1206,8 +1231,8 @@ where
         column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
-        let inner = if let SqlType::Nullable(inner_type) = column_type {
-            T::iter(column, inner_type.clone())?
+        let inner = if let SqlType::Nullable(inner_type) = strip_agg_func(&column_type) {
+            T::iter_with_props(column, (*inner_type).clone(), props)?
         } else {
             return Err(Error::FromSql(FromSqlError::InvalidType {
                 src: column_type.to_string(),
@@ -1248,8 +1273,8 @@ where
         column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
-        let inner = if let SqlType::Array(inner_type) = column_type {
-            T::iter_with_props(column, inner_type.clone(), props)?
+        let inner = if let SqlType::Array(inner_type) = strip_agg_func(&column_type) {
+            T::iter_with_props(column, (*inner_type).clone(), props)?
         } else {
             return Err(Error::FromSql(FromSqlError::InvalidType {
                 src: column_type.to_string(),
@@ -1263,7 +1288,7 @@ where
             column.get_internal(
                 &[&mut ptr, &mut size as *mut usize as *mut *const u8],
                 column_type.level(),
-                0,
+                props,
             )?;
             assert_ne!(ptr, ptr::null());
             slice::from_raw_parts(ptr as *const u64, size)
@@ -1291,12 +1316,12 @@ where
         column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
-        let inner = if let SqlType::Map(k_type, v_type) = column_type {
+        let inner = if let SqlType::Map(k_type, v_type) = strip_agg_func(&column_type) {
             let k_level = (column.sql_type().map_level() - column_type.map_level()) as u32;
             let k_props = 1 | (k_level << 1);
             (
-                K::iter_with_props(column, k_type.clone(), k_props)?,
-                V::iter_with_props(column, v_type.clone(), 0)?,
+                K::iter_with_props(column, (*k_type).clone(), k_props)?,
+                V::iter_with_props(column, (*v_type).clone(), 0)?,
             )
         } else {
             return Err(Error::FromSql(FromSqlError::InvalidType {
@@ -1414,6 +1439,15 @@ where
             &*data
         };
 
+        for chunk in data {
+            let column: Column<Simple> = Column {
+                name: String::new(),
+                data: chunk.clone(),
+                _marker: marker::PhantomData,
+            };
+            unsafe { T::iter(mem::transmute(&column), column_type.clone()) }?;
+        }
+
         Ok(ComplexIterator {
             column_type,
             data,
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index b7d44cd..ecca6ad 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -169,14 +169,14 @@ impl LowCardinalityIndex {
 #[derive(Debug)]
 pub(crate) struct LowCardinalityInternals {
     pub(crate) index: *const LowCardinalityIndex,
-    pub(crate) accessor: *const dyn LowCardinalityAccessor,
+    pub(crate) accessor: Option<*const dyn LowCardinalityAccessor>,
 }
 
 impl Default for LowCardinalityInternals {
     fn default() -> Self {
         LowCardinalityInternals {
             index: ptr::null_mut(),
-            accessor: unsafe { mem::transmute([ptr::null_mut::<()>(), ptr::null_mut()]) },
+            accessor: None,
         }
     }
 }
@@ -412,7 +412,10 @@ impl ColumnData for LowCardinalityColumnData {
         unsafe {
             let data_ref = &mut *(data_ptr as *mut LowCardinalityInternals);
             data_ref.index = &self.index as *const LowCardinalityIndex;
-            data_ref.accessor = mem::transmute(accessor);
+            data_ref.accessor = Some(mem::transmute::<
+                &dyn LowCardinalityAccessor,
+                *const (dyn LowCardinalityAccessor + 'static),
+            >(accessor));
             Ok(())
         }
     }
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 16c2fdf..3b7c9e8 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -127,11 +127,17 @@ impl ColumnData for MapColumnData {
             *(pointers[1] as *mut usize) = self.offsets.len();
             Ok(())
         } else {
-            let new_props = match props {
-                0 => 0,
-                _ => 1 | (((props >> 1) - 1) << 1),
-            };
-            self.values.get_internal(pointers, level, new_props)
+            self.values
+                .get_internal(pointers, level, value_props(props))
+        }
+    }
+
+    unsafe fn get_internals(&self, data_ptr: *mut (), level: u8, props: u32) -> Result<()> {
+        if props == 1 {
+            self.keys.get_internals(data_ptr, level, 0)
+        } else {
+            self.values
+                .get_internals(data_ptr, level, value_props(props))
         }
     }
 
@@ -155,6 +161,13 @@ impl ColumnData for MapColumnData {
     }
 }
 
+fn value_props(props: u32) -> u32 {
+    match props {
+        0 => 0,
+        _ => 1 | (((props >> 1) - 1) << 1),
+    }
+}
+
 impl<V> ColumnFrom for Vec<HashMap<String, V>>
 where
     V: Copy
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index 75267b6..2b867ca 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -73,7 +73,7 @@ impl ColumnData for NullableColumnData {
     }
 
     fn at(&self, index: usize) -> ValueRef {
-        if self.nulls[index] == 1 {
+        if self.nulls[index] != 0 {
             let sql_type = self.inner.sql_type();
             ValueRef::Nullable(Either::Left(sql_type.into()))
         } else {
@@ -104,6 +104,10 @@ impl ColumnData for NullableColumnData {
         }
     }
 
+    unsafe fn get_internals(&self, data_ptr: *mut (), level: u8, props: u32) -> Result<()> {
+        self.inner.get_internals(data_ptr, level, props)
+    }
+
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Nullable(inner_target) = target {
             if let Some(inner) = self.inner.cast_to(&self.inner, inner_target) {
diff --git a/src/types/column/simple_agg_func.rs b/src/types/column/simple_agg_func.rs
index dfe24c3..368eff8 100644
--- a/src/types/column/simple_agg_func.rs
+++ b/src/types/column/simple_agg_func.rs
@@ -71,6 +71,10 @@ impl ColumnData for SimpleAggregateFunctionColumnData {
         self.inner.get_internal(pointers, level, props)
     }
 
+    unsafe fn get_internals(&self, data_ptr: *mut (), level: u8, props: u32) -> Result<()> {
+        self.inner.get_internals(data_ptr, level, props)
+    }
+
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::SimpleAggregateFunction(func, inner_target) = target {
             if let Some(inner) = self.inner.cast_to(&self.inner, inner_target) {
diff --git a/src/types/mod.rs b/src/types/mod.rs
index 83ff796..94ed1a0 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -449,6 +449,7 @@ impl SqlType {
             SqlType::Nullable(inner) => 1 + inner.level(),
             SqlType::Array(inner) => 1 + inner.level(),
             SqlType::Map(_, value) => 1 + value.level(),
+            SqlType::SimpleAggregateFunction(_, inner) => inner.level(),
             SqlType::LowCardinality(_) => 1,
             _ => 0,
         }
@@ -456,9 +457,10 @@ impl SqlType {
 
     pub(crate) fn map_level(&self) -> u8 {
         match self {
-            SqlType::Nullable(inner) => inner.level(),
-            SqlType::Array(inner) => inner.level(),
-            SqlType::Map(_, value) => 1 + value.level(),
+            SqlType::Nullable(inner) => inner.map_level(),
+            SqlType::Array(inner) => inner.map_level(),
+            SqlType::SimpleAggregateFunction(_, inner) => inner.map_level(),
+            SqlType::Map(_, value) => 1 + value.map_level(),
             _ => 0,
         }
     }
-- 
2.43.0


From 9c89dba7955e258918f10c26118cafc0757946d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:42 +0000
Subject: [PATCH 15/38] fix: column type names are parsed as the server spells
 them

---
 src/types/column/factory.rs | 226 ++++++++++++++----------------------
 src/types/column/mod.rs     |   1 +
 src/types/mod.rs            |   8 +-
 3 files changed, 94 insertions(+), 141 deletions(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 2728ecd..dbbbccd 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -53,7 +53,30 @@ macro_rules! match_str {
     }
 }
 
+const MAX_NESTING: usize = 64;
+
 impl dyn ColumnData {
+    /// Parsing of a type is recursive, so that its depth has to be bounded.
+    pub(crate) fn check_nesting(type_name: &str) -> Result<()> {
+        let mut depth = 0_usize;
+        let mut quoted = false;
+        let mut escaped = false;
+        for byte in type_name.bytes() {
+            match byte {
+                _ if escaped => escaped = false,
+                b'\\' => escaped = quoted,
+                b'\'' => quoted = !quoted,
+                b'(' if !quoted => depth += 1,
+                b')' if !quoted => depth = depth.saturating_sub(1),
+                _ => (),
+            }
+            if depth > MAX_NESTING {
+                return Err("Column type is nested too deeply.".into());
+            }
+        }
+        Ok(())
+    }
+
     /// The state of every low cardinality part of a column precedes the data of the whole column.
     pub(crate) fn load_prefix<T: ReadEx>(reader: &mut T, type_name: &str) -> Result<()> {
         if let Some(inner_type) = parse_nullable_type(type_name) {
@@ -274,24 +297,51 @@ impl dyn ColumnData {
     }
 }
 
-fn parse_fixed_string(source: &str) -> Option<usize> {
-    if !source.starts_with("FixedString") {
-        return None;
+/// Returns what stands between the parentheses of `Name(...)`.
+fn type_arguments<'a>(source: &'a str, name: &str) -> Option<&'a str> {
+    source
+        .strip_prefix(name)?
+        .strip_prefix('(')?
+        .strip_suffix(')')
+}
+
+/// Splits the arguments of a type at the first comma which is neither nested nor quoted.
+fn split_arguments(source: &str) -> Option<(&str, &str)> {
+    let mut depth = 0_usize;
+    let mut quoted = false;
+    let mut escaped = false;
+
+    for (idx, byte) in source.bytes().enumerate() {
+        if quoted {
+            match byte {
+                _ if escaped => escaped = false,
+                b'\\' => escaped = true,
+                b'\'' => quoted = false,
+                _ => (),
+            }
+            continue;
+        }
+        match byte {
+            b'\'' => quoted = true,
+            b'(' => depth += 1,
+            b')' => depth = depth.checked_sub(1)?,
+            b',' if depth == 0 => return Some((source[..idx].trim(), source[idx + 1..].trim())),
+            _ => (),
+        }
     }
 
-    let inner_size = &source[12..source.len() - 1];
-    match inner_size.parse::<usize>() {
-        Err(_) => None,
+    None
+}
+
+fn parse_fixed_string(source: &str) -> Option<usize> {
+    match type_arguments(source, "FixedString")?.parse::<usize>() {
+        Err(_) | Ok(0) => None,
         Ok(value) => Some(value),
     }
 }
 
 pub(super) fn parse_nullable_type(source: &str) -> Option<&str> {
-    if !source.starts_with("Nullable") {
-        return None;
-    }
-
-    let inner_type = &source[9..source.len() - 1];
+    let inner_type = type_arguments(source, "Nullable")?;
 
     if inner_type.starts_with("Nullable") {
         return None;
@@ -301,38 +351,15 @@ pub(super) fn parse_nullable_type(source: &str) -> Option<&str> {
 }
 
 fn parse_array_type(source: &str) -> Option<&str> {
-    if !source.starts_with("Array") {
-        return None;
-    }
-
-    let inner_type = &source[6..source.len() - 1];
-    Some(inner_type)
+    type_arguments(source, "Array")
 }
 
 fn parse_map_type(source: &str) -> Option<(&str, &str)> {
-    if !source.starts_with("Map") {
-        return None;
-    }
-
-    let body = &source[4..source.len() - 1];
-    let comma_pos = body.chars().position(|c| c == ',')?;
-
-    let key = body[0..comma_pos].trim();
-    let value = body[comma_pos + 1..].trim();
-
-    Some((key, value))
+    split_arguments(type_arguments(source, "Map")?)
 }
 
 fn parse_simple_agg_fun(source: &str) -> Option<(SimpleAggFunc, &str)> {
-    if !source.starts_with("SimpleAggregateFunction(") || !source.ends_with(')') {
-        return None;
-    }
-
-    let args = source[23..].trim_matches(|c| c == '(' || c == ')');
-    let sep_index = args.find(',')?;
-
-    let agg_func = args[..sep_index].trim();
-    let agg_type = args[sep_index + 1..].trim();
+    let (agg_func, agg_type) = split_arguments(type_arguments(source, "SimpleAggregateFunction")?)?;
 
     let func: SimpleAggFunc = match agg_func.parse() {
         Ok(func) => func,
@@ -343,82 +370,20 @@ fn parse_simple_agg_fun(source: &str) -> Option<(SimpleAggFunc, &str)> {
 }
 
 fn parse_decimal(source: &str) -> Option<(u8, u8, NoBits)> {
-    if source.len() < 12 {
-        return None;
-    }
-
-    if !source.starts_with("Decimal") {
-        return None;
-    }
-
-    let mut nobits = None;
-    let mut precision = None;
-    let mut scale = None;
-
-    let mut params_indexes = (None, None);
-
-    for (idx, byte) in source.as_bytes().iter().enumerate() {
-        if *byte == b'(' {
-            match &source.as_bytes()[..idx] {
-                b"Decimal" => {}
-                b"Decimal32" => {
-                    nobits = Some(NoBits::N32);
-                }
-                b"Decimal64" => {
-                    nobits = Some(NoBits::N64);
-                }
-                _ => return None,
-            }
-            params_indexes.0 = Some(idx);
-        }
-        if *byte == b')' {
-            params_indexes.1 = Some(idx);
-        }
-    }
-
-    let params_indexes = match params_indexes {
-        (Some(start), Some(end)) => (start, end),
-        _ => return None,
+    let (precision, scale): (u8, u8) = if let Some(scale) = type_arguments(source, "Decimal32") {
+        (9, scale.trim().parse().ok()?)
+    } else if let Some(scale) = type_arguments(source, "Decimal64") {
+        (18, scale.trim().parse().ok()?)
+    } else {
+        let (precision, scale) = split_arguments(type_arguments(source, "Decimal")?)?;
+        (precision.parse().ok()?, scale.parse().ok()?)
     };
 
-    match nobits {
-        Some(_) => {
-            scale = (source[params_indexes.0 + 1..params_indexes.1])
-                .parse()
-                .ok()
-        }
-        None => {
-            for (idx, cell) in (source[params_indexes.0 + 1..params_indexes.1])
-                .split(',')
-                .map(|s| s.trim())
-                .enumerate()
-            {
-                match idx {
-                    0 => precision = cell.parse().ok(),
-                    1 => scale = cell.parse().ok(),
-                    _ => return None,
-                }
-            }
-        }
+    if precision == 0 || scale > precision {
+        return None;
     }
 
-    match (precision, scale, nobits) {
-        (Some(precision), Some(scale), None) => {
-            if scale > precision {
-                return None;
-            }
-
-            NoBits::from_precision(precision).map(|nobits| (precision, scale, nobits))
-        }
-        (None, Some(scale), Some(bits)) => {
-            let precision = match bits {
-                NoBits::N32 => 9,
-                NoBits::N64 => 18,
-            };
-            Some((precision, scale, bits))
-        }
-        _ => None,
-    }
+    NoBits::from_precision(precision).map(|nobits| (precision, scale, nobits))
 }
 
 enum EnumSize {
@@ -427,16 +392,10 @@ enum EnumSize {
 }
 
 fn parse_enum8(input: &str) -> Option<Vec<(String, i8)>> {
-    match parse_enum(EnumSize::Enum8, input) {
-        Some(result) => {
-            let res: Vec<(String, i8)> = result
-                .iter()
-                .map(|(key, val)| (key.clone(), *val as i8))
-                .collect();
-            Some(res)
-        }
-        None => None,
-    }
+    parse_enum(EnumSize::Enum8, input)?
+        .into_iter()
+        .map(|(key, val)| Some((key, i8::try_from(val).ok()?)))
+        .collect()
 }
 fn parse_enum16(input: &str) -> Option<Vec<(String, i16)>> {
     parse_enum(EnumSize::Enum16, input)
@@ -543,32 +502,21 @@ fn parse_date_time64(source: &str) -> Option<(u32, Option<String>)> {
         .skip(token(')'));
 
     match parser.parse(source) {
-        Ok((pair, remain)) if remain.is_empty() => Some(pair),
+        Ok(((precision, timezone), remain)) if remain.is_empty() && precision <= 9 => {
+            Some((precision, timezone))
+        }
         _ => None,
     }
 }
 
 fn parse_low_cardinality(source: &str) -> Option<&str> {
-    if !source.starts_with("LowCardinality") {
-        return None;
-    }
-
-    let mut lo = 14;
-    let mut hi = source.len() - 1;
-
-    while lo < source.len() && &source[lo..lo + 1] != "(" {
-        lo += 1;
-    }
-
-    while hi > lo && &source[hi..hi + 1] != ")" {
-        hi -= 1;
-    }
-
-    if lo >= hi {
-        return None;
-    }
+    let inner_type = source
+        .strip_prefix("LowCardinality")?
+        .trim()
+        .strip_prefix('(')?
+        .strip_suffix(')')?;
 
-    Some(source[lo + 1..hi].trim())
+    Some(inner_type.trim())
 }
 
 fn get_timezone(timezone: &Option<String>, tz: Tz) -> Result<Tz> {
diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index 8600806..a3cfda0 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -180,6 +180,7 @@ impl<K: ColumnType> Column<K> {
     pub(crate) fn read<R: ReadEx>(reader: &mut R, size: usize, tz: Tz) -> Result<Column<K>> {
         let name = reader.read_string()?;
         let type_name = reader.read_string()?;
+        <dyn ColumnData>::check_nesting(&type_name)?;
         if size > 0 {
             <dyn ColumnData>::load_prefix(reader, &type_name)?;
         }
diff --git a/src/types/mod.rs b/src/types/mod.rs
index 94ed1a0..5d5a26a 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -370,6 +370,10 @@ impl From<SqlType> for &'static SqlType {
     }
 }
 
+fn escape_name(name: &str) -> String {
+    name.replace('\\', "\\\\").replace('\'', "\\'")
+}
+
 impl SqlType {
     pub(crate) fn is_datetime(&self) -> bool {
         matches!(self, SqlType::DateTime(_))
@@ -429,14 +433,14 @@ impl SqlType {
             SqlType::Enum8(values) => {
                 let a: Vec<String> = values
                     .iter()
-                    .map(|(name, value)| format!("'{name}' = {value}"))
+                    .map(|(name, value)| format!("'{}' = {value}", escape_name(name)))
                     .collect();
                 format!("Enum8({})", a.join(",")).into()
             }
             SqlType::Enum16(values) => {
                 let a: Vec<String> = values
                     .iter()
-                    .map(|(name, value)| format!("'{name}' = {value}"))
+                    .map(|(name, value)| format!("'{}' = {value}", escape_name(name)))
                     .collect();
                 format!("Enum16({})", a.join(",")).into()
             }
-- 
2.43.0


From 3306f81cd402f04047abb1a00f34ffc91278ecfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:08 +0000
Subject: [PATCH 16/38] fix: a decimal prints its sign and compares without
 overflow

---
 src/types/decimal.rs | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 800ca1b..1ca22fd 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -122,33 +122,23 @@ impl NoBits {
 
 impl PartialEq for Decimal {
     fn eq(&self, other: &Self) -> bool {
-        match self.scale.cmp(&other.scale) {
-            Ordering::Less => {
-                let delta = other.scale() - self.scale();
-                let underlying = self.underlying * FACTORS10[delta];
-                other.underlying == underlying
-            }
-            Ordering::Equal => self.underlying == other.underlying,
-            Ordering::Greater => {
-                let delta = self.scale() - other.scale();
-                let underlying = other.underlying * FACTORS10[delta];
-                self.underlying == underlying
-            }
-        }
+        let scale = self.scale().max(other.scale());
+        let rescaled = |decimal: &Decimal| {
+            i128::from(decimal.underlying) * i128::from(FACTORS10[scale - decimal.scale()])
+        };
+        rescaled(self) == rescaled(other)
     }
 }
 
 fn decimal2str(decimal: &Decimal) -> String {
-    let mut r = format!("{}", decimal.underlying);
-    while r.len() < decimal.scale() {
-        r.insert(0, '0');
-    }
-    let pos = r.len() - decimal.scale();
-    r.insert(pos, '.');
-    if r.starts_with('.') {
-        r.insert(0, '0');
+    let sign = if decimal.underlying < 0 { "-" } else { "" };
+    let digits = decimal.underlying.unsigned_abs();
+    let factor = FACTORS10[decimal.scale()] as u64;
+    let (int, frac) = (digits / factor, digits % factor);
+    match decimal.scale() {
+        0 => format!("{sign}{int}"),
+        scale => format!("{sign}{int}.{frac:0scale$}"),
     }
-    r
 }
 
 impl fmt::Display for Decimal {
-- 
2.43.0


From db0705e824abb55a07517bd26ee6a1a38b7878af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:08 +0000
Subject: [PATCH 17/38] fix: DateTime64 values before the epoch or far from it
 are converted exactly

---
 src/types/column/datetime64.rs | 51 +++++++++++++++-------------------
 src/types/from_sql.rs          |  6 ++--
 src/types/value.rs             | 25 ++---------------
 3 files changed, 28 insertions(+), 54 deletions(-)

diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index c1f9763..101d7b4 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -52,8 +52,10 @@ impl ColumnData for DateTime64ColumnData {
         SqlType::DateTime(DateTimeType::DateTime64(precision, tz))
     }
 
-    fn save(&self, _encoder: &mut Encoder, _start: usize, _end: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        for index in start..end {
+            encoder.write(self.data.at(index));
+        }
     }
 
     fn len(&self) -> usize {
@@ -113,9 +115,20 @@ impl ColumnData for DateTime64ColumnData {
 }
 
 pub(crate) fn from_datetime<T: TimeZone>(time: DateTime<T>, precision: u32) -> i64 {
-    let base10: i64 = 10;
-    let timestamp = time.timestamp_nanos_opt().unwrap();
-    timestamp / base10.pow(9 - precision)
+    let units = 10_i128.pow(precision.min(9));
+    let nanos = i128::from(time.timestamp()) * 1_000_000_000
+        + i128::from(time.timestamp_subsec_nanos());
+    let value = nanos.div_euclid(1_000_000_000 / units);
+    value.clamp(i64::MIN.into(), i64::MAX.into()) as i64
+}
+
+/// Splits a count of 10^-precision second units into whole seconds and nanoseconds.
+#[inline(always)]
+fn split_seconds(value: i64, precision: u32) -> (i64, u32) {
+    let precision = precision.min(9);
+    let units = 10_i64.pow(precision);
+    let nsec = value.rem_euclid(units) * 10_i64.pow(9 - precision);
+    (value.div_euclid(units), nsec as u32)
 }
 
 #[inline(always)]
@@ -125,34 +138,14 @@ pub(crate) fn to_datetime(value: i64, precision: u32, tz: Tz) -> DateTime<Tz> {
 
 #[inline(always)]
 pub(crate) fn to_datetime_opt(value: i64, precision: u32, tz: Tz) -> LocalResult<DateTime<Tz>> {
-    let base10: i64 = 10;
-
-    let nano = if precision < 19 {
-        value * base10.pow(9 - precision)
-    } else {
-        0_i64
-    };
-
-    let sec = nano / 1_000_000_000;
-    let nsec = nano - sec * 1_000_000_000;
-
-    tz.timestamp_opt(sec, nsec as u32)
+    let (sec, nsec) = split_seconds(value, precision);
+    tz.timestamp_opt(sec, nsec)
 }
 
 #[inline(always)]
 pub(crate) fn to_native_datetime_opt(value: i64, precision: u32) -> Option<NaiveDateTime> {
-    let base10: i64 = 10;
-
-    let nano = if precision < 19 {
-        value * base10.pow(9 - precision)
-    } else {
-        0_i64
-    };
-
-    let sec = nano / 1_000_000_000;
-    let nsec = nano - sec * 1_000_000_000;
-
-    NaiveDateTime::from_timestamp_opt(sec, nsec as u32)
+    let (sec, nsec) = split_seconds(value, precision);
+    NaiveDateTime::from_timestamp_opt(sec, nsec)
 }
 
 #[cfg(test)]
diff --git a/src/types/from_sql.rs b/src/types/from_sql.rs
index a5e580d..bab8961 100644
--- a/src/types/from_sql.rs
+++ b/src/types/from_sql.rs
@@ -10,7 +10,7 @@ use std::{
 use crate::{
     errors::{Error, FromSqlError, Result},
     types::{
-        column::datetime64::to_datetime,
+        column::datetime64::to_datetime_opt,
         value::{decode_ipv4, decode_ipv6},
         Decimal, Enum16, Enum8, SqlType, ValueRef,
     },
@@ -323,7 +323,9 @@ impl<'a> FromSql<'a> for DateTime<Tz> {
             }
             ValueRef::DateTime64(v, params) => {
                 let (precision, tz) = *params;
-                Ok(to_datetime(v, precision, tz))
+                to_datetime_opt(v, precision, tz)
+                    .single()
+                    .ok_or(Error::FromSql(FromSqlError::OutOfRange))
             }
             _ => {
                 let from = SqlType::from(value).to_string();
diff --git a/src/types/value.rs b/src/types/value.rs
index 9b38b41..269a78b 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -118,29 +118,8 @@ impl PartialEq for Value {
             (Value::Ipv4(a), Value::Ipv4(b)) => *a == *b,
             (Value::Ipv6(a), Value::Ipv6(b)) => *a == *b,
             (Value::Uuid(a), Value::Uuid(b)) => *a == *b,
-            (Value::DateTime64(a, (prec_a, tz_a)), Value::DateTime64(b, (prec_b, tz_b))) => {
-                // chrono has no "variable-precision" offset method. As a
-                // fallback, we always use `timestamp_nanos` and multiply by
-                // the correct value.
-                #[rustfmt::skip]
-                const MULTIPLIERS: [i64; 10] = [
-                    1_000_000_000, // 1 s  is 10^9 nanos
-                      100_000_000,
-                       10_000_000,
-                        1_000_000, // 1 ms is 10^6 nanos
-                          100_000,
-                           10_000,
-                            1_000, // 1 µs is 10^3 nanos
-                              100,
-                               10,
-                                1, // 1 ns is 1 nanos!
-                ];
-
-                // The precision must be in the [0 - 9] range. As such, the
-                // following indexing can not fail.
-                prec_a == prec_b
-                    && tz_a.timestamp_nanos(a * MULTIPLIERS[*prec_a as usize])
-                        == tz_b.timestamp_nanos(b * MULTIPLIERS[*prec_b as usize])
+            (Value::DateTime64(a, (prec_a, _)), Value::DateTime64(b, (prec_b, _))) => {
+                prec_a == prec_b && a == b
             }
 
             _ => false,
-- 
2.43.0


From 261015f0a47e35245c14dab7adaee3c363112779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:06 +0000
Subject: [PATCH 18/38] fix: the value behind NULL is not decoded by a typed
 iterator

---
 src/types/column/iter/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index fc5eb70..c4a287c 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -219,6 +219,7 @@ pub struct NullableIterator<'a, I> {
     ptr: *const u8,
     end: *const u8,
     _marker: marker::PhantomData<&'a ()>,
+    skip: usize,
 }
 
 pub struct ArrayIterator<'a, I> {
@@ -683,13 +684,20 @@ where
             return None;
         }
 
-        let value = self.inner.next()?;
-        unsafe {
+        let flag = unsafe {
             let flag = *self.ptr;
             self.ptr = self.ptr.offset(1);
+            flag
+        };
 
-            Some(if flag != 0 { None } else { Some(value) })
+        // what stands behind NULL means nothing, it must not be decoded
+        if flag != 0 {
+            self.skip += 1;
+            return Some(None);
         }
+
+        let value = self.inner.nth(mem::take(&mut self.skip))?;
+        Some(Some(value))
     }
 
     #[inline]
@@ -1254,6 +1262,7 @@ where
         };
 
         Ok(NullableIterator {
+            skip: 0,
             inner,
             ptr,
             end,
-- 
2.43.0


From b8a0b7b867226b528fca0729a3d53a65af244be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:21 +0000
Subject: [PATCH 19/38] fix: a column shared with a clone can be extended

---
 src/types/column/array.rs           |  4 ++--
 src/types/column/column_data.rs     |  8 ++++++++
 src/types/column/concat.rs          | 14 ++++++++++----
 src/types/column/low_cardinality.rs | 12 ++++--------
 src/types/column/map.rs             |  6 +++---
 src/types/column/mod.rs             | 14 ++------------
 src/types/column/nullable.rs        |  4 ++--
 src/types/column/simple_agg_func.rs |  5 ++---
 8 files changed, 33 insertions(+), 34 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index 8b39224..35afede 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -7,7 +7,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             list::List,
             util::check_offsets,
             ArcColumnWrapper, ColumnData,
@@ -67,7 +67,7 @@ impl ColumnData for ArrayColumnData {
                 self.offsets.at(offsets_len - 1) as usize
             };
 
-            let inner_column = Arc::get_mut(&mut self.inner).unwrap();
+            let inner_column = make_mut(&mut self.inner);
             self.offsets.push((prev + vs.len()) as u64);
             for v in vs.iter() {
                 inner_column.push(v.clone());
diff --git a/src/types/column/column_data.rs b/src/types/column/column_data.rs
index 9712ae8..5759d18 100644
--- a/src/types/column/column_data.rs
+++ b/src/types/column/column_data.rs
@@ -11,6 +11,14 @@ pub(crate) type ArcColumnData = Arc<dyn ColumnData + Send + Sync>;
 
 pub(crate) type BoxColumnData = Box<dyn ColumnData + Send + Sync>;
 
+/// Makes a column writable; data it shares with other columns are copied first.
+pub(crate) fn make_mut(column: &mut ArcColumnData) -> &mut (dyn ColumnData + Send + Sync) {
+    if Arc::get_mut(column).is_none() {
+        *column = Arc::from(column.clone_instance());
+    }
+    Arc::get_mut(column).unwrap()
+}
+
 pub trait LowCardinalityAccessor {
     fn get_string(&self, _index: usize) -> &[u8] {
         unimplemented!()
diff --git a/src/types/column/concat.rs b/src/types/column/concat.rs
index a547a61..b57707c 100644
--- a/src/types/column/concat.rs
+++ b/src/types/column/concat.rs
@@ -6,7 +6,7 @@ use crate::{
     types::{SqlType, Value, ValueRef},
 };
 
-use super::column_data::{ArcColumnData, BoxColumnData, ColumnData};
+use super::column_data::{make_mut, ArcColumnData, BoxColumnData, ColumnData};
 
 pub struct ConcatColumnData {
     data: Vec<ArcColumnData>,
@@ -52,8 +52,11 @@ impl ColumnData for ConcatColumnData {
         *self.index.last().unwrap()
     }
 
-    fn push(&mut self, _value: Value) {
-        unimplemented!()
+    fn push(&mut self, value: Value) {
+        if let (Some(chunk), Some(len)) = (self.data.last_mut(), self.index.last_mut()) {
+            make_mut(chunk).push(value);
+            *len += 1;
+        }
     }
 
     fn at(&self, index: usize) -> ValueRef {
@@ -63,7 +66,10 @@ impl ColumnData for ConcatColumnData {
     }
 
     fn clone_instance(&self) -> BoxColumnData {
-        unimplemented!()
+        Box::new(Self {
+            data: self.data.clone(),
+            index: self.index.clone(),
+        })
     }
 
     unsafe fn get_internal(
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index ecca6ad..e633832 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -1,13 +1,13 @@
 use chrono_tz::Tz;
 use either::Either;
-use std::{borrow::Cow, cmp, collections::HashMap, mem, ptr, sync::Arc};
+use std::{borrow::Cow, cmp, collections::HashMap, mem, ptr};
 
 use crate::{
     binary::{Encoder, ReadEx},
     errors::{DriverError, Error, FromSqlError, Result},
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData, LowCardinalityAccessor},
+            column_data::{make_mut, ArcColumnData, BoxColumnData, LowCardinalityAccessor},
             factory::parse_nullable_type,
             ArcColumnWrapper, ColumnData, VectorColumnData,
         },
@@ -354,9 +354,7 @@ impl ColumnData for LowCardinalityColumnData {
 
         if self.nullable && self.inner.len() == 0 {
             let default_value = Value::default(self.inner.sql_type());
-            Arc::get_mut(&mut self.inner)
-                .expect("Column shouldn't be shared")
-                .push(default_value);
+            make_mut(&mut self.inner).push(default_value);
         }
 
         if self.nullable && matches!(value, Value::Nullable(Either::Left(_))) {
@@ -367,9 +365,7 @@ impl ColumnData for LowCardinalityColumnData {
         match value_map.get_mut(&value) {
             None => {
                 let new_index = self.inner.len();
-                Arc::get_mut(&mut self.inner)
-                    .expect("Column shouldn't be shared")
-                    .push(value.clone());
+                make_mut(&mut self.inner).push(value.clone());
                 value_map.insert(value, new_index);
                 self.index.push(new_index);
             }
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 3b7c9e8..6b841e5 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -3,7 +3,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             list::List,
             util::check_offsets,
             ArcColumnWrapper, ColumnData, ColumnFrom, ColumnWrapper,
@@ -73,8 +73,8 @@ impl ColumnData for MapColumnData {
                 self.offsets.at(offsets_len - 1) as usize
             };
 
-            let key_column = Arc::get_mut(&mut self.keys).unwrap();
-            let value_column = Arc::get_mut(&mut self.values).unwrap();
+            let key_column = make_mut(&mut self.keys);
+            let value_column = make_mut(&mut self.values);
 
             self.offsets.push((prev + vs.len()) as u64);
             for (k, v) in vs.iter() {
diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index a3cfda0..ae1577b 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -12,7 +12,7 @@ use crate::{
     errors::{Error, FromSqlError, Result},
     types::{
         column::{
-            column_data::ArcColumnData,
+            column_data::{make_mut, ArcColumnData},
             decimal::{DecimalAdapter, NullableDecimalAdapter},
             enums::{Enum16Adapter, Enum8Adapter, NullableEnum16Adapter, NullableEnum8Adapter},
             fixed_string::{FixedStringAdapter, NullableFixedStringAdapter},
@@ -470,17 +470,7 @@ impl<K: ColumnType> Column<K> {
     }
 
     pub(crate) fn push(&mut self, value: Value) {
-        loop {
-            match Arc::get_mut(&mut self.data) {
-                None => {
-                    self.data = Arc::from(self.data.clone_instance());
-                }
-                Some(data) => {
-                    data.push(value);
-                    break;
-                }
-            }
-        }
+        make_mut(&mut self.data).push(value);
     }
 
     pub(crate) unsafe fn get_internal(
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index 2b867ca..119b608 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -5,7 +5,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             ArcColumnWrapper, ColumnData,
         },
         SqlType, Value, ValueRef,
@@ -52,7 +52,7 @@ impl ColumnData for NullableColumnData {
     }
 
     fn push(&mut self, value: Value) {
-        let inner_column: &mut dyn ColumnData = Arc::get_mut(&mut self.inner).unwrap();
+        let inner_column = make_mut(&mut self.inner);
 
         if let Value::Nullable(e) = value {
             match e {
diff --git a/src/types/column/simple_agg_func.rs b/src/types/column/simple_agg_func.rs
index 368eff8..2162397 100644
--- a/src/types/column/simple_agg_func.rs
+++ b/src/types/column/simple_agg_func.rs
@@ -3,7 +3,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             ArcColumnWrapper, ColumnData,
         },
         SimpleAggFunc, SqlType, Value, ValueRef,
@@ -47,8 +47,7 @@ impl ColumnData for SimpleAggregateFunctionColumnData {
     }
 
     fn push(&mut self, value: Value) {
-        let inner_column: &mut dyn ColumnData = Arc::get_mut(&mut self.inner).unwrap();
-        inner_column.push(value);
+        make_mut(&mut self.inner).push(value);
     }
 
     fn at(&self, index: usize) -> ValueRef {
-- 
2.43.0


From 711db0768c1a78a73217a04e82412282dfeb7cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:29 +0000
Subject: [PATCH 20/38] fix: inserting a block without rows sends one end
 marker

---
 src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0291bd7..1a96bb7 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -512,10 +512,13 @@ impl ClientHandle {
         context: Context,
         block: Block,
     ) -> Result<ClickhouseTransport> {
-        let send_cmd = Cmd::Union(
-            Box::new(Cmd::SendData(block, context.clone())),
-            Box::new(Cmd::SendData(Block::default(), context)),
-        );
+        let end_cmd = Cmd::SendData(Block::default(), context.clone());
+        // A block without rows would itself be taken for the end marker
+        let send_cmd = if block.row_count() == 0 {
+            end_cmd
+        } else {
+            Cmd::Union(Box::new(Cmd::SendData(block, context)), Box::new(end_cmd))
+        };
         let (transport, _) = transport.call(send_cmd).read_block().await?;
         Ok(transport)
     }
-- 
2.43.0


From 109a2499ae53b8921f32494ba1e12f02f40571a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:35 +0000
Subject: [PATCH 21/38] fix: part of an array, map or concatenated column is
 saved with its own offsets

---
 src/types/column/array.rs           | 11 ++++++++---
 src/types/column/chrono_datetime.rs |  6 ++++--
 src/types/column/concat.rs          | 19 ++++++++++++++++---
 src/types/column/map.rs             | 14 ++++++++++----
 4 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index 35afede..5c8f01e 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -44,14 +44,19 @@ impl ColumnData for ArrayColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        let base = if start > 0 {
+            self.offsets.at(start - 1)
+        } else {
+            0_u64
+        };
+        let mut offset = base;
 
         for i in start..end {
             offset = self.offsets.at(i);
-            encoder.write(offset);
+            encoder.write(offset - base);
         }
 
-        self.inner.save(encoder, 0, offset as usize);
+        self.inner.save(encoder, base as usize, offset as usize);
     }
 
     fn len(&self) -> usize {
diff --git a/src/types/column/chrono_datetime.rs b/src/types/column/chrono_datetime.rs
index 86eb16b..ee924b1 100644
--- a/src/types/column/chrono_datetime.rs
+++ b/src/types/column/chrono_datetime.rs
@@ -87,8 +87,10 @@ impl ColumnData for ChronoDateTimeColumnData {
         SqlType::DateTime(DateTimeType::Chrono)
     }
 
-    fn save(&self, _encoder: &mut Encoder, _start: usize, _end: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        for time in &self.data[start..end] {
+            encoder.write(time.timestamp() as u32);
+        }
     }
 
     fn len(&self) -> usize {
diff --git a/src/types/column/concat.rs b/src/types/column/concat.rs
index b57707c..c27dfa4 100644
--- a/src/types/column/concat.rs
+++ b/src/types/column/concat.rs
@@ -6,7 +6,10 @@ use crate::{
     types::{SqlType, Value, ValueRef},
 };
 
-use super::column_data::{make_mut, ArcColumnData, BoxColumnData, ColumnData};
+use super::{
+    column_data::{make_mut, ArcColumnData, BoxColumnData, ColumnData},
+    BoxColumnWrapper,
+};
 
 pub struct ConcatColumnData {
     data: Vec<ArcColumnData>,
@@ -44,8 +47,18 @@ impl ColumnData for ConcatColumnData {
         self.data[0].sql_type()
     }
 
-    fn save(&self, _: &mut Encoder, _: usize, _: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        let timezone = self.get_timezone().unwrap_or(Tz::Zulu);
+        let mut column = <dyn ColumnData>::from_type::<BoxColumnWrapper>(
+            self.sql_type(),
+            timezone,
+            end - start,
+        )
+        .expect("column of this type already exists");
+        for index in start..end {
+            column.push(self.at(index).into());
+        }
+        column.save(encoder, 0, end - start);
     }
 
     fn len(&self) -> usize {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 6b841e5..baa0012 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -49,15 +49,21 @@ impl ColumnData for MapColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        let base = if start > 0 {
+            self.offsets.at(start - 1)
+        } else {
+            0_u64
+        };
+        let mut offset = base;
 
         for i in start..end {
             offset = self.offsets.at(i);
-            encoder.write(offset);
+            encoder.write(offset - base);
         }
 
-        self.keys.save(encoder, 0, offset as usize);
-        self.values.save(encoder, 0, offset as usize);
+        self.keys.save(encoder, base as usize, offset as usize);
+        self.values
+            .save(encoder, base as usize, offset as usize);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From b931ad6bfadfa506591ed16c3384cf61846ae924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:57 +0000
Subject: [PATCH 22/38] fix: an insert refuses values and types the table's
 column cannot hold

---
 src/types/column/chrono_datetime.rs |  14 +++-
 src/types/column/datetime64.rs      |  14 +++-
 src/types/column/enums.rs           |   7 ++
 src/types/column/mod.rs             | 100 ++++++++++++++++++++++++----
 src/types/decimal.rs                |  11 +++
 5 files changed, 130 insertions(+), 16 deletions(-)

diff --git a/src/types/column/chrono_datetime.rs b/src/types/column/chrono_datetime.rs
index ee924b1..92d5139 100644
--- a/src/types/column/chrono_datetime.rs
+++ b/src/types/column/chrono_datetime.rs
@@ -8,7 +8,7 @@ use crate::{
     types::{
         column::{
             column_data::{ArcColumnData, BoxColumnData, ColumnData},
-            datetime64::{from_datetime, DEFAULT_TZ},
+            datetime64::{from_datetime, is_datetime64, DEFAULT_TZ},
             nullable::NullableColumnData,
             ArcColumnWrapper, ColumnFrom, ColumnWrapper, Value, ValueRef,
         },
@@ -128,7 +128,17 @@ impl ColumnData for ChronoDateTimeColumnData {
     }
 
     fn cast_to(&self, this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
-        if target.is_datetime() {
+        let is_valid = match target {
+            SqlType::DateTime(DateTimeType::DateTime64(precision, _)) => {
+                self.data.iter().all(|time| is_datetime64(time, *precision))
+            }
+            SqlType::DateTime(_) => self
+                .data
+                .iter()
+                .all(|time| u32::try_from(time.timestamp()).is_ok()),
+            _ => false,
+        };
+        if is_valid {
             let clone = this.clone();
             let adapter = ChronoDateTimeAdapter::new(clone, target.clone());
             Some(Arc::new(adapter))
diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 101d7b4..1669162 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -115,11 +115,21 @@ impl ColumnData for DateTime64ColumnData {
 }
 
 pub(crate) fn from_datetime<T: TimeZone>(time: DateTime<T>, precision: u32) -> i64 {
+    let value = count_units(&time, precision);
+    value.clamp(i64::MIN.into(), i64::MAX.into()) as i64
+}
+
+/// Whether the time has a place among the DateTime64 values of the given precision.
+pub(crate) fn is_datetime64<T: TimeZone>(time: &DateTime<T>, precision: u32) -> bool {
+    i64::try_from(count_units(time, precision)).is_ok()
+}
+
+#[inline(always)]
+fn count_units<T: TimeZone>(time: &DateTime<T>, precision: u32) -> i128 {
     let units = 10_i128.pow(precision.min(9));
     let nanos = i128::from(time.timestamp()) * 1_000_000_000
         + i128::from(time.timestamp_subsec_nanos());
-    let value = nanos.div_euclid(1_000_000_000 / units);
-    value.clamp(i64::MIN.into(), i64::MAX.into()) as i64
+    nanos.div_euclid(1_000_000_000 / units)
 }
 
 /// Splits a count of 10^-precision second units into whole seconds and nanoseconds.
diff --git a/src/types/column/enums.rs b/src/types/column/enums.rs
index e22cb28..2ec0f05 100644
--- a/src/types/column/enums.rs
+++ b/src/types/column/enums.rs
@@ -9,6 +9,7 @@ use crate::{
         column::{
             array::ArrayColumnData,
             column_data::{ArcColumnData, BoxColumnData, ColumnData},
+            is_sub_enum,
             list::List,
             nullable::NullableColumnData,
             ArcColumnWrapper, BoxColumnWrapper, ColumnFrom, ColumnWrapper, VectorColumnData,
@@ -85,6 +86,9 @@ impl ColumnData for Enum16ColumnData {
 
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Enum16(data) = target {
+            if !is_sub_enum(&self.enum_values, data) {
+                return None;
+            }
             let data: Enum16ColumnData = Enum16ColumnData {
                 inner: self.inner.clone_instance(),
                 enum_values: data.clone(),
@@ -327,6 +331,9 @@ impl ColumnData for Enum8ColumnData {
 
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Enum8(data) = target {
+            if !is_sub_enum(&self.enum_values, data) {
+                return None;
+            }
             let data: Enum8ColumnData = Enum8ColumnData {
                 inner: self.inner.clone_instance(),
                 enum_values: data.clone(),
diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index ae1577b..4f7f491 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -6,6 +6,7 @@ use std::{
 };
 
 use chrono_tz::Tz;
+use either::Either;
 
 use crate::{
     binary::{Encoder, ReadEx},
@@ -23,7 +24,7 @@ use crate::{
             string::StringAdapter,
         },
         decimal::NoBits,
-        SqlType, Value, ValueRef,
+        DateTimeType, SqlType, Value, ValueRef,
     },
 };
 
@@ -234,6 +235,24 @@ impl<K: ColumnType> Column<K> {
         }
     }
 
+    /// Refuses values that the destination type is not able to represent.
+    fn check_values<F>(&self, is_valid: F) -> Result<()>
+    where
+        F: Fn(&ValueRef) -> bool,
+    {
+        for i in 0..self.len() {
+            let valid = match self.at(i) {
+                ValueRef::Nullable(Either::Left(_)) => true,
+                ValueRef::Nullable(Either::Right(value)) => is_valid(&value),
+                value => is_valid(&value),
+            };
+            if !valid {
+                return Err(Error::FromSql(FromSqlError::OutOfRange));
+            }
+        }
+        Ok(())
+    }
+
     pub(crate) fn cast_to(self, dst_type: SqlType) -> Result<Self> {
         let src_type = self.sql_type();
 
@@ -242,7 +261,16 @@ impl<K: ColumnType> Column<K> {
         }
 
         match (dst_type.clone(), src_type.clone()) {
-            (SqlType::LowCardinality(inner), src_type) if src_type.is_inner_low_cardinality() => {
+            (SqlType::LowCardinality(inner), src_type) if is_low_cardinality_of(inner, &src_type) => {
+                if let SqlType::FixedString(str_len) = inner {
+                    self.check_values(|value| has_length_up_to(value, *str_len))?;
+                }
+                if src_type == SqlType::DateTime(DateTimeType::Chrono)
+                    && self.data.cast_to(&self.data, inner).is_none()
+                {
+                    return Err(Error::FromSql(FromSqlError::OutOfRange));
+                }
+
                 let name = self.name().to_owned();
                 let tz = self.data.get_timezone().unwrap_or(Tz::Zulu);
                 let mut low_card_data = LowCardinalityColumnData::empty(inner, tz, self.len())?;
@@ -265,6 +293,7 @@ impl<K: ColumnType> Column<K> {
                 })
             }
             (SqlType::FixedString(str_len), SqlType::String) => {
+                self.check_values(|value| has_length_up_to(value, str_len))?;
                 let name = self.name().to_owned();
                 let adapter = FixedStringAdapter {
                     column: self,
@@ -280,6 +309,7 @@ impl<K: ColumnType> Column<K> {
                 SqlType::Nullable(SqlType::FixedString(str_len)),
                 SqlType::Nullable(SqlType::String),
             ) => {
+                self.check_values(|value| has_length_up_to(value, *str_len))?;
                 let name = self.name().to_owned();
                 let adapter = NullableFixedStringAdapter {
                     column: self,
@@ -305,6 +335,7 @@ impl<K: ColumnType> Column<K> {
                 string_column.cast_to(SqlType::FixedString(n))
             }
             (SqlType::Decimal(dst_p, dst_s), SqlType::Decimal(_, _)) => {
+                self.check_values(|value| is_decimal(value, dst_p, dst_s))?;
                 let name = self.name().to_owned();
                 let nobits = NoBits::from_precision(dst_p).unwrap();
                 let adapter = DecimalAdapter {
@@ -319,7 +350,9 @@ impl<K: ColumnType> Column<K> {
                     _marker: marker::PhantomData,
                 })
             }
-            (SqlType::Enum8(enum_values), SqlType::Enum8(_)) => {
+            (SqlType::Enum8(enum_values), SqlType::Enum8(src_values))
+                if is_sub_enum(&src_values, &enum_values) =>
+            {
                 let name = self.name().to_owned();
                 let adapter = Enum8Adapter {
                     column: self,
@@ -331,7 +364,9 @@ impl<K: ColumnType> Column<K> {
                     _marker: marker::PhantomData,
                 })
             }
-            (SqlType::Enum16(enum_values), SqlType::Enum16(_)) => {
+            (SqlType::Enum16(enum_values), SqlType::Enum16(src_values))
+                if is_sub_enum(&src_values, &enum_values) =>
+            {
                 let name = self.name().to_owned();
                 let adapter = Enum16Adapter {
                     column: self,
@@ -345,8 +380,8 @@ impl<K: ColumnType> Column<K> {
             }
             (
                 SqlType::Nullable(SqlType::Enum8(enum_values)),
-                SqlType::Nullable(SqlType::Enum8(_)),
-            ) => {
+                SqlType::Nullable(SqlType::Enum8(src_values)),
+            ) if is_sub_enum(src_values, enum_values) => {
                 let name = self.name().to_owned();
                 let enum_values = enum_values.clone();
                 let adapter = NullableEnum8Adapter {
@@ -361,8 +396,8 @@ impl<K: ColumnType> Column<K> {
             }
             (
                 SqlType::Nullable(SqlType::Enum16(enum_values)),
-                SqlType::Nullable(SqlType::Enum16(_)),
-            ) => {
+                SqlType::Nullable(SqlType::Enum16(src_values)),
+            ) if is_sub_enum(src_values, enum_values) => {
                 let name = self.name().to_owned();
                 let enum_values = enum_values.clone();
                 let adapter = NullableEnum16Adapter {
@@ -379,6 +414,7 @@ impl<K: ColumnType> Column<K> {
                 SqlType::Nullable(SqlType::Decimal(dst_p, dst_s)),
                 SqlType::Nullable(SqlType::Decimal(_, _)),
             ) => {
+                self.check_values(|value| is_decimal(value, *dst_p, *dst_s))?;
                 let name = self.name().to_owned();
                 let nobits = NoBits::from_precision(*dst_p).unwrap();
                 let adapter = NullableDecimalAdapter {
@@ -399,8 +435,11 @@ impl<K: ColumnType> Column<K> {
                 let n = self.len();
                 let mut inner = Vec::with_capacity(n);
                 for i in 0..n {
-                    let source = self.at(i).as_str().unwrap();
-                    let ip: Ipv4Addr = source.parse().unwrap();
+                    let value = self.at(i);
+                    let source = value.as_str()?;
+                    let ip: Ipv4Addr = source
+                        .parse()
+                        .map_err(|_| Error::FromSql(FromSqlError::OutOfRange))?;
                     let mut buffer = [0_u8; 4];
                     buffer.copy_from_slice(&ip.octets());
                     buffer.reverse();
@@ -424,8 +463,11 @@ impl<K: ColumnType> Column<K> {
                 let n = self.len();
                 let mut inner = Vec::with_capacity(n);
                 for i in 0..n {
-                    let source = self.at(i).as_str().unwrap();
-                    let ip: Ipv6Addr = source.parse().unwrap();
+                    let value = self.at(i);
+                    let source = value.as_str()?;
+                    let ip: Ipv6Addr = source
+                        .parse()
+                        .map_err(|_| Error::FromSql(FromSqlError::OutOfRange))?;
                     inner.extend(&ip.octets());
                 }
 
@@ -542,3 +584,37 @@ impl ColumnWrapper for BoxColumnWrapper {
         unimplemented!()
     }
 }
+
+fn is_low_cardinality_of(inner: &SqlType, src_type: &SqlType) -> bool {
+    if !src_type.is_inner_low_cardinality() {
+        return false;
+    }
+    match inner {
+        SqlType::FixedString(_) => inner == src_type || *src_type == SqlType::String,
+        SqlType::DateTime(DateTimeType::DateTime32) => matches!(
+            src_type,
+            SqlType::DateTime(DateTimeType::DateTime32 | DateTimeType::Chrono)
+        ),
+        _ => inner == src_type,
+    }
+}
+
+fn has_length_up_to(value: &ValueRef, max_len: usize) -> bool {
+    match value {
+        ValueRef::String(bytes) => bytes.len() <= max_len,
+        ValueRef::Array(_, items) => items.len() <= max_len,
+        _ => false,
+    }
+}
+
+fn is_decimal(value: &ValueRef, precision: u8, scale: u8) -> bool {
+    match value {
+        ValueRef::Decimal(decimal) => decimal.fits(precision, scale),
+        _ => false,
+    }
+}
+
+/// An empty source means that the values have been given by their numbers only.
+fn is_sub_enum<T: PartialEq>(src: &[(String, T)], dst: &[(String, T)]) -> bool {
+    src.iter().all(|value| dst.contains(value))
+}
diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 1ca22fd..3c4a53a 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -231,6 +231,17 @@ impl Decimal {
         self.scale as usize
     }
 
+    /// Whether the number has a place among the decimals of the given precision and scale.
+    pub(crate) fn fits(&self, precision: u8, scale: u8) -> bool {
+        let mut value = i128::from(self.underlying);
+        if scale > self.scale {
+            value *= i128::from(FACTORS10[(scale - self.scale) as usize]);
+        } else {
+            value /= i128::from(FACTORS10[(self.scale - scale) as usize]);
+        }
+        value.unsigned_abs() < 10_u128.pow(u32::from(precision))
+    }
+
     pub(crate) fn set_scale(self, scale: u8) -> Self {
         let underlying = match scale.cmp(&self.scale) {
             Ordering::Less => {
-- 
2.43.0


From 9904fa32801a6814093ee2ad9f15c133d620481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:44 +0000
Subject: [PATCH 23/38] fix: an alternative host without a port gets the
 default one and an invalid one is refused

---
 src/types/options.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index 4c2b683..931c15d 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -670,10 +670,14 @@ fn parse_compression(source: &str) -> std::result::Result<bool, ()> {
 fn parse_hosts(source: &str) -> std::result::Result<Vec<Url>, ()> {
     let mut result = Vec::new();
     for host in source.split(',') {
-        match Url::from_str(&format!("tcp://{host}")) {
-            Ok(url) => result.push(url),
-            Err(_) => return Err(()),
+        let mut url = Url::from_str(&format!("tcp://{host}")).map_err(|_| ())?;
+        if !url.has_host() || !matches!(url.path(), "" | "/") || url.query().is_some() {
+            return Err(());
         }
+        if url.port().is_none() {
+            url.set_port(Some(9000))?;
+        }
+        result.push(url)
     }
     Ok(result)
 }
-- 
2.43.0


From 6df67557c486d866f71330e02f724d4ef546c0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:09 +0000
Subject: [PATCH 24/38] fix: escape sequences in the quoted arguments of a type
 name denote control characters

---
 src/types/column/factory.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index dbbbccd..a387e32 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -386,6 +386,19 @@ fn parse_decimal(source: &str) -> Option<(u8, u8, NoBits)> {
     NoBits::from_precision(precision).map(|nobits| (precision, scale, nobits))
 }
 
+/// The character which the server writes as a backslash followed by `symbol`.
+fn unescape(symbol: char) -> char {
+    match symbol {
+        'b' => '\u{8}',
+        'f' => '\u{c}',
+        'n' => '\n',
+        'r' => '\r',
+        't' => '\t',
+        '0' => '\0',
+        _ => symbol,
+    }
+}
+
 enum EnumSize {
     Enum8,
     Enum16,
@@ -418,7 +431,7 @@ fn parse_enum(size: EnumSize, input: &str) -> Option<Vec<(String, i16)>> {
                 .map_err(|_| StringStreamError::UnexpectedParse)
         });
 
-    let word_syms = token('\\').with(any()).or(none_of("'".chars()));
+    let word_syms = token('\\').with(any().map(unescape)).or(none_of("'".chars()));
     let word = token('\'').with(many(word_syms)).skip(token('\''));
 
     let pair = spaces()
@@ -449,7 +462,7 @@ fn parse_enum(size: EnumSize, input: &str) -> Option<Vec<(String, i16)>> {
 }
 
 fn parse_date_time(source: &str) -> Option<Option<String>> {
-    let word_syms = token('\\').with(any()).or(none_of("'".chars()));
+    let word_syms = token('\\').with(any().map(unescape)).or(none_of("'".chars()));
     let word = token('\'')
         .with(many::<String, _, _>(word_syms))
         .skip(token('\''));
@@ -479,7 +492,7 @@ fn parse_date_time64(source: &str) -> Option<(u32, Option<String>)> {
             .map_err(|_| StringStreamError::UnexpectedParse)
     });
 
-    let word_syms = token('\\').with(any()).or(none_of("'".chars()));
+    let word_syms = token('\\').with(any().map(unescape)).or(none_of("'".chars()));
     let word = token('\'')
         .with(many::<String, _, _>(word_syms))
         .skip(token('\''));
-- 
2.43.0


From 84dc9cad468fa94728acf2b80fa21fc9c5e35e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:05 +0000
Subject: [PATCH 25/38] fix: streams of blocks and rows keep the rows of the
 first block

---
 src/types/query_result/stream_blocks.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/types/query_result/stream_blocks.rs b/src/types/query_result/stream_blocks.rs
index 4e800b0..05e640a 100644
--- a/src/types/query_result/stream_blocks.rs
+++ b/src/types/query_result/stream_blocks.rs
@@ -115,7 +115,9 @@ impl<'a> Stream for BlockStream<'a> {
                 }
                 Packet::Block(block) => {
                     self.block_index += 1;
-                    if (self.block_index > 1 || !self.skip_first_block) && !block.is_empty() {
+                    // Usually the first block only describes the columns
+                    let is_header = self.block_index == 1 && block.row_count() == 0;
+                    if !(is_header && self.skip_first_block) && !block.is_empty() {
                         return Poll::Ready(Some(Ok(block)));
                     }
                 }
-- 
2.43.0


From db3d24134a0e7c395ff65db942f41153399898a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:11 +0000
Subject: [PATCH 26/38] fix: a big block is compressed into several frames

---
 src/types/block/mod.rs | 58 +++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 4e34297..98dfb3a 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -38,6 +38,9 @@ pub(crate) const INSERT_BLOCK_SIZE: usize = 1_048_576;
 
 const DEFAULT_CAPACITY: usize = 100;
 
+/// Servers refuse frames of more than 1GB
+const MAX_FRAME_DATA_SIZE: usize = 0x1000_0000;
+
 pub trait ColumnIdx {
     fn get_index<K: ColumnType>(&self, columns: &[Column<K>]) -> Result<usize>;
 }
@@ -345,31 +348,10 @@ impl<K: ColumnType> Block<K> {
             self.write(&mut tmp_encoder, false);
             let tmp = tmp_encoder.get_buffer();
 
-            let mut buf = Vec::new();
-            let size;
-            unsafe {
-                buf.resize(9 + LZ4_compressBound(tmp.len() as i32) as usize, 0_u8);
-                size = LZ4_compress_default(
-                    tmp.as_ptr() as *const c_char,
-                    (buf.as_mut_ptr() as *mut c_char).add(9),
-                    tmp.len() as i32,
-                    buf.len() as i32,
-                );
-            }
-            buf.resize(9 + size as usize, 0_u8);
-
-            let buf_len = buf.len() as u32;
-            {
-                let mut cursor = Cursor::new(&mut buf);
-                cursor.write_u8(0x82).unwrap();
-                cursor.write_u32::<LittleEndian>(buf_len).unwrap();
-                cursor.write_u32::<LittleEndian>(tmp.len() as u32).unwrap();
+            // A frame holds a limited amount of data, so a big block takes several
+            for data in tmp.chunks(MAX_FRAME_DATA_SIZE) {
+                write_compressed(encoder, data);
             }
-
-            let hash = city_hash_128(&buf);
-            encoder.write(hash.lo);
-            encoder.write(hash.hi);
-            encoder.write_bytes(buf.as_ref());
         } else {
             self.info.write(encoder);
             encoder.uvarint(self.column_count() as u64);
@@ -429,6 +411,34 @@ impl<K: ColumnType> fmt::Debug for Block<K> {
     }
 }
 
+fn write_compressed(encoder: &mut Encoder, data: &[u8]) {
+    let mut buf = Vec::new();
+    let size;
+    unsafe {
+        buf.resize(9 + LZ4_compressBound(data.len() as i32) as usize, 0_u8);
+        size = LZ4_compress_default(
+            data.as_ptr() as *const c_char,
+            (buf.as_mut_ptr() as *mut c_char).add(9),
+            data.len() as i32,
+            buf.len() as i32 - 9,
+        );
+    }
+    buf.resize(9 + size as usize, 0_u8);
+
+    let buf_len = buf.len() as u32;
+    {
+        let mut cursor = Cursor::new(&mut buf);
+        cursor.write_u8(0x82).unwrap();
+        cursor.write_u32::<LittleEndian>(buf_len).unwrap();
+        cursor.write_u32::<LittleEndian>(data.len() as u32).unwrap();
+    }
+
+    let hash = city_hash_128(&buf);
+    encoder.write(hash.lo);
+    encoder.write(hash.hi);
+    encoder.write_bytes(buf.as_ref());
+}
+
 fn column_width(column: &[String]) -> usize {
     column.iter().map(|cell| cell.len()).max().unwrap_or(0)
 }
-- 
2.43.0


From d7276f1574e29a33745c384219ce80f68718c737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:25 +0000
Subject: [PATCH 27/38] fix: the query id is sent where the server looks for it

---
 src/types/cmd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/cmd.rs b/src/types/cmd.rs
index 74045c0..a70327e 100644
--- a/src/types/cmd.rs
+++ b/src/types/cmd.rs
@@ -81,7 +81,7 @@ fn encode_query(query: &Query, context: &Context) -> Result<Vec<u8>> {
     // DBMS_MIN_REVISION_WITH_CLIENT_INFO
     let mut encoder = Encoder::new();
     encoder.uvarint(protocol::CLIENT_QUERY);
-    encoder.string("");
+    encoder.string(query.get_id());
 
     {
         let hostname = &context.hostname;
-- 
2.43.0


From bc5eaa0953f90875318c404a7b6c8c197032fac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:25 +0000
Subject: [PATCH 28/38] fix: progress of an insert is understood

---
 src/io/transport.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index bef579a..9fb3721 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -321,7 +321,7 @@ impl PacketStream {
                 Ok(Packet::Eof(inner)) => h = Some(inner),
                 Ok(Packet::Block(block)) => b = Some(block),
                 Ok(Packet::Exception(e)) => return Err(Error::Server(e)),
-                Ok(Packet::TableColumns(_)) => (),
+                Ok(Packet::TableColumns(_)) | Ok(Packet::ProfileInfo(_)) | Ok(Packet::Progress(_)) => (),
                 Err(e) => return Err(Error::Io(e)),
                 _ => return Err(Error::Driver(DriverError::UnexpectedPacket)),
             }
-- 
2.43.0


From 46c46635da6ea1be68aa4b4c47ddaf0c33a41369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:25 +0000
Subject: [PATCH 29/38] fix: a negative setting keeps its sign

---
 src/types/options.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index 931c15d..f5ed294 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -179,13 +179,17 @@ impl From<u64> for SettingType {
 
 impl From<i32> for SettingType {
     fn from(val: i32) -> Self {
-        SettingType::UInt64(val as u64)
+        i64::from(val).into()
     }
 }
 
 impl From<i64> for SettingType {
     fn from(val: i64) -> Self {
-        SettingType::UInt64(val as u64)
+        match u64::try_from(val) {
+            Ok(val) => SettingType::UInt64(val),
+            // There is no signed type of settings, but servers take any value as text
+            Err(_) => SettingType::String(val.to_string()),
+        }
     }
 }
 
-- 
2.43.0


From 6c4fbad3801489289baac325e1ac10456649f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:25 +0000
Subject: [PATCH 30/38] fix: a statement sent after a reconnect is laid out for
 the new server

---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1a96bb7..c09ba44 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -401,13 +401,14 @@ impl ClientHandle {
         Query: From<Q>,
     {
         let timeout = try_opt!(self.context.options.get()).execute_timeout;
-        let context = self.context.clone();
         let query = Query::from(sql);
         with_opt_timeout(
             async {
                 self.wrap_future(move |c| {
                     info!("[execute query] {}", query.get_sql());
 
+                    // The connection check may have moved the handle to another server
+                    let context = c.context.clone();
                     let transport = c.get_inner();
 
                     async move {
@@ -454,12 +455,13 @@ impl ClientHandle {
     async fn insert_(&mut self, query: Query, block: &Block) -> Result<ClickhouseTransport> {
         let timeout = try_opt!(self.context.options.get()).insert_timeout;
 
-        let context = self.context.clone();
-
         with_opt_timeout(
             async {
                 self.wrap_future(move |c| {
                     info!("[insert]     {}", query.get_sql());
+
+                    // The connection check may have moved the handle to another server
+                    let context = c.context.clone();
                     let transport = c.get_inner();
 
                     async move {
-- 
2.43.0


From fa0605333c30a45d1214fdb3e61e6dde0cdea2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:37 +0000
Subject: [PATCH 31/38] fix: a column name with a backslash is quoted

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c09ba44..af4d89a 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -632,7 +632,7 @@ fn column_name_to_string(name: &str) -> Result<String> {
         return Err(Error::Other(err.into()));
     }
 
-    Ok(format!("`{name}`"))
+    Ok(format!("`{}`", name.replace('\\', "\\\\")))
 }
 
 /// Without a limit the future is allowed to run as long as it needs.
-- 
2.43.0


From 83974e6629928a18ea99797296a44ae9ef17a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:37 +0000
Subject: [PATCH 32/38] fix: every piece of an insert has the columns the
 server asks for

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index af4d89a..8578597 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -491,8 +491,10 @@ impl ClientHandle {
         chunks: ChunkIterator<Simple>,
     ) -> Result<ClickhouseTransport> {
         for chunk in chunks {
-            let (transport_, _) =
+            let (transport_, dst_block) =
                 Self::send_insert_query_(transport, context.clone(), query.clone()).await?;
+            // The table may have been altered since the previous piece
+            let chunk = chunk.cast_to(&dst_block)?;
             transport = Self::insert_block_(transport_, context.clone(), chunk).await?;
         }
         Ok(transport)
-- 
2.43.0


From 1fd0220caca10fef635946271d22a460f001ee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:22 +0000
Subject: [PATCH 33/38] fix: values of every type can be keys of a map

---
 src/types/decimal.rs   | 13 +++++++++----
 src/types/value.rs     | 16 +++++++++++++++-
 src/types/value_ref.rs | 25 ++++++++++++++++++++++++-
 3 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/types/decimal.rs b/src/types/decimal.rs
index 3c4a53a..6250f94 100644
--- a/src/types/decimal.rs
+++ b/src/types/decimal.rs
@@ -62,10 +62,15 @@ impl Default for Decimal {
 
 impl Hash for Decimal {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.underlying.hash(state);
-        self.nobits.hash(state);
-        self.precision.hash(state);
-        self.scale.hash(state);
+        // Decimals of different scales may be equal
+        let mut underlying = self.underlying;
+        let mut scale = self.scale;
+        while scale > 0 && underlying % 10 == 0 {
+            underlying /= 10;
+            scale -= 1;
+        }
+        underlying.hash(state);
+        scale.hash(state);
     }
 }
 
diff --git a/src/types/value.rs b/src/types/value.rs
index 269a78b..e26f8d4 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -75,7 +75,21 @@ impl Hash for Value {
             Self::Date(d) => d.hash(state),
             Self::DateTime(t, _) => t.hash(state),
             Self::DateTime64(t, (prec_a, _)) => (*t, *prec_a).hash(state),
-            _ => unimplemented!(),
+            Self::ChronoDateTime(t) => t.hash(state),
+            Self::Bool(v) => v.hash(state),
+            // Zeros are equal whatever their signs are
+            Self::Float32(v) => (v + 0.0).to_bits().hash(state),
+            Self::Float64(v) => (v + 0.0).to_bits().hash(state),
+            Self::Ipv4(v) => v.hash(state),
+            Self::Ipv6(v) => v.hash(state),
+            Self::Uuid(v) => v.hash(state),
+            Self::Decimal(v) => v.hash(state),
+            Self::Enum8(_, v) => v.internal().hash(state),
+            Self::Enum16(_, v) => v.internal().hash(state),
+            Self::Nullable(Either::Left(_)) => (),
+            Self::Nullable(Either::Right(v)) => v.hash(state),
+            Self::Array(_, vs) => vs.hash(state),
+            Self::Map(_, _, vs) => vs.len().hash(state),
         }
     }
 }
diff --git a/src/types/value_ref.rs b/src/types/value_ref.rs
index 081c0b2..3165226 100644
--- a/src/types/value_ref.rs
+++ b/src/types/value_ref.rs
@@ -69,7 +69,26 @@ impl<'a> Hash for ValueRef<'a> {
             Self::UInt32(i) => i.hash(state),
             Self::UInt64(i) => i.hash(state),
             Self::UInt128(i) => i.hash(state),
-            _ => unimplemented!(),
+            Self::Date(d) => d.hash(state),
+            Self::DateTime(t, _) => t.hash(state),
+            Self::DateTime64(t, params) => {
+                let (precision, tz) = **params;
+                to_datetime(*t, precision, tz).hash(state);
+            }
+            Self::Bool(v) => v.hash(state),
+            // Zeros are equal whatever their signs are
+            Self::Float32(v) => (v + 0.0).to_bits().hash(state),
+            Self::Float64(v) => (v + 0.0).to_bits().hash(state),
+            Self::Ipv4(v) => v.hash(state),
+            Self::Ipv6(v) => v.hash(state),
+            Self::Uuid(v) => v.hash(state),
+            Self::Decimal(v) => v.hash(state),
+            Self::Enum8(_, v) => v.internal().hash(state),
+            Self::Enum16(_, v) => v.internal().hash(state),
+            Self::Nullable(Either::Left(_)) => (),
+            Self::Nullable(Either::Right(v)) => v.hash(state),
+            Self::Array(_, vs) => vs.hash(state),
+            Self::Map(_, _, vs) => vs.len().hash(state),
         }
     }
 }
@@ -79,6 +98,7 @@ impl<'a> Eq for ValueRef<'a> {}
 impl<'a> PartialEq for ValueRef<'a> {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
+            (ValueRef::Bool(a), ValueRef::Bool(b)) => *a == *b,
             (ValueRef::UInt8(a), ValueRef::UInt8(b)) => *a == *b,
             (ValueRef::UInt16(a), ValueRef::UInt16(b)) => *a == *b,
             (ValueRef::UInt32(a), ValueRef::UInt32(b)) => *a == *b,
@@ -98,6 +118,9 @@ impl<'a> PartialEq for ValueRef<'a> {
                 let time_b = tz_b.timestamp_opt(i64::from(*b), 0);
                 time_a == time_b
             }
+            (ValueRef::Ipv4(a), ValueRef::Ipv4(b)) => *a == *b,
+            (ValueRef::Ipv6(a), ValueRef::Ipv6(b)) => *a == *b,
+            (ValueRef::Uuid(a), ValueRef::Uuid(b)) => *a == *b,
             (ValueRef::Nullable(a), ValueRef::Nullable(b)) => *a == *b,
             (ValueRef::Array(ta, a), ValueRef::Array(tb, b)) => *ta == *tb && *a == *b,
             (ValueRef::Decimal(a), ValueRef::Decimal(b)) => *a == *b,
-- 
2.43.0


From 5139de76394a5d038e5e1287f91cd6015eeb6572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:34 +0000
Subject: [PATCH 34/38] fix: a cell or column that is not there is an error

---
 src/types/block/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 98dfb3a..66100f4 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -117,8 +117,12 @@ impl<K: ColumnType> AsRef<Block<K>> for Block<K> {
 
 impl ColumnIdx for usize {
     #[inline(always)]
-    fn get_index<K: ColumnType>(&self, _: &[Column<K>]) -> Result<usize> {
-        Ok(*self)
+    fn get_index<K: ColumnType>(&self, columns: &[Column<K>]) -> Result<usize> {
+        if *self < columns.len() {
+            Ok(*self)
+        } else {
+            Err(Error::FromSql(FromSqlError::OutOfRange))
+        }
     }
 }
 
@@ -223,8 +227,11 @@ impl<K: ColumnType> Block<K> {
         T: FromSql<'a>,
         I: ColumnIdx + Copy,
     {
-        let column_index = col.get_index(self.columns())?;
-        T::from_sql(self.columns[column_index].at(row))
+        let column = self.get_column(col)?;
+        if row >= column.len() {
+            return Err(Error::FromSql(FromSqlError::OutOfRange));
+        }
+        T::from_sql(column.at(row))
     }
 
     /// Add new column into this block
-- 
2.43.0


From b66eacd6bfa37485324056c299b65e4af3bb1b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:13 +0000
Subject: [PATCH 35/38] fix: a row that does not fit the block is refused as a
 whole

---
 src/types/block/builder.rs   | 142 +++++++++++++++++++++++++++++++----
 src/types/block/mod.rs       |   1 +
 src/types/column/nullable.rs |   4 +-
 3 files changed, 129 insertions(+), 18 deletions(-)

diff --git a/src/types/block/builder.rs b/src/types/block/builder.rs
index 3ed3a2e..85856aa 100644
--- a/src/types/block/builder.rs
+++ b/src/types/block/builder.rs
@@ -1,5 +1,6 @@
 use std::{borrow::Cow, marker};
 
+use chrono::DateTime;
 use chrono_tz::Tz;
 use either::Either;
 
@@ -7,14 +8,23 @@ use crate::{
     errors::{Error, FromSqlError, Result},
     types::{
         block::ColumnIdx,
-        column::{datetime64::DEFAULT_TZ, ArcColumnWrapper, ColumnData},
-        Column, ColumnType, Value,
+        column::{
+            datetime64::{is_datetime64, DEFAULT_TZ},
+            ArcColumnWrapper, ColumnData,
+        },
+        Column, ColumnType, DateTimeType, SqlType, Value,
     },
     Block,
 };
 
 pub trait RowBuilder {
     fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()>;
+
+    /// Shows all cells of the row.
+    #[doc(hidden)]
+    fn visit(&self, _visitor: &mut dyn FnMut(&str, &Value) -> Result<()>) -> Result<()> {
+        Ok(())
+    }
 }
 
 pub struct RNil;
@@ -67,6 +77,11 @@ where
         put_param(self.key, self.value, block)?;
         self.tail.apply(block)
     }
+
+    fn visit(&self, visitor: &mut dyn FnMut(&str, &Value) -> Result<()>) -> Result<()> {
+        visitor(&self.key, &self.value)?;
+        self.tail.visit(visitor)
+    }
 }
 
 impl RowBuilder for Vec<(String, Value)> {
@@ -76,6 +91,114 @@ impl RowBuilder for Vec<(String, Value)> {
         }
         Ok(())
     }
+
+    fn visit(&self, visitor: &mut dyn FnMut(&str, &Value) -> Result<()>) -> Result<()> {
+        self.iter().try_for_each(|(k, v)| visitor(k, v))
+    }
+}
+
+/// Makes the block ready for a row, or refuses a row that does not have
+/// exactly one suitable value for every column of the block.
+pub(crate) fn prepare<K: ColumnType, B: RowBuilder>(block: &mut Block<K>, row: &B) -> Result<()> {
+    let mut filled = vec![false; block.columns.len()];
+    let mut new_columns: Vec<Column<K>> = Vec::new();
+    let mut is_empty = true;
+
+    row.visit(&mut |key, value| {
+        is_empty = false;
+        let sql_type = match key.get_index(&block.columns) {
+            Ok(index) if !filled[index] => {
+                filled[index] = true;
+                block.columns[index].sql_type()
+            }
+            Ok(_) => return Err(Error::FromSql(FromSqlError::OutOfRange)),
+            Err(err) => {
+                if block.row_count() > 0 || key.get_index(&new_columns).is_ok() {
+                    return Err(err);
+                }
+                let column = new_column(key, value, block.capacity)?;
+                let sql_type = column.sql_type();
+                new_columns.push(column);
+                sql_type
+            }
+        };
+
+        if fits(value, &sql_type) {
+            Ok(())
+        } else {
+            Err(Error::FromSql(FromSqlError::InvalidType {
+                src: SqlType::from(value.clone()).to_string(),
+                dst: sql_type.to_string(),
+            }))
+        }
+    })?;
+
+    if !is_empty && filled.contains(&false) {
+        return Err(Error::FromSql(FromSqlError::OutOfRange));
+    }
+
+    block.columns.append(&mut new_columns);
+    Ok(())
+}
+
+/// Whether a column of the type is able to hold the value.
+fn fits(value: &Value, sql_type: &SqlType) -> bool {
+    match (sql_type, value) {
+        (SqlType::LowCardinality(inner), _) | (SqlType::SimpleAggregateFunction(_, inner), _) => {
+            fits(value, inner)
+        }
+        (SqlType::Nullable(_), Value::Nullable(Either::Left(_))) => true,
+        (SqlType::Nullable(inner), Value::Nullable(Either::Right(value))) => fits(value, inner),
+        (SqlType::Nullable(inner), value) => fits(value, inner),
+        (SqlType::Array(inner), Value::Array(_, items)) => {
+            items.iter().all(|item| fits(item, inner))
+        }
+        (SqlType::Map(k, v), Value::Map(_, _, items)) => items
+            .iter()
+            .all(|(key, value)| fits(key, k) && fits(value, v)),
+        (SqlType::FixedString(str_len), Value::String(bytes)) => bytes.len() <= *str_len,
+        (SqlType::Decimal(precision, scale), Value::Decimal(decimal)) => {
+            decimal.scale == *scale && decimal.fits(*precision, *scale)
+        }
+        (SqlType::Enum8(column), Value::Enum8(own, value)) => {
+            is_enum(column, own, value.internal())
+        }
+        (SqlType::Enum16(column), Value::Enum16(own, value)) => {
+            is_enum(column, own, value.internal())
+        }
+        (
+            SqlType::DateTime(datetime_type),
+            Value::DateTime(..) | Value::DateTime64(..) | Value::ChronoDateTime(_),
+        ) => {
+            let time = DateTime::<Tz>::from(value.clone());
+            match datetime_type {
+                DateTimeType::DateTime32 => u32::try_from(time.timestamp()).is_ok(),
+                DateTimeType::DateTime64(precision, _) => is_datetime64(&time, *precision),
+                DateTimeType::Chrono => true,
+            }
+        }
+        _ => SqlType::from(value.clone()) == *sql_type,
+    }
+}
+
+/// Enums without names are given by their numbers only.
+fn is_enum<T: PartialEq>(column: &[(String, T)], own: &[(String, T)], number: T) -> bool {
+    let name = own.iter().find(|(_, n)| *n == number).map(|(name, _)| name);
+    column.is_empty()
+        || column
+            .iter()
+            .any(|(s, n)| *n == number && name.map_or(true, |name| name == s))
+}
+
+fn new_column<K: ColumnType>(name: &str, value: &Value, capacity: usize) -> Result<Column<K>> {
+    let sql_type = From::from(value.clone());
+    let timezone = extract_timezone(value);
+
+    Ok(Column {
+        name: name.into(),
+        data: <dyn ColumnData>::from_type::<ArcColumnWrapper>(sql_type, timezone, capacity)?,
+        _marker: marker::PhantomData,
+    })
 }
 
 fn put_param<K: ColumnType>(
@@ -87,20 +210,7 @@ fn put_param<K: ColumnType>(
         Ok(col_index) => col_index,
         Err(Error::FromSql(FromSqlError::OutOfRange)) => {
             if block.row_count() <= 1 {
-                let sql_type = From::from(value.clone());
-
-                let timezone = extract_timezone(&value);
-
-                let column = Column {
-                    name: key.clone().into(),
-                    data: <dyn ColumnData>::from_type::<ArcColumnWrapper>(
-                        sql_type,
-                        timezone,
-                        block.capacity,
-                    )?,
-                    _marker: marker::PhantomData,
-                };
-
+                let column = new_column(&key, &value, block.capacity)?;
                 block.columns.push(column);
                 return put_param(key, value, block);
             } else {
diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 66100f4..529cc71 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -270,6 +270,7 @@ impl<K: ColumnType> Block<K> {
 
     /// This method is a convenient way to pass row into a block.
     pub fn push<B: RowBuilder>(&mut self, row: B) -> Result<()> {
+        builder::prepare(self, &row)?;
         row.apply(self)
     }
 
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index 119b608..4032923 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -56,8 +56,8 @@ impl ColumnData for NullableColumnData {
 
         if let Value::Nullable(e) = value {
             match e {
-                Either::Left(sql_type) => {
-                    let default_value = Value::default(sql_type.clone());
+                Either::Left(_) => {
+                    let default_value = Value::default(inner_column.sql_type());
                     inner_column.push(default_value);
                     self.nulls.push(true as u8);
                 }
-- 
2.43.0


From 2904cd423e95b1d388896576dd9f927190220e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:27 +0000
Subject: [PATCH 36/38] hook: scheduling points for the pool's counters (cfg
 clickhouse_rs_verif)

---
 src/pool/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 9f82d8a..0fb9d5f 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -1,11 +1,18 @@
 use std::{
     cmp, fmt, mem,
     pin::Pin,
-    sync::atomic::{self, Ordering},
+    sync::atomic::Ordering,
     sync::{self, Arc},
     task::{Context, Poll, Waker},
 };
 
+#[allow(unexpected_cfgs)]
+#[cfg(clickhouse_rs_verif)]
+use crossbeam::verif_atomic as atomic;
+#[allow(unexpected_cfgs)]
+#[cfg(not(clickhouse_rs_verif))]
+use std::sync::atomic;
+
 use futures_util::future::BoxFuture;
 use log::{error, warn};
 
-- 
2.43.0


From eb8534d7d194f3342753cfc8047b4e5a2e569a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:29 +0000
Subject: [PATCH 37/38] fix: a column name of other than ASCII digits is quoted

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8578597..b344484 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -625,7 +625,7 @@ impl ClientHandle {
 }
 
 fn column_name_to_string(name: &str) -> Result<String> {
-    if name.chars().all(|ch| ch.is_numeric()) {
+    if name.chars().all(|ch| ch.is_ascii_digit()) {
         return Ok(name.to_string());
     }
 
-- 
2.43.0


From ad2be0f8e4ae9ceb9c567d7a383e0664b788c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 38/38] fix: two equal maps compare as equal

---
 src/types/value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/value.rs b/src/types/value.rs
index e26f8d4..5651f77 100644
--- a/src/types/value.rs
+++ b/src/types/value.rs
@@ -135,6 +135,9 @@ impl PartialEq for Value {
             (Value::DateTime64(a, (prec_a, _)), Value::DateTime64(b, (prec_b, _))) => {
                 prec_a == prec_b && a == b
             }
+            (Value::Map(key_a, val_a, a), Value::Map(key_b, val_b, b)) => {
+                *key_a == *key_b && *val_a == *val_b && *a == *b
+            }
 
             _ => false,
         }
-- 
2.43.0

