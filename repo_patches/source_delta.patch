From bd5c26d2a437a1b3b2e3f6ae8c3e3bfde588698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 01/15] Model checking hooks: scheduling points under
 cfg(tchannel_mc)

---
 src/channel.rs        | 6 +++++-
 src/connection/mod.rs | 6 +++++-
 src/lib.rs            | 3 +++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/channel.rs b/src/channel.rs
index 9199598..1748816 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -7,7 +7,11 @@ use crate::SubChannel;
 use log::debug;
 use std::collections::HashMap;
 use std::ops::Deref;
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
+#[cfg(not(tchannel_mc))]
+use std::sync::Mutex;
+#[cfg(tchannel_mc)]
+use tokio::mc::Mutex;
 use tokio::sync::RwLock;
 use tokio::task::JoinHandle;
 
diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 52efddb..d76b6de 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -7,8 +7,12 @@ use futures::{future, StreamExt};
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
-use std::sync::atomic::{AtomicU32, Ordering};
+#[cfg(not(tchannel_mc))]
+use std::sync::atomic::AtomicU32;
+use std::sync::atomic::Ordering;
 use std::sync::Arc;
+#[cfg(tchannel_mc)]
+use tokio::mc::AtomicU32;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
 use tokio::sync::mpsc;
diff --git a/src/lib.rs b/src/lib.rs
index e6f07e8..fc7a975 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -79,6 +79,9 @@
 //! }
 //! ```
 
+// `tchannel_mc` is set only when the crate is built for model checking.
+#![allow(unknown_lints, unexpected_cfgs)]
+
 #[macro_use]
 extern crate getset;
 #[macro_use]
-- 
2.43.0


From 686f3ab557e1216f95ceb4c5ddae7661ac43bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 02/15] fix: send handler error messages with the error
 response code

---
 src/handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index 22787f0..2983a9d 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -76,7 +76,7 @@ fn convert<MSG: Message>(msg_res: HandlerResult<MSG>) -> MessageArgsResponse {
     match msg_res {
         Ok(message) => Ok((ResponseCode::Ok, message.try_into()?)),
         Err(err) => match err {
-            HandlerError::MessageError(message) => Ok((ResponseCode::Ok, message.try_into()?)),
+            HandlerError::MessageError(message) => Ok((ResponseCode::Error, message.try_into()?)),
             HandlerError::GeneralError(message) => Err(TChannelError::Error(message)),
             HandlerError::InternalError(err) => Err(err),
         },
-- 
2.43.0


From ab7f0d4720ab489dd0ec7e816b776157354c3fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 03/15] fix: fragments at frame boundaries: no extra argument,
 no frame without room for the argument length

---
 src/defragmentation.rs | 6 ++++--
 src/fragmentation.rs   | 6 ++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 30ece5e..3b9a700 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -229,8 +229,10 @@ impl ArgsDefragmenter {
                     self.args.push(first_arg);
                 }
             },
-            // next arg (according to protocol specs an empty arg at the beginning means the previous arg ended at the end of previous frame)
-            None => self.args.push(BytesMut::new()),
+            // first arg of the message is empty
+            None if self.args.is_empty() => self.args.push(BytesMut::new()),
+            // according to protocol specs an empty arg at the beginning means the previous arg ended at the end of previous frame
+            None => (),
         }
     }
 
diff --git a/src/fragmentation.rs b/src/fragmentation.rs
index 05b64c6..860801b 100644
--- a/src/fragmentation.rs
+++ b/src/fragmentation.rs
@@ -191,6 +191,12 @@ impl ArgsFragmenter {
     pub fn next_frame_args_vec(&mut self, mut payload_limit: i32) -> VecDeque<Option<Bytes>> {
         let mut frame_args = VecDeque::with_capacity(3);
         while let Some(mut arg) = self.args.pop_front() {
+            if payload_limit < ARG_LEN_LEN as i32 && !frame_args.is_empty() {
+                // No room for arg length. Next frame starts with empty fragment of the previous arg.
+                self.args.push_front(arg);
+                self.args.push_front(Bytes::new());
+                break;
+            }
             payload_limit -= ARG_LEN_LEN as i32;
             let (status, frame_arg_opt) = Self::next_arg_fragment(&mut arg, payload_limit);
             if let Some(frame_arg) = frame_arg_opt {
-- 
2.43.0


From 9f877050fe92f15ef5d14c96f9b520359a36084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 04/15] fix: answer a failing request with an error frame
 instead of ending its connection

---
 src/server.rs | 72 +++++++++++++++++++++++++--------------------------
 1 file changed, 35 insertions(+), 37 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 6bf76ca..1fff8cd 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -9,7 +9,6 @@ use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_
 use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::SubChannel;
-use futures::TryFutureExt;
 use futures::{self, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
@@ -21,6 +20,9 @@ use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
+/// Longer error messages get truncated to fit into a single frame.
+const MAX_ERROR_MSG_LENGTH: usize = 32 * 1024;
+
 #[derive(Debug)]
 pub struct Server {
     subchannels: SharedSubChannels,
@@ -84,15 +86,14 @@ impl Server {
 
     async fn dispatch_frame(&self, frame: TFrameId) -> TResult<Option<(u32, FrameInput)>> {
         let id = *frame.id();
-        self.frame_dispatchers
-            .dispatch(frame)
-            .await
-            .map(|receiver_option| receiver_option.map(|receiver| (id, receiver)))
-            //TODO Figure out tracing.
-            .map_err(|err| {
-                debug!("Err while dispatching frame: {}", err.to_string());
-                TChannelError::from(ConnectionError::from((id, err, Tracing::default())))
-            })
+        match self.frame_dispatchers.dispatch(frame).await {
+            Ok(receiver_option) => Ok(receiver_option.map(|receiver| (id, receiver))),
+            Err(err) => {
+                // Message is not being read anymore, it has failed already.
+                debug!("Err while dispatching frame (id {}): {}", id, err);
+                Ok(None)
+            }
+        }
     }
 
     async fn handle_init_handshake(
@@ -158,38 +159,30 @@ struct FrameHandler {
 impl FrameHandler {
     pub async fn handle(&self, id: u32, frame_input: FrameInput) -> TResult<()> {
         debug!("Handling message (id {})", &id);
-        self.handle_input(id, frame_input)
-            .and_then(|frames| self.send_frames(frames))
-            .await
+        let frames = match self.handle_input(id, frame_input).await {
+            Ok(frames) => frames,
+            Err(err) => {
+                debug!("Failed to handle message (id {}): {}", id, err);
+                let code = match err {
+                    TChannelError::ConnectionError(_) => ErrorCode::NetworkError,
+                    _ => ErrorCode::UnexpectedError,
+                };
+                vec![self.to_error_frame(code, err.to_string(), id)?]
+            }
+        };
+        self.send_frames(frames).await
     }
 
     async fn handle_input(&self, id: u32, frame_input: FrameInput) -> TResult<Vec<TFrameId>> {
-        let (request_fields, message_args) =
-            RequestDefragmenter::new(frame_input).read_request().await?;
+        let request = RequestDefragmenter::new(frame_input).read_request().await;
         self.frame_dispatchers.deregister(&id).await;
+        let (request_fields, message_args) = request?;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
-        match ResponseFragmenter::new(request_fields.service(), response_code, response_args)
-            .create_frames()
-        {
-            Ok(frames) => Ok(frames.map(|f| TFrameId::new(id, f)).collect().await),
-            Err(TChannelError::ConnectionError(err)) => Ok(vec![self.to_error_frame(
-                ErrorCode::NetworkError,
-                err.to_string(),
-                id,
-            )?]),
-            Err(TChannelError::Error(msg)) => Ok(vec![self.to_error_frame(
-                ErrorCode::UnexpectedError,
-                msg,
-                id,
-            )?]),
-            Err(err @ TChannelError::ConnectionPoolError(_)) => Err(err),
-            Err(err) => Ok(vec![self.to_error_frame(
-                ErrorCode::UnexpectedError,
-                err.to_string(),
-                id,
-            )?]),
-        }
+        let frames =
+            ResponseFragmenter::new(request_fields.service(), response_code, response_args)
+                .create_frames()?;
+        Ok(frames.map(|f| TFrameId::new(id, f)).collect().await)
     }
 
     async fn get_subchannel<STR: AsRef<str>>(&self, service: STR) -> TResult<Arc<SubChannel>> {
@@ -206,7 +199,12 @@ impl FrameHandler {
         Ok(())
     }
 
-    fn to_error_frame(&self, code: ErrorCode, msg: String, id: u32) -> CodecResult<TFrameId> {
+    fn to_error_frame(&self, code: ErrorCode, mut msg: String, id: u32) -> CodecResult<TFrameId> {
+        let mut len = msg.len().min(MAX_ERROR_MSG_LENGTH);
+        while !msg.is_char_boundary(len) {
+            len -= 1;
+        }
+        msg.truncate(len);
         //TODO add meaningful tracing
         let tracing = Tracing::default();
         let err = ErrorMsg::new(code, tracing, msg);
-- 
2.43.0


From 8d239a5a89d86e97d833dcd996d37a71eedeb9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 05/15] fix: server tasks limit handling of requests, not
 reading of their frames

---
 src/server.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 1fff8cd..2acc1a3 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -5,9 +5,12 @@ use crate::defragmentation::RequestDefragmenter;
 use crate::errors::{ConnectionError, TChannelError};
 use crate::fragmentation::ResponseFragmenter;
 use crate::frames::headers::InitHeaderKey;
-use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_VERSION};
+use crate::frames::payloads::{
+    CallRequestFields, Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_VERSION,
+};
 use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
+use crate::messages::args::MessageArgs;
 use crate::SubChannel;
 use futures::{self, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
@@ -18,11 +21,15 @@ use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
+use tokio::sync::Semaphore;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
 /// Longer error messages get truncated to fit into a single frame.
 const MAX_ERROR_MSG_LENGTH: usize = 32 * 1024;
 
+/// Semaphore panics when it gets too many permits.
+const MAX_SERVER_TASKS: usize = usize::MAX >> 4;
+
 #[derive(Debug)]
 pub struct Server {
     subchannels: SharedSubChannels,
@@ -74,12 +81,17 @@ impl Server {
             self.subchannels.clone(),
             self.frame_dispatchers.clone(),
             sender,
+            Semaphore::new(match self.server_tasks {
+                0 => MAX_SERVER_TASKS,
+                server_tasks => server_tasks.min(MAX_SERVER_TASKS),
+            }),
         );
 
         framed_read
             .map_err(TChannelError::CodecError)
             .try_filter_map(|frame| self.dispatch_frame(frame))
-            .try_for_each_concurrent(self.server_tasks, |(id, frames)| handler.handle(id, frames))
+            // Reading of requests is not limited, they may depend on each other's frames.
+            .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
             .await
         //TODO send fatal protocol error when it fails
     }
@@ -154,12 +166,16 @@ struct FrameHandler {
     subchannels: SharedSubChannels,
     frame_dispatchers: Arc<FramesDispatcher>,
     sender: Sender<TFrameId>,
+    permits: Semaphore,
 }
 
 impl FrameHandler {
     pub async fn handle(&self, id: u32, frame_input: FrameInput) -> TResult<()> {
         debug!("Handling message (id {})", &id);
-        let frames = match self.handle_input(id, frame_input).await {
+        let request = RequestDefragmenter::new(frame_input).read_request().await;
+        self.frame_dispatchers.deregister(&id).await;
+        let _permit = self.permits.acquire().await;
+        let frames = match self.handle_request(id, request).await {
             Ok(frames) => frames,
             Err(err) => {
                 debug!("Failed to handle message (id {}): {}", id, err);
@@ -173,9 +189,11 @@ impl FrameHandler {
         self.send_frames(frames).await
     }
 
-    async fn handle_input(&self, id: u32, frame_input: FrameInput) -> TResult<Vec<TFrameId>> {
-        let request = RequestDefragmenter::new(frame_input).read_request().await;
-        self.frame_dispatchers.deregister(&id).await;
+    async fn handle_request(
+        &self,
+        id: u32,
+        request: TResult<(CallRequestFields, MessageArgs)>,
+    ) -> TResult<Vec<TFrameId>> {
         let (request_fields, message_args) = request?;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
-- 
2.43.0


From 9c8f0f25b5d47a8a18cb5a97f97f53fd44ad37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 06/15] fix: answer ping requests, ignore frames that belong to
 no message

---
 src/server.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 2acc1a3..30fbdc0 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -12,6 +12,7 @@ use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::messages::args::MessageArgs;
 use crate::SubChannel;
+use bytes::Bytes;
 use futures::{self, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
@@ -89,19 +90,37 @@ impl Server {
 
         framed_read
             .map_err(TChannelError::CodecError)
-            .try_filter_map(|frame| self.dispatch_frame(frame))
+            .try_filter_map(|frame| self.dispatch_frame(frame, &handler.sender))
             // Reading of requests is not limited, they may depend on each other's frames.
             .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
             .await
         //TODO send fatal protocol error when it fails
     }
 
-    async fn dispatch_frame(&self, frame: TFrameId) -> TResult<Option<(u32, FrameInput)>> {
+    async fn dispatch_frame(
+        &self,
+        frame: TFrameId,
+        sender: &Sender<TFrameId>,
+    ) -> TResult<Option<(u32, FrameInput)>> {
         let id = *frame.id();
-        match self.frame_dispatchers.dispatch(frame).await {
+        let dispatched = match frame.frame().frame_type() {
+            Type::PingRequest => {
+                let ping_res = TFrame::new(Type::PingResponse, Bytes::new());
+                sender.send(TFrameId::new(id, ping_res)).await?;
+                return Ok(None);
+            }
+            Type::CallRequest => self.frame_dispatchers.dispatch(frame).await,
+            // Other frames never begin a message.
+            _ => self
+                .frame_dispatchers
+                .dispatch_following(frame)
+                .await
+                .map(|_| None),
+        };
+        match dispatched {
             Ok(receiver_option) => Ok(receiver_option.map(|receiver| (id, receiver))),
             Err(err) => {
-                // Message is not being read anymore, it has failed already.
+                // Frame belongs to no message being read, e.g. the message has failed already.
                 debug!("Err while dispatching frame (id {}): {}", id, err);
                 Ok(None)
             }
-- 
2.43.0


From 52d9170ee631bb6bf023ed41bd8b9bcd07d9a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 07/15] fix: malformed payloads are decoding errors, not panics

---
 src/defragmentation.rs |  5 +++-
 src/frames/payloads.rs | 65 +++++++++++++++++++++++++++++-------------
 2 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 3b9a700..02c559f 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -199,7 +199,10 @@ async fn read_continuation(
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
     match call_args.checksum_type() {
         ChecksumType::None => Ok(call_args.args_mut()),
-        _ => todo!(),
+        checksum_type => Err(CodecError::Error(format!(
+            "Unsupported checksum type {:?}",
+            checksum_type
+        ))),
     }
 }
 
diff --git a/src/frames/payloads.rs b/src/frames/payloads.rs
index 82c683c..a056386 100644
--- a/src/frames/payloads.rs
+++ b/src/frames/payloads.rs
@@ -102,10 +102,10 @@ impl Codec for Tracing {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(Tracing::new(
-            src.get_u64(),
-            src.get_u64(),
-            src.get_u64(),
-            decode_bitflag(src.get_u8(), TraceFlags::from_bits)?,
+            decode_number(src, Bytes::get_u64)?,
+            decode_number(src, Bytes::get_u64)?,
+            decode_number(src, Bytes::get_u64)?,
+            decode_bitflag(src, TraceFlags::from_bits)?,
         ))
     }
 }
@@ -132,7 +132,10 @@ impl Codec for Init {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
-        Ok(Init::new(src.get_u16(), decode_headers(src)?))
+        Ok(Init::new(
+            decode_number(src, Bytes::get_u16)?,
+            decode_headers(src)?,
+        ))
     }
 }
 
@@ -191,7 +194,7 @@ impl Codec for CallWithFieldsEncoded {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallWithFieldsEncoded::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(src, Flags::from_bits)?,
             CallRequestFields::decode(src)?.encode_bytes()?,
             CallArgs::decode(src)?,
         ))
@@ -236,7 +239,7 @@ impl Codec for CallRequestFields {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallRequestFields::new(
-            src.get_u32(),
+            decode_number(src, Bytes::get_u32)?,
             Tracing::decode(src)?,
             decode_small_string(src)?,
             decode_small_headers(src)?,
@@ -278,7 +281,7 @@ impl Codec for CallRequest {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallRequest::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(src, Flags::from_bits)?,
             CallRequestFields::decode(src)?,
             CallArgs::decode(src)?,
         ))
@@ -322,7 +325,7 @@ impl Codec for CallResponseFields {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallResponseFields::new(
-            decode_bitflag(src.get_u8(), ResponseCode::from_u8)?,
+            decode_bitflag(src, ResponseCode::from_u8)?,
             Tracing::decode(src)?,
             decode_small_headers(src)?,
         ))
@@ -363,7 +366,7 @@ impl Codec for CallResponse {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallResponse::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(src, Flags::from_bits)?,
             CallResponseFields::decode(src)?,
             CallArgs::decode(src)?,
         ))
@@ -404,7 +407,7 @@ impl Codec for CallContinue {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(CallContinue::new(
-            decode_bitflag(src.get_u8(), Flags::from_bits)?,
+            decode_bitflag(src, Flags::from_bits)?,
             CallArgs::decode(src)?,
         ))
     }
@@ -432,7 +435,7 @@ impl Codec for Cancel {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(Cancel::new(
-            src.get_u32(),
+            decode_number(src, Bytes::get_u32)?,
             Tracing::decode(src)?,
             decode_string(src)?,
         ))
@@ -457,7 +460,10 @@ impl Codec for Claim {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
-        Ok(Claim::new(src.get_u32(), Tracing::decode(src)?))
+        Ok(Claim::new(
+            decode_number(src, Bytes::get_u32)?,
+            Tracing::decode(src)?,
+        ))
     }
 }
 
@@ -482,7 +488,7 @@ impl Codec for ErrorMsg {
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
         Ok(ErrorMsg::new(
-            decode_bitflag(src.get_u8(), ErrorCode::from_u8)?,
+            decode_bitflag(src, ErrorCode::from_u8)?,
             Tracing::decode(src)?,
             decode_string(src)?,
         ))
@@ -547,14 +553,32 @@ fn encode_checksum(
 }
 
 fn decode_checksum(src: &mut Bytes) -> CodecResult<(ChecksumType, Option<u32>)> {
-    let checksum_type = decode_bitflag(src.get_u8(), ChecksumType::from_u8)?;
+    let checksum_type = decode_bitflag(src, ChecksumType::from_u8)?;
     match checksum_type {
         ChecksumType::None => Ok((ChecksumType::None, None)),
-        checksum => Ok((checksum, Some(src.get_u32()))),
+        checksum => Ok((checksum, Some(decode_number(src, Bytes::get_u32)?))),
     }
 }
 
-fn decode_bitflag<T, F: Fn(u8) -> Option<T>>(byte: u8, decoder: F) -> CodecResult<T> {
+/// Reads a number with given function, fails if there are not enough bytes left.
+fn decode_number<T>(src: &mut Bytes, get_fn: impl Fn(&mut Bytes) -> T) -> CodecResult<T> {
+    check_remaining(src, std::mem::size_of::<T>())?;
+    Ok(get_fn(src))
+}
+
+fn check_remaining(src: &Bytes, len: usize) -> CodecResult<()> {
+    if src.remaining() < len {
+        return Err(CodecError::Error(format!(
+            "Expected {} bytes, {} left",
+            len,
+            src.remaining()
+        )));
+    }
+    Ok(())
+}
+
+fn decode_bitflag<T, F: Fn(u8) -> Option<T>>(src: &mut Bytes, decoder: F) -> CodecResult<T> {
+    let byte = decode_number(src, Bytes::get_u8)?;
     decoder(byte).ok_or_else(|| CodecError::Error(format!("Unknown flag: {}", byte)))
 }
 
@@ -637,8 +661,9 @@ fn decode_string_field<T: Into<usize>>(
     src: &mut Bytes,
     get_len: &dyn Fn(&mut Bytes) -> T,
 ) -> CodecResult<String> {
-    let len = get_len(src);
-    let bytes = src.copy_to_bytes(len.into());
+    let len = decode_number(src, get_len)?.into();
+    check_remaining(src, len)?;
+    let bytes = src.copy_to_bytes(len);
     Ok(String::from_utf8(bytes.chunk().to_vec())?)
 }
 
@@ -660,7 +685,7 @@ fn decode_len<T: TryInto<usize>>(
     src: &mut Bytes,
     decode_len_fn: &dyn Fn(&mut Bytes) -> T,
 ) -> CodecResult<usize> {
-    decode_len_fn(src)
+    decode_number(src, decode_len_fn)?
         .try_into()
         .map_err(|_| CodecError::Error("Failed to cast len to usize.".to_string()))
 }
-- 
2.43.0


From 76533a192e81a97ed1a57d0cdd772b12fc1bf1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 08/15] fix: losing a connection fails its pending calls and
 removes it from the pool

---
 src/connection/mod.rs  | 37 ++++++++++++++++++++++++++++++++++---
 src/connection/pool.rs | 17 ++++++++++++-----
 src/subchannel.rs      | 17 +++++++++++++++--
 3 files changed, 61 insertions(+), 10 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index d76b6de..95d0e0b 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -9,7 +9,7 @@ use std::collections::HashMap;
 use std::fmt::Debug;
 #[cfg(not(tchannel_mc))]
 use std::sync::atomic::AtomicU32;
-use std::sync::atomic::Ordering;
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 #[cfg(tchannel_mc)]
 use tokio::mc::AtomicU32;
@@ -54,6 +54,8 @@ impl FrameOutput {
 pub struct FramesDispatcher {
     #[new(default)]
     senders: RwLock<HashMap<u32, Sender<TFrameId>>>,
+    #[new(default)]
+    closed: AtomicBool,
     buffer_size: usize,
 }
 
@@ -79,6 +81,9 @@ impl FramesDispatcher {
 
     pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<()> {
         let mut channels = self.senders.write().await;
+        if self.is_closed() {
+            return Err(ConnectionError::Error("Connection is closed".to_owned()));
+        }
         if channels.insert(id, sender).is_some() {
             debug!("Sender for id {} already exists", id);
             return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
@@ -86,6 +91,18 @@ impl FramesDispatcher {
         Ok(())
     }
 
+    /// Ends all pending messages and prevents registration of new ones.
+    /// To be called when there are no more frames to dispatch.
+    pub async fn close(&self) {
+        let mut channels = self.senders.write().await;
+        self.closed.store(true, Ordering::Release);
+        channels.clear();
+    }
+
+    pub fn is_closed(&self) -> bool {
+        self.closed.load(Ordering::Acquire)
+    }
+
     async fn dispatch_first(&self, frame: TFrameId) -> ConnectionResult<Receiver<TFrameId>> {
         let id = *frame.id();
         debug!("Received frame with id: {}", id);
@@ -111,12 +128,14 @@ impl FramesDispatcher {
     }
 }
 
-#[derive(Debug)]
+#[derive(Debug, Getters)]
 pub struct Connection {
     next_message_id: AtomicU32,
     pending_ids: Arc<FramesDispatcher>,
     sender: Sender<TFrameId>,
     buffer_size: usize,
+    #[get = "pub"]
+    discarded: bool,
 }
 
 impl Connection {
@@ -126,6 +145,7 @@ impl Connection {
             pending_ids: Arc::new(FramesDispatcher::new(buffer_size)),
             sender,
             buffer_size,
+            discarded: false,
         }
     }
 
@@ -160,6 +180,16 @@ impl Connection {
         Ok((receiver, frame_output))
     }
 
+    pub fn is_closed(&self) -> bool {
+        self.pending_ids.is_closed()
+    }
+
+    /// Prevents the connection from returning to the pool. Pool does not replace it for those
+    /// already waiting for a connection, so it has to be followed by getting another one.
+    pub fn discard(&mut self) {
+        self.discarded = true;
+    }
+
     fn next_message_id(&self) -> u32 {
         self.next_message_id.fetch_add(1, Ordering::Relaxed)
     }
@@ -235,7 +265,8 @@ impl FrameReceiver {
             .filter_map(Self::print_if_err_and_skip)
             .map(|frame| self.frame_senders.dispatch_following(frame))
             .for_each(Self::print_if_err)
-            .await
+            .await;
+        self.frame_senders.close().await;
     }
 
     fn print_if_err_and_skip(
diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 7cdf9a0..d22cff3 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -50,11 +50,12 @@ impl ConnectionPools {
             Pool::builder()
                 .max_lifetime(self.config.lifetime)
                 .max_size(self.config.max_connections)
-                .test_on_check_out(self.config.test_connection)
+                .test_on_check_out(true)
                 .error_sink(self.connection_pools_logger.boxed_clone())
                 .build(ConnectionManager {
                     addr,
                     frame_buffer_size: self.config.frame_buffer_size,
+                    test_connection: self.config.test_connection,
                 })
                 .await?,
         );
@@ -82,6 +83,7 @@ where
 pub struct ConnectionManager {
     addr: SocketAddr,
     frame_buffer_size: usize,
+    test_connection: bool,
 }
 
 #[async_trait]
@@ -99,12 +101,17 @@ impl bb8::ManageConnection for ConnectionManager {
 
     async fn is_valid(&self, conn: &mut Self::Connection) -> Result<(), Self::Error> {
         debug!("Is valid?");
-        ping(conn).await
+        if conn.is_closed() {
+            return Err(ConnectionError::Error("Connection is closed".to_owned()));
+        }
+        if self.test_connection {
+            ping(conn).await?;
+        }
+        Ok(())
     }
 
-    fn has_broken(&self, _conn: &mut Self::Connection) -> bool {
-        debug!("Has broken? (not implemented)");
-        false
+    fn has_broken(&self, conn: &mut Self::Connection) -> bool {
+        *conn.discarded()
     }
 }
 
diff --git a/src/subchannel.rs b/src/subchannel.rs
index ed22f77..7d87846 100644
--- a/src/subchannel.rs
+++ b/src/subchannel.rs
@@ -21,6 +21,9 @@ use tokio::sync::{Mutex, RwLock};
 
 type HandlerRef = Arc<Mutex<Box<dyn MessageArgsHandler>>>;
 
+/// Number of times a connection that got closed before its first use is replaced by a new one.
+const MAX_CONNECTION_ATTEMPTS: usize = 3;
+
 /// TChannel protocol subchannel.
 ///
 /// Allows to send [`Message`](crate::messages::Message) and [`register`](Self::register)/[`unregister`](Self::unregister) [`RequestHandler`](crate::handler::RequestHandler) (or [`RequestHandlerAsync`](crate::handler::RequestHandlerAsync)).
@@ -135,8 +138,18 @@ impl SubChannel {
 
     async fn connect(&self, host: SocketAddr) -> TResult<(FrameInput, FrameOutput)> {
         let pool = self.connection_pools.get(host).await?;
-        let connection = pool.get().await?;
-        Ok(connection.new_frames_io().await?)
+        let mut attempts = MAX_CONNECTION_ATTEMPTS;
+        loop {
+            let mut connection = pool.get().await?;
+            attempts -= 1;
+            match connection.new_frames_io().await {
+                Err(err) if connection.is_closed() && attempts > 0 => {
+                    debug!("Replacing closed connection: {}", err);
+                    connection.discard();
+                }
+                frames_io => return Ok(frames_io?),
+            }
+        }
     }
 
     async fn create_frames<REQ: Message>(&self, request: REQ) -> TResult<TFrameStream> {
-- 
2.43.0


From cd4e02abefe678da7dbed607e6c4c115d3b8c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 09/15] fix: a message that ends before its final frame is an
 error, not a complete message

---
 src/defragmentation.rs | 6 ++++--
 src/server.rs          | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 02c559f..6f0bc14 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -174,7 +174,7 @@ async fn read_continuation(
                 let mut continuation = CallContinue::decode(frame.payload_mut())?;
                 verify_args(continuation.args_mut()).map(|args| args_defragmenter.add(args))?;
                 if !continuation.flags().contains(Flags::MORE_FRAGMENTS_FOLLOW) {
-                    break;
+                    return Ok(());
                 }
             }
             Type::Error => {
@@ -193,7 +193,9 @@ async fn read_continuation(
             }
         };
     }
-    Ok(())
+    Err(TChannelError::Error(
+        "Message ended before its final frame".to_string(),
+    ))
 }
 
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
diff --git a/src/server.rs b/src/server.rs
index 30fbdc0..2e640c7 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -13,7 +13,7 @@ use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::messages::args::MessageArgs;
 use crate::SubChannel;
 use bytes::Bytes;
-use futures::{self, SinkExt, StreamExt, TryStreamExt};
+use futures::{self, future, stream, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
 use std::fmt::Debug;
@@ -88,9 +88,13 @@ impl Server {
             }),
         );
 
+        // Requests which are incomplete when there are no more frames will never complete.
+        let close_dispatchers =
+            stream::once(self.frame_dispatchers.close()).filter_map(|_| future::ready(None));
         framed_read
             .map_err(TChannelError::CodecError)
             .try_filter_map(|frame| self.dispatch_frame(frame, &handler.sender))
+            .chain(close_dispatchers)
             // Reading of requests is not limited, they may depend on each other's frames.
             .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
             .await
-- 
2.43.0


From 7c029d9317ad7b973cced6c203773d63b6169570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 10/15] fix: failing to accept a connection does not end the
 server

---
 src/server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 2e640c7..dd6f098 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -56,7 +56,14 @@ impl Server {
         debug!("Starting server on {}", config.server_address);
         let listener = TcpListener::bind(config.server_address).await?;
         loop {
-            let (stream, addr) = listener.accept().await?;
+            let (stream, addr) = match listener.accept().await {
+                Ok(accepted) => accepted,
+                Err(err) => {
+                    error!("Failed to accept connection: {}", err);
+                    tokio::task::yield_now().await;
+                    continue;
+                }
+            };
             debug!("Handling incoming connection from {}", addr);
             let subchannels = subchannels.clone();
             let mut server =
-- 
2.43.0


From 61ee5decde2bf00eb818b824a5b0a6ead52409fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 11/15] fix: unregister handlers of shared subchannels

---
 src/subchannel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subchannel.rs b/src/subchannel.rs
index 7d87846..c2d4856 100644
--- a/src/subchannel.rs
+++ b/src/subchannel.rs
@@ -109,7 +109,7 @@ impl SubChannel {
     }
 
     /// Unregisters request handler. Found handler will be dropped.
-    pub async fn unregister(&mut self, endpoint: impl AsRef<str>) -> TResult<()> {
+    pub async fn unregister(&self, endpoint: impl AsRef<str>) -> TResult<()> {
         let mut handlers = self.handlers.write().await;
         match handlers.remove(endpoint.as_ref()) {
             Some(_) => Ok(()),
-- 
2.43.0


From 7078c6f9c4868890f451d921c99b629ef2ab6d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 12/15] fix: repeated responses to a ping or init request do
 not block the connection

---
 src/connection/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 95d0e0b..9296f48 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -165,6 +165,8 @@ impl Connection {
         let (mut frame_input, frame_output) = self.new_frames_io().await?;
         frame_output.send(frame).await?;
         let response = frame_input.recv().await;
+        // Receiver of further frames with same id must not wait for them to be read.
+        drop(frame_input);
         frame_output.close().await;
         response.ok_or_else(|| ConnectionError::Error("Received no response".to_owned()))
     }
-- 
2.43.0


From 793fde7d4186cba7bbf1f3624df468c3e2a7d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 13/15] fix: do not reuse ids of pending messages when ids wrap
 around

---
 src/connection/mod.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 9296f48..ded57c7 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -5,6 +5,7 @@ use futures::prelude::*;
 use futures::{self, SinkExt};
 use futures::{future, StreamExt};
 use log::{debug, error};
+use std::collections::hash_map::Entry;
 use std::collections::HashMap;
 use std::fmt::Debug;
 #[cfg(not(tchannel_mc))]
@@ -79,16 +80,23 @@ impl FramesDispatcher {
         channels.remove(id)
     }
 
-    pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<()> {
+    /// Registers `sender` of frames with given `id`.
+    /// Returns `false` if the `id` is used by other pending message.
+    pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<bool> {
         let mut channels = self.senders.write().await;
         if self.is_closed() {
             return Err(ConnectionError::Error("Connection is closed".to_owned()));
         }
-        if channels.insert(id, sender).is_some() {
-            debug!("Sender for id {} already exists", id);
-            return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
+        match channels.entry(id) {
+            Entry::Occupied(_) => {
+                debug!("Sender for id {} already exists", id);
+                Ok(false)
+            }
+            Entry::Vacant(entry) => {
+                entry.insert(sender);
+                Ok(true)
+            }
         }
-        Ok(())
     }
 
     /// Ends all pending messages and prevents registration of new ones.
@@ -174,9 +182,16 @@ impl Connection {
     /// Prepares frame I/O with new message id.
     /// Then returns both input and output which allows to send multiple frames with same message id.
     pub async fn new_frames_io(&self) -> ConnectionResult<(FrameInput, FrameOutput)> {
-        let message_id = self.next_message_id();
+        let mut message_id = self.next_message_id();
         let (sender, receiver) = mpsc::channel::<TFrameId>(self.buffer_size); //TODO should use bufer_size?
-        self.pending_ids.register(message_id, sender).await?;
+                                                                              // Ids wrap around.
+        while !self
+            .pending_ids
+            .register(message_id, sender.clone())
+            .await?
+        {
+            message_id = self.next_message_id();
+        }
         let frame_output =
             FrameOutput::new(message_id, self.sender.clone(), self.pending_ids.clone());
         Ok((receiver, frame_output))
-- 
2.43.0


From 0eb099f0755c0b14435a9238818651083fdaeba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 14/15] fix: a server started right after a shutdown waits for
 the address to become free

---
 src/channel.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/channel.rs b/src/channel.rs
index 1748816..5caf77f 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -28,6 +28,7 @@ pub struct TChannel {
     connection_pools: Arc<ConnectionPools>,
     subchannels: SharedSubChannels,
     server_handle: ServerHandle,
+    server_lock: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl TChannel {
@@ -41,6 +42,7 @@ impl TChannel {
             connection_pools: Arc::new(connection_pools),
             subchannels,
             server_handle: Mutex::new(None),
+            server_lock: Arc::default(),
         })
     }
 
@@ -49,7 +51,14 @@ impl TChannel {
         let mut handle_lock = self.server_handle.lock().unwrap();
         if handle_lock.is_none() {
             debug!("Starting server"); //TODO lie
-            let handle = tokio::spawn(Server::run(self.config.clone(), self.subchannels.clone()));
+            let config = self.config.clone();
+            let subchannels = self.subchannels.clone();
+            let server_lock = self.server_lock.clone();
+            let handle = tokio::spawn(async move {
+                // Aborted server task may still own the listener.
+                let _lock = server_lock.lock().await;
+                Server::run(config, subchannels).await
+            });
             *handle_lock = Some(handle);
         } else {
             return Err(TChannelError::Error("Server already started".to_string()));
-- 
2.43.0


From 8234c77f7bf358f63b4d5fc7ba51a79b0aec82c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:03 +0000
Subject: [PATCH 15/15] fix: continuations of the opposite direction do not
 continue a message

---
 src/defragmentation.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 6f0bc14..b0ae2fb 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -102,7 +102,13 @@ impl Defragmenter {
             let message_args = MessageArgs::new(args_scheme, args_defragmenter.args());
             return Ok((fields, message_args));
         }
-        read_continuation(&mut self.frame_input, &mut args_defragmenter).await?;
+        let continuation_type = continuation_type(frame_type);
+        read_continuation(
+            &mut self.frame_input,
+            continuation_type,
+            &mut args_defragmenter,
+        )
+        .await?;
         let message_args = MessageArgs::new(args_scheme, args_defragmenter.args());
         Ok((fields, message_args))
     }
@@ -161,15 +167,24 @@ fn get_args_scheme<FIELDS: CallFields>(fields: &FIELDS) -> CodecResult<ArgScheme
     }
 }
 
+/// Type of the frames continuing a message that begins with given type.
+fn continuation_type(frame_type: Type) -> Type {
+    match frame_type {
+        Type::CallRequest => Type::CallRequestContinue,
+        _ => Type::CallResponseContinue,
+    }
+}
+
 async fn read_continuation(
     frame_input: &mut FrameInput,
+    continuation_type: Type,
     args_defragmenter: &mut ArgsDefragmenter,
 ) -> TResult<()> {
     debug!("Reading continuation");
     while let Some(frame_id) = frame_input.recv().await {
         let mut frame = frame_id.frame;
         match frame.frame_type() {
-            Type::CallResponseContinue | Type::CallRequestContinue => {
+            frame_type if *frame_type == continuation_type => {
                 debug!("Reading frame with type {:?}", frame.frame_type());
                 let mut continuation = CallContinue::decode(frame.payload_mut())?;
                 verify_args(continuation.args_mut()).map(|args| args_defragmenter.add(args))?;
-- 
2.43.0

