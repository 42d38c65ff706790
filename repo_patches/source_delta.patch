From 2549a85be8d72806f36893fd8162403903cde971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:04 +0000
Subject: [PATCH 01/19] fix: keep out-of-order ratchet secrets when an older
 frame is decrypted

The distance of a frame older than the last ratchet was computed with a wrapping
subtraction, so every such frame counted as far ahead: the retained old secret was
replaced by the newer one and then ratcheted almost a full cycle ahead, and further
frames within the out-of-order tolerance could no longer be decrypted.
---
 src/rust/src/core/crypto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/core/crypto.rs b/src/rust/src/core/crypto.rs
index 04a1ae8..9cc5743 100644
--- a/src/rust/src/core/crypto.rs
+++ b/src/rust/src/core/crypto.rs
@@ -160,7 +160,7 @@ impl ReceiverState {
             cur = cur.wrapping_add(1);
         }
         let sender_state = SenderState::new(ratchet_counter_goal, secret);
-        if frame_counter.wrapping_sub(self.ratchet_frame) > MAX_OOO_FRAMES {
+        if frame_counter.saturating_sub(self.ratchet_frame) > MAX_OOO_FRAMES {
             Self {
                 sender_state,
                 ratchet_frame: frame_counter,
-- 
2.43.0


From 7578cfb0d612f46a6abae5543f8f07488e3a9ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 02/19] fix: list registered assets in numeric, not textual,
 version order

---
 src/rust/src/core/assets.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/core/assets.rs b/src/rust/src/core/assets.rs
index 929df2d..287c4ba 100644
--- a/src/rust/src/core/assets.rs
+++ b/src/rust/src/core/assets.rs
@@ -67,12 +67,13 @@ impl Asset {
 
 impl Ord for Asset {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        match self.metadata.cmp(&other.metadata) {
+        // The parsed version goes first: the metadata holds it as text, and "0.0.10" sorts before "0.0.9".
+        match self.version.cmp(&other.version) {
             core::cmp::Ordering::Equal => {}
             ord => return ord,
         }
 
-        self.version.cmp(&other.version)
+        self.metadata.cmp(&other.metadata)
     }
 }
 
-- 
2.43.0


From c74742180e3375c4800143ce5460b1008d05aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 03/19] fix: refuse call link key text with anything after its
 last chunk

---
 src/rust/src/lite/call_links/base16.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rust/src/lite/call_links/base16.rs b/src/rust/src/lite/call_links/base16.rs
index 7656be7..fa9d8d0 100644
--- a/src/rust/src/lite/call_links/base16.rs
+++ b/src/rust/src/lite/call_links/base16.rs
@@ -120,16 +120,17 @@ impl ConsonantBase16<'_> {
         };
         while let Some(first) = bytes.next() {
             if count_until_separator == 0 {
+                let position = string.len() - (bytes.len() + 1);
                 if !SKIP_ALPHABET.contains(first) {
-                    let position = string.len() - (bytes.len() + 1);
                     return Err(DecodeError::MissingSeparator(position));
                 }
                 if bytes.len() == 0 {
-                    return Err(DecodeError::UnexpectedSeparator(string.len() - 1));
+                    return Err(DecodeError::UnexpectedSeparator(position));
                 }
                 count_until_separator = match chunk_size_iter.next() {
                     Some(chunk_size) => chunk_size,
-                    None => break,
+                    // Nothing may follow the last chunk.
+                    None => return Err(DecodeError::UnexpectedSeparator(position)),
                 };
                 continue;
             }
-- 
2.43.0


From 638a01394c182da34edb4d1c8c6989316de50df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:16 +0000
Subject: [PATCH 04/19] hook: build a device collection without the audio
 backend (cfg vp_hooks)

---
 .../src/webrtc/audio_device_module_utils.rs   | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 65a45eb..9448c00 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -220,6 +220,42 @@ impl DeviceCollectionWrapper {
     }
 }
 
+/// For verification only: builds a collection without the audio backend.
+#[allow(unexpected_cfgs)]
+#[cfg(vp_hooks)]
+impl DeviceCollectionWrapper {
+    #[allow(clippy::type_complexity)]
+    pub fn from_parts(
+        devices: Vec<(
+            DeviceId,
+            Option<String>,
+            String,
+            cubeb_core::DeviceType,
+            DevicePref,
+            DeviceState,
+        )>,
+    ) -> Self {
+        DeviceCollectionWrapper {
+            device_collection: devices
+                .into_iter()
+                .map(
+                    |(devid, device_id, friendly_name, _device_type, preferred, state)| {
+                        MinimalDeviceInfo {
+                            devid,
+                            device_id,
+                            friendly_name,
+                            #[cfg(target_os = "linux")]
+                            device_type: _device_type,
+                            preferred,
+                            state,
+                        }
+                    },
+                )
+                .collect(),
+        }
+    }
+}
+
 /// Copy from |src| into |dest| at most |dest_size| - 1 bytes and write a nul terminator either after |src| or at the end of |dest_size|
 pub fn copy_and_truncate_string(
     src: &str,
-- 
2.43.0


From fdad3e3389a5a18bb864ae8ac8d8cefc2b0570a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:29 +0000
Subject: [PATCH 05/19] fix: redact every captured device name, even one
 containing another

redact_by_regex() replaced the text of each capturing group in turn, so a
group containing the text of an earlier one was no longer found and stayed
readable in the log.  It also repeated any text before the match.
---
 .../src/webrtc/audio_device_module_utils.rs   | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 9448c00..eba6c73 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -308,21 +308,23 @@ pub fn redact_for_logging(s: &str) -> String {
 /// Redact all capturing groups (except group 0) with |redact_for_logging|
 /// if the regex matches. Otherwise, return None.
 pub fn redact_by_regex(re: &Regex, s: &str) -> Option<String> {
-    if re.is_match(s) {
-        Some(
-            re.replace(s, |caps: &regex::Captures| {
-                let mut out = s.to_string();
-                // Skip group 0 (the entire match)
-                for group in caps.iter().skip(1).flatten() {
-                    out = out.replace(group.as_str(), &redact_for_logging(group.as_str()));
-                }
-                out
-            })
-            .to_string(),
-        )
-    } else {
-        None
+    let caps = re.captures(s)?;
+    let mut out = String::with_capacity(s.len());
+    let mut end_of_previous_group = 0;
+    // Skip group 0 (the entire match)
+    for group in caps.iter().skip(1).flatten() {
+        if group.start() < end_of_previous_group {
+            // Part of a group that was already redacted.
+            continue;
+        }
+        // Replace by position rather than by content, since the content of one
+        // group can be part of another.
+        out.push_str(&s[end_of_previous_group..group.start()]);
+        out.push_str(&redact_for_logging(group.as_str()));
+        end_of_previous_group = group.end();
     }
+    out.push_str(&s[end_of_previous_group..]);
+    Some(out)
 }
 
 #[cfg(test)]
-- 
2.43.0


From aee8017684cfbc472044cdbd73a2a7f22787190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:29 +0000
Subject: [PATCH 06/19] hook: reach the audio backend's log callback (cfg
 vp_hooks)

---
 src/rust/src/webrtc/audio_device_module.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rust/src/webrtc/audio_device_module.rs b/src/rust/src/webrtc/audio_device_module.rs
index 1c3154b..02b44d1 100644
--- a/src/rust/src/webrtc/audio_device_module.rs
+++ b/src/rust/src/webrtc/audio_device_module.rs
@@ -1123,6 +1123,13 @@ fn log_c_str(s: &CStr) {
     }
 }
 
+/// For verification only: logs a message of the audio backend.
+#[allow(unexpected_cfgs)]
+#[cfg(vp_hooks)]
+pub fn vp_log_c_str(s: &CStr) {
+    log_c_str(s)
+}
+
 impl AudioDeviceModule {
     pub fn new() -> anyhow::Result<Self> {
         if !log_enabled()
-- 
2.43.0


From 4be5188406e5b25992f00c01659b106875ed84e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:59 +0000
Subject: [PATCH 07/19] fix: refuse call link expirations that do not fit in a
 SystemTime

A server answer (JSON or peek info) with an expiration beyond what SystemTime
can represent made CallLinkState::from_serialized panic in the client. Treat
it as a malformed answer instead.
---
 src/rust/src/lite/call_links.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/lite/call_links.rs b/src/rust/src/lite/call_links.rs
index b407280..c5899fa 100644
--- a/src/rust/src/lite/call_links.rs
+++ b/src/rust/src/lite/call_links.rs
@@ -46,11 +46,32 @@ pub struct CallLinkResponse<'a> {
     pub encrypted_name: &'a [u8],
     pub restrictions: CallLinkRestrictions,
     pub revoked: bool,
-    #[serde(rename = "expiration")]
+    #[serde(
+        rename = "expiration",
+        deserialize_with = "deserialize_expiration_unix_timestamp"
+    )]
     expiration_unix_timestamp: u64,
     epoch: Option<u32>,
 }
 
+/// The expiration comes from the server and must be representable as a [SystemTime].
+fn is_valid_expiration(expiration_unix_timestamp: u64) -> bool {
+    SystemTime::UNIX_EPOCH
+        .checked_add(Duration::from_secs(expiration_unix_timestamp))
+        .is_some()
+}
+
+fn deserialize_expiration_unix_timestamp<'de, D>(deserializer: D) -> Result<u64, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    let timestamp = u64::deserialize(deserializer)?;
+    if !is_valid_expiration(timestamp) {
+        return Err(serde::de::Error::custom("expiration is out of range"));
+    }
+    Ok(timestamp)
+}
+
 impl<'a> TryFrom<&'a sfu_to_device::peek_info::CallLinkState> for CallLinkResponse<'a> {
     type Error = String;
 
@@ -62,6 +83,9 @@ impl<'a> TryFrom<&'a sfu_to_device::peek_info::CallLinkState> for CallLinkRespon
         {
             return Err("Missing required fields in CallLinkState".to_string());
         }
+        if !is_valid_expiration(value.expiration_unix_timestamp()) {
+            return Err("Expiration is out of range in CallLinkState".to_string());
+        }
 
         Ok(Self {
             encrypted_name: value.encrypted_name().as_bytes(),
-- 
2.43.0


From 662fd2f87ccc103b63b17e3e4d5c86dc46cd9f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 08/19] fix: report the end of a 1:1 call once, and nothing of
 the call afterwards

A call could be terminated a second time while its first termination was still
being carried out (a failed hangup while handling busy, a failure report or a
reset right after a hangup), and its start or an event could be reported after
its end.
---
 src/rust/src/core/call.rs         | 21 +++++++++++++++++++++
 src/rust/src/core/call_manager.rs |  5 +++++
 2 files changed, 26 insertions(+)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index fa505a1..8f70128 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -101,6 +101,9 @@ where
     connection_map: Arc<CallMutex<HashMap<DeviceId, Connection<T>>>>,
     /// Condition variable used at termination to quiesce and synchronize the FSM.
     terminate_condvar: Arc<(Mutex<bool>, Condvar)>,
+    /// Whether or not the call manager has begun to terminate this call. It must do so only once,
+    /// and the application must not hear of the call after it was told that the call ended.
+    did_begin_termination: Arc<CallMutex<bool>>,
     /// Whether or not an offer has been sent via messaging for this call.
     did_send_offer: Arc<AtomicBool>,
     /// Whether or not the application has already been notified of ApplicationEvent::RemoteRinging.
@@ -191,6 +194,7 @@ where
             timeout_stopper: self.timeout_stopper.clone(),
             connection_map: Arc::clone(&self.connection_map),
             terminate_condvar: Arc::clone(&self.terminate_condvar),
+            did_begin_termination: Arc::clone(&self.did_begin_termination),
             did_send_offer: Arc::clone(&self.did_send_offer),
             did_notify_application_of_remote_ringing: Arc::clone(
                 &self.did_notify_application_of_remote_ringing,
@@ -240,6 +244,7 @@ where
             timeout_stopper: Stopper::new(),
             connection_map: Arc::new(CallMutex::new(HashMap::new(), "connection_map")),
             terminate_condvar: Arc::new((Mutex::new(false), Condvar::new())),
+            did_begin_termination: Arc::new(CallMutex::new(false, "did_begin_termination")),
             did_send_offer: Arc::new(AtomicBool::new(false)),
             did_notify_application_of_remote_ringing: Arc::new(AtomicBool::new(false)),
             forking: Arc::new(CallMutex::new(None, "forking")),
@@ -419,6 +424,11 @@ where
         let call_manager = self.call_manager()?;
         let remote_peer = self.remote_peer()?;
 
+        let did_begin_termination = self.did_begin_termination.lock()?;
+        if *did_begin_termination {
+            return Ok(());
+        }
+
         call_manager.start_call(&remote_peer, self.call_id, self.direction, self.media_type)
     }
 
@@ -461,6 +471,11 @@ where
         let call_manager = self.call_manager()?;
         let remote_peer = self.remote_peer()?;
 
+        let did_begin_termination = self.did_begin_termination.lock()?;
+        if *did_begin_termination {
+            return Ok(());
+        }
+
         call_manager.notify_application(&remote_peer, self.call_id, event)
     }
 
@@ -750,6 +765,12 @@ where
         }
     }
 
+    /// Note that the call is about to be terminated. Returns false if that already happened.
+    pub fn begin_termination(&self) -> Result<bool> {
+        let mut did_begin_termination = self.did_begin_termination.lock()?;
+        Ok(!std::mem::replace(&mut *did_begin_termination, true))
+    }
+
     /// Return true if a hangup should be sent to the remote peer.
     pub fn should_send_hangup(&self) -> bool {
         match self.direction {
diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 4426a4f..ec50fe1 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1094,6 +1094,11 @@ where
 
         info!("terminate_call(): call_id: {}", call_id);
 
+        if !call.begin_termination()? {
+            info!("terminate_call(): already terminating");
+            return Ok(());
+        }
+
         self.trim_messages(call_id)?;
 
         if let Some(reason) = reason {
-- 
2.43.0


From 75e7007a175420f4b7e3c55f3857c698db3cc3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 09/19] fix: ending a 1:1 call leaves a newer call with the
 same ID alone

When the peer called again with the ID of the call being ended, the new call
was dropped in place of the old one, and the device stayed busy until reset.
---
 src/rust/src/core/call.rs         |  5 +++++
 src/rust/src/core/call_manager.rs | 19 +++++++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index 8f70128..c247cbd 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -765,6 +765,11 @@ where
         }
     }
 
+    /// Whether both refer to the same call, and not just to calls with the same ID.
+    pub fn is_same_call(&self, other: &Self) -> bool {
+        Arc::ptr_eq(&self.state, &other.state)
+    }
+
     /// Note that the call is about to be terminated. Returns false if that already happened.
     pub fn begin_termination(&self) -> Result<bool> {
         let mut did_begin_termination = self.did_begin_termination.lock()?;
diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index ec50fe1..1eb23a1 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1031,13 +1031,20 @@ where
 
     /// Terminates Call and optionally notifies application of the reason why.
     /// Also removes/drops it from the map.
-    fn terminate_and_drop_call(&mut self, call_id: CallId) -> Result<()> {
+    fn terminate_and_drop_call(&mut self, call: &mut Call<T>) -> Result<()> {
+        let call_id = call.call_id();
         info!("terminate_and_drop_call(): call_id: {}", call_id);
 
-        let mut call = match self.call_by_call_id.lock()?.remove(&call_id) {
-            Some(v) => v,
-            None => return Err(RingRtcError::CallIdNotFound(call_id).into()),
-        };
+        {
+            // The ID might belong to a newer call by now, if the peer is calling again with it.
+            let mut call_map = self.call_by_call_id.lock()?;
+            if call_map
+                .get(&call_id)
+                .is_some_and(|current| current.is_same_call(call))
+            {
+                call_map.remove(&call_id);
+            }
+        }
 
         // blocks while call FSM terminates
         call.terminate()
@@ -1124,7 +1131,7 @@ where
                         call.send_hangup_via_signaling_to_all(hangup)?;
                     }
                 }
-                call_manager.terminate_and_drop_call(call_id)
+                call_manager.terminate_and_drop_call(&mut call)
             });
             if let Err(err) = err {
                 error!("Conclude call failed: {}", err);
-- 
2.43.0


From cd6413cf2ef180ec0cbd335999a36838123f02e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 10/19] fix: no offer goes out for a 1:1 call that has already
 ended

When a call was ended while its offer was being made, the offer was still sent
afterwards, but no hangup: the callee kept ringing.
---
 src/rust/src/core/call.rs         | 23 +++++++++++++--
 src/rust/src/core/call_manager.rs | 49 +++++++++++++++++--------------
 2 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index c247cbd..44554b0 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -28,7 +28,7 @@ use crate::{
     core::{
         assets::AssetRegistry,
         call_fsm::{CallEvent, CallStateMachine},
-        call_manager::CallManager,
+        call_manager::{CallManager, MessageSendResult},
         call_mutex::CallMutex,
         call_summary::DirectCallSummary,
         connection::{Connection, ConnectionObserverEvent, ConnectionType},
@@ -673,8 +673,6 @@ where
 
                 self.call_summary.on_call_event(&CallEvent::SendingOffer);
                 call_manager.send_offer(self.clone(), parent_connection, offer)?;
-                // If we don't do this, then hangups won't be sent.
-                self.did_send_offer.store(true, Ordering::Release);
             }
         }
         Ok(())
@@ -770,6 +768,25 @@ where
         Arc::ptr_eq(&self.state, &other.state)
     }
 
+    /// Ask the application to send a signaling message of this call, unless the call is already
+    /// being terminated, when only hangups still matter.
+    pub(super) fn send_unless_terminating(
+        &self,
+        send: impl FnOnce() -> Result<()>,
+    ) -> Result<MessageSendResult> {
+        let did_begin_termination = self.did_begin_termination.lock()?;
+        if *did_begin_termination {
+            return Ok(MessageSendResult::NotSent);
+        }
+        send()?;
+        Ok(MessageSendResult::Sent)
+    }
+
+    /// Note that an offer was sent. If we don't do this, then hangups won't be sent.
+    pub fn set_did_send_offer(&self) {
+        self.did_send_offer.store(true, Ordering::Release);
+    }
+
     /// Note that the call is about to be terminated. Returns false if that already happened.
     pub fn begin_termination(&self) -> Result<bool> {
         let mut did_begin_termination = self.did_begin_termination.lock()?;
diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 1eb23a1..8ed8f90 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -145,7 +145,7 @@ macro_rules! handle_api {
 /// message is in-flight and the next one can be sent right away, if
 /// any.
 #[derive(PartialEq)]
-enum MessageSendResult {
+pub(super) enum MessageSendResult {
     Sent,
     NotSent,
 }
@@ -2584,9 +2584,12 @@ where
             let remote_peer = call.remote_peer()?;
 
             if connection.can_send_messages() {
-                let platform = cm.platform.lock()?;
-                platform.on_send_offer(&remote_peer, call_id, offer)?;
-                Ok(MessageSendResult::Sent)
+                call.send_unless_terminating(|| {
+                    let platform = cm.platform.lock()?;
+                    platform.on_send_offer(&remote_peer, call_id, offer)?;
+                    call.set_did_send_offer();
+                    Ok(())
+                })
             } else {
                 Ok(MessageSendResult::NotSent)
             }
@@ -2625,9 +2628,10 @@ where
             let remote_peer = call.remote_peer()?;
 
             if connection.can_send_messages() {
-                let platform = cm.platform.lock()?;
-                platform.on_send_answer(&remote_peer, call_id, send)?;
-                Ok(MessageSendResult::Sent)
+                call.send_unless_terminating(|| {
+                    let platform = cm.platform.lock()?;
+                    platform.on_send_answer(&remote_peer, call_id, send)
+                })
             } else {
                 Ok(MessageSendResult::NotSent)
             }
@@ -2671,22 +2675,23 @@ where
 
             let remote_peer = call.remote_peer()?;
 
-            let platform = cm.platform.lock()?;
-            platform.on_send_ice(
-                &remote_peer,
-                call_id,
-                signaling::SendIce {
-                    receiver_device_id: if broadcast {
-                        None
-                    } else {
-                        Some(connection.remote_device_id())
-                    },
-                    ice: signaling::Ice {
-                        candidates: local_candidates,
+            call.send_unless_terminating(|| {
+                let platform = cm.platform.lock()?;
+                platform.on_send_ice(
+                    &remote_peer,
+                    call_id,
+                    signaling::SendIce {
+                        receiver_device_id: if broadcast {
+                            None
+                        } else {
+                            Some(connection.remote_device_id())
+                        },
+                        ice: signaling::Ice {
+                            candidates: local_candidates,
+                        },
                     },
-                },
-            )?;
-            Ok(MessageSendResult::Sent)
+                )
+            })
         });
 
         let message_item = SignalingMessageItem {
-- 
2.43.0


From 0d987a49bb573f05cd01938e1f6c35daf93a6569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 11/19] fix: the threads of a call that never started end with
 it

Each offer refused because the device was busy left two threads behind.
---
 src/rust/src/core/call_fsm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/src/core/call_fsm.rs b/src/rust/src/core/call_fsm.rs
index de8ff57..8ab62ab 100644
--- a/src/rust/src/core/call_fsm.rs
+++ b/src/rust/src/core/call_fsm.rs
@@ -217,6 +217,9 @@ where
 {
     fn drop(&mut self) {
         debug!("Dropping CallStateMachine:");
+        // A call that never started (because we are busy, for example) isn't terminated either.
+        self.worker_thread.stopper().stop_all_without_joining();
+        self.notify_thread.stopper().stop_all_without_joining();
     }
 }
 
-- 
2.43.0


From 968f94a40847d8c9e567e81177fb386feef55b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 12/19] fix: the conclusion of a 1:1 call is never lost

Two threads letting go of the last two references at once could each see the
other's, and then neither told the application that the call had concluded.
---
 src/rust/src/core/call.rs | 49 +++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index 44554b0..fe25ed8 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -118,6 +118,9 @@ where
     call_summary: DirectCallSummary,
     /// Registry for accessing large, pre-loaded assets
     asset_registry: AssetRegistry,
+    /// Shared by all references to this call, and dropped with the last one. Comes last so that
+    /// everything else has been dropped by then.
+    _conclusion_notifier: Arc<ConclusionNotifier<T>>,
 }
 
 impl<T> fmt::Display for Call<T>
@@ -149,27 +152,27 @@ where
     }
 }
 
-impl<T> Drop for Call<T>
+/// Lets the application release the remote object once the last reference to a call is gone.
+struct ConclusionNotifier<T>
+where
+    T: Platform,
+{
+    call_manager: Arc<CallMutex<CallManager<T>>>,
+    call_id: CallId,
+    app_remote_peer: Arc<CallMutex<<T as Platform>::AppRemotePeer>>,
+}
+
+impl<T> Drop for ConclusionNotifier<T>
 where
     T: Platform,
 {
     fn drop(&mut self) {
-        if self.ref_count() == 1 {
-            info!("Call: Dropping last reference: {}", self.call_id);
+        info!("Call: Dropping last reference: {}", self.call_id);
 
-            // This is the last call reference, so let the application
-            // release the the remote object.
-            if let Ok(call_manager) = self.call_manager()
-                && let Ok(remote_peer) = self.remote_peer()
-            {
-                let _ = call_manager.notify_call_concluded(&remote_peer, self.call_id);
-            }
-        } else {
-            debug!(
-                "Dropping Call: {}, ref_count: {}",
-                self.call_id,
-                self.ref_count()
-            );
+        if let Ok(call_manager) = self.call_manager.lock()
+            && let Ok(remote_peer) = self.app_remote_peer.lock()
+        {
+            let _ = call_manager.notify_call_concluded(&remote_peer, self.call_id);
         }
     }
 }
@@ -202,6 +205,7 @@ where
             forking: Arc::clone(&self.forking),
             call_summary: self.call_summary.clone(),
             asset_registry: self.asset_registry.clone(),
+            _conclusion_notifier: Arc::clone(&self._conclusion_notifier),
         }
     }
 }
@@ -229,13 +233,21 @@ where
             .name("fsm-worker".to_string())
             .spawn(move || call_fsm.run())?;
 
+        let call_manager = Arc::new(CallMutex::new(call_manager, "call_manager"));
+        let app_remote_peer = Arc::new(CallMutex::new(app_remote_peer, "app_remote_peer"));
+        let conclusion_notifier = Arc::new(ConclusionNotifier {
+            call_manager: Arc::clone(&call_manager),
+            call_id,
+            app_remote_peer: Arc::clone(&app_remote_peer),
+        });
+
         let call = Self {
-            call_manager: Arc::new(CallMutex::new(call_manager, "call_manager")),
+            call_manager,
             call_id,
             direction,
             media_type,
             local_device_id,
-            app_remote_peer: Arc::new(CallMutex::new(app_remote_peer, "app_remote_peer")),
+            app_remote_peer,
             app_call_context: Arc::new(CallMutex::new(None, "app_call_context")),
             state: Arc::new(CallMutex::new(CallState::NotYetStarted, "state")),
             active_device_id: Arc::new(CallMutex::new(None, "active_device_id")),
@@ -250,6 +262,7 @@ where
             forking: Arc::new(CallMutex::new(None, "forking")),
             call_summary: DirectCallSummary::default(),
             asset_registry,
+            _conclusion_notifier: conclusion_notifier,
         };
 
         Ok(call)
-- 
2.43.0


From 19a708a5e0bf707d673a84615b977b1c1e3626b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 13/19] fix: do not deadlock the call manager when refusing an
 offer fails

handle_received_offer held the busy lock while sending the busy message. When
the application failed to send it and the offer's call ID was that of the
active call, ending that call took the lock again and the worker thread hung.
---
 src/rust/src/core/call_manager.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 8ed8f90..e0d0fd8 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1517,6 +1517,8 @@ where
                 self.notify_application(&remote_peer, incoming_call_id, app_event)?;
             }
             IncomingCallAction::RejectAsBusy(app_event) => {
+                // If sending fails, an active call with the same ID is ended, which takes this lock.
+                drop(busy);
                 self.notify_application(&remote_peer, incoming_call_id, app_event)?;
                 self.send_busy(incoming_call)?;
             }
-- 
2.43.0


From 9001ec1ab056242d58fba05064fea47980c06b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 14/19] fix: a refused call() does not end the call in progress

Calling the user one is already in a call with ended that call with an internal
failure, and the application never learned what became of the new call ID. The
call in progress is only to be ended if it is the one that failed to start.
---
 src/rust/src/core/call_manager.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index e0d0fd8..11c80a5 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -2161,6 +2161,7 @@ where
     ) {
         info!("internal_create_api_error(): error: {}", error);
         if let Ok(active_call) = self.active_call()
+            && active_call.call_id() == call_id
             && self.remote_peer_equals_active(&active_call, remote_peer)
         {
             // The task managed to create the active call and then
-- 
2.43.0


From b82308b82320f98a59d1683109a4df4d40314064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 15/19] fix: a call ending on its own thread leaves the call
 replacing it alone

---
 src/rust/src/core/call_manager.rs | 32 +++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 11c80a5..a93f6c1 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1029,6 +1029,27 @@ where
         Ok(())
     }
 
+    /// If the specified call is (still) the active one, clears it and releases busy so another call
+    /// can begin. Returns false if the call was no longer active.
+    ///
+    /// A call can end on its own thread while the next one is being started in its place, which
+    /// happens with the busy lock held.
+    fn deactivate_call(&mut self, call: &Call<T>) -> Result<bool> {
+        let mut busy = self.busy.lock()?;
+        let mut active_call_id = self.active_call_id.lock()?;
+        let is_active = *active_call_id == Some(call.call_id())
+            && self
+                .call_by_call_id
+                .lock()?
+                .get(&call.call_id())
+                .is_none_or(|current| current.is_same_call(call));
+        if is_active {
+            *active_call_id = None;
+            *busy = false;
+        }
+        Ok(is_active)
+    }
+
     /// Terminates Call and optionally notifies application of the reason why.
     /// Also removes/drops it from the map.
     fn terminate_and_drop_call(&mut self, call: &mut Call<T>) -> Result<()> {
@@ -1157,8 +1178,10 @@ where
         }
 
         let call = self.active_call()?;
-        self.clear_active_call()?;
-        self.release_busy()?;
+        if !self.deactivate_call(&call)? {
+            info!("terminate_active_call(): skipping, no longer active");
+            return Ok(());
+        }
 
         let hangup = if send_hangup {
             Some(signaling::Hangup::Normal)
@@ -1242,8 +1265,9 @@ where
         hangup: Option<signaling::Hangup>,
         reason: CallEndReason,
     ) -> Result<()> {
-        self.clear_active_call()?;
-        self.release_busy()?;
+        if !self.deactivate_call(&active_call)? {
+            return Ok(());
+        }
         self.terminate_call(active_call, hangup, Some(reason))
     }
 
-- 
2.43.0


From d90639e0ba1b4bfcf23880fb48a9ea304f266ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 16/19] hook: record the ICE candidates the simulated media
 stack is given (cfg vp_hooks)

---
 src/rust/src/webrtc/sim/peer_connection.rs | 23 ++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/rust/src/webrtc/sim/peer_connection.rs b/src/rust/src/webrtc/sim/peer_connection.rs
index 452f7bd..9f7fc0b 100644
--- a/src/rust/src/webrtc/sim/peer_connection.rs
+++ b/src/rust/src/webrtc/sim/peer_connection.rs
@@ -66,6 +66,8 @@ impl RffiPeerConnection {
                 removed_ice_candidates: vec![],
                 max_bitrate_bps: None,
                 last_sent_rtp_data: None,
+                #[cfg(vp_hooks)]
+                vp_ice: vec![],
             })),
         }
     }
@@ -103,7 +105,20 @@ impl RffiPeerConnection {
         state.rtp_packet_sink = Some(rtp_packet_sink);
     }
 
+    /// The remote candidates added and removed ("-" and port) since the last time, in order.
+    #[cfg(vp_hooks)]
+    pub fn vp_take_ice(&self) -> Vec<String> {
+        std::mem::take(&mut self.state.lock().unwrap().vp_ice)
+    }
+
     fn remove_ice_candidates(&self, removed_addresses: impl Iterator<Item = SocketAddr>) {
+        #[cfg(vp_hooks)]
+        let removed_addresses = removed_addresses.inspect(|address| {
+            let removed = format!("-{}", address.port());
+            self.state.lock().unwrap().vp_ice.push(removed);
+        });
+        #[cfg(vp_hooks)]
+        let removed_addresses = removed_addresses.collect::<Vec<_>>().into_iter();
         self.state
             .lock()
             .unwrap()
@@ -146,6 +161,8 @@ struct RffiPeerConnectionState {
     removed_ice_candidates: Vec<SocketAddr>,
     max_bitrate_bps: Option<i32>,
     last_sent_rtp_data: Option<Vec<u8>>,
+    #[cfg(vp_hooks)]
+    vp_ice: Vec<String>,
 }
 
 #[allow(non_snake_case, clippy::missing_safety_doc)]
@@ -251,6 +268,12 @@ pub unsafe fn Rust_addIceCandidateFromSdp(
     _sdp: webrtc::ptr::Borrowed<c_char>,
 ) -> bool {
     info!("Rust_addIceCandidateFromSdp():");
+    #[cfg(vp_hooks)]
+    unsafe {
+        let sdp = std::ffi::CStr::from_ptr(_sdp.as_ptr()).to_string_lossy();
+        let state = &(*_peer_connection.as_ptr()).state;
+        state.lock().unwrap().vp_ice.push(sdp.into_owned());
+    }
     true
 }
 
-- 
2.43.0


From dc5cb1449fc53cac03a8b1840a938e90d5ca163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 17/19] hook: record the media keys the simulated media stack
 is given (cfg vp_hooks)

---
 src/rust/src/webrtc/sim/peer_connection.rs | 27 ++++++++++++++
 src/rust/src/webrtc/sim/sdp_observer.rs    | 41 ++++++++++++++++++++++
 2 files changed, 68 insertions(+)

diff --git a/src/rust/src/webrtc/sim/peer_connection.rs b/src/rust/src/webrtc/sim/peer_connection.rs
index 9f7fc0b..d24485d 100644
--- a/src/rust/src/webrtc/sim/peer_connection.rs
+++ b/src/rust/src/webrtc/sim/peer_connection.rs
@@ -68,6 +68,8 @@ impl RffiPeerConnection {
                 last_sent_rtp_data: None,
                 #[cfg(vp_hooks)]
                 vp_ice: vec![],
+                #[cfg(vp_hooks)]
+                vp_keys: vec![],
             })),
         }
     }
@@ -111,6 +113,18 @@ impl RffiPeerConnection {
         std::mem::take(&mut self.state.lock().unwrap().vp_ice)
     }
 
+    /// The media keys of the descriptions applied so far: which end, which description, key.
+    #[cfg(vp_hooks)]
+    pub fn vp_keys(&self) -> Vec<VpKey> {
+        self.state.lock().unwrap().vp_keys.clone()
+    }
+
+    #[cfg(vp_hooks)]
+    fn vp_put_key(&self, end: &'static str, description: &'static str) {
+        let key = webrtc::sim::sdp_observer::vp_take_srtp_key(description);
+        self.state.lock().unwrap().vp_keys.push((end, description, key));
+    }
+
     fn remove_ice_candidates(&self, removed_addresses: impl Iterator<Item = SocketAddr>) {
         #[cfg(vp_hooks)]
         let removed_addresses = removed_addresses.inspect(|address| {
@@ -153,6 +167,13 @@ impl RffiPeerConnection {
 
 pub type BoxedRtpPacketSink = Box<dyn Fn(rtp::Header, &[u8]) + Send + 'static>;
 
+#[cfg(vp_hooks)]
+pub type VpKey = (
+    &'static str,
+    &'static str,
+    Option<webrtc::sim::sdp_observer::VpSrtpKey>,
+);
+
 struct RffiPeerConnectionState {
     local_description_set: bool,
     remote_description_set: bool,
@@ -163,6 +184,8 @@ struct RffiPeerConnectionState {
     last_sent_rtp_data: Option<Vec<u8>>,
     #[cfg(vp_hooks)]
     vp_ice: Vec<String>,
+    #[cfg(vp_hooks)]
+    vp_keys: Vec<VpKey>,
 }
 
 #[allow(non_snake_case, clippy::missing_safety_doc)]
@@ -200,6 +223,8 @@ pub unsafe fn Rust_setLocalDescription(
     info!("Rust_setLocalDescription():");
     unsafe {
         (*peer_connection.as_ptr()).set_local_description();
+        #[cfg(vp_hooks)]
+        (*peer_connection.as_ptr()).vp_put_key("local", *_local_desc.as_ptr());
     }
 }
 
@@ -220,6 +245,8 @@ pub unsafe fn Rust_setRemoteDescription(
     info!("Rust_setRemoteDescription():");
     unsafe {
         (*peer_connection.as_ptr()).set_remote_description();
+        #[cfg(vp_hooks)]
+        (*peer_connection.as_ptr()).vp_put_key("remote", *_remote_desc.as_ptr());
     }
 }
 
diff --git a/src/rust/src/webrtc/sim/sdp_observer.rs b/src/rust/src/webrtc/sim/sdp_observer.rs
index 8b79c11..2f7252f 100644
--- a/src/rust/src/webrtc/sim/sdp_observer.rs
+++ b/src/rust/src/webrtc/sim/sdp_observer.rs
@@ -25,6 +25,38 @@ static mut FAKE_SDP: &str = "FAKE SDP";
 static mut FAKE_SDP_OFFER: &str = "FAKE SDP OFFER";
 static mut FAKE_SDP_ANSWER: &str = "FAKE SDP ANSWER";
 
+/// A key set on a session description.
+#[cfg(vp_hooks)]
+#[derive(Clone, Debug)]
+pub struct VpSrtpKey {
+    pub description: RffiSessionDescription,
+    pub suite: SrtpCryptoSuite,
+    pub key: Vec<u8>,
+    pub salt: Vec<u8>,
+}
+
+#[cfg(vp_hooks)]
+thread_local! {
+    static VP_SRTP_KEYS: std::cell::RefCell<Vec<VpSrtpKey>> = const { std::cell::RefCell::new(vec![]) };
+}
+
+#[cfg(vp_hooks)]
+fn vp_put_srtp_key(key: VpSrtpKey) {
+    VP_SRTP_KEYS.with_borrow_mut(|keys| {
+        keys.retain(|k| k.description != key.description);
+        keys.push(key);
+    });
+}
+
+/// The key this thread last set on a description of that kind.
+#[cfg(vp_hooks)]
+pub(crate) fn vp_take_srtp_key(description: RffiSessionDescription) -> Option<VpSrtpKey> {
+    VP_SRTP_KEYS.with_borrow_mut(|keys| {
+        let i = keys.iter().position(|k| k.description == description)?;
+        Some(keys.remove(i))
+    })
+}
+
 /// Simulation type for webrtc::rffi::CreateSessionDescriptionObserverRffi
 pub type RffiCreateSessionDescriptionObserver = u32;
 
@@ -95,6 +127,15 @@ pub unsafe fn Rust_disableDtlsAndSetSrtpKey(
     _salt_len: size_t,
 ) -> bool {
     info!("Rust_disableDtlsAndSetSrtpKey(): ");
+    #[cfg(vp_hooks)]
+    unsafe {
+        vp_put_srtp_key(VpSrtpKey {
+            description: *_session_description.as_ptr(),
+            suite: _crypto_suite,
+            key: std::slice::from_raw_parts(_key_data.as_ptr(), _key_len).to_vec(),
+            salt: std::slice::from_raw_parts(_salt_data.as_ptr(), _salt_len).to_vec(),
+        });
+    }
     true
 }
 
-- 
2.43.0


From 003f14950314dee1010fff3e35ff69ee3d5aac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 18/19] fix: keep processing reliable SFU messages after one
 with fragmented content

When several reliable messages become ready at once (a gap in their
sequence numbers was filled), the first one that carried its message as
content ended the loop, and those after it were lost although they had
been acknowledged.
---
 src/rust/src/core/group_call.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 6bf9ee5..9754beb 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -4421,7 +4421,6 @@ impl Client {
                                         error!("Failed to decode content buffer in SfuToDevice: {:?}", err);
                                     }
                                 }
-                                return;
                             } else {
                                 Self::handle_sfu_to_device_inner(
                                     &state.actor,
-- 
2.43.0


From 508225370c55e46d0778cde03ca5d37189cc46b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 19/19] hook: let a simulated server and media stack drive a
 group call client (cfg vp_hooks)

---
 src/rust/src/core/group_call.rs | 55 +++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 9754beb..a611022 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -5009,6 +5009,61 @@ impl Client {
     }
 }
 
+// What a simulated server and media stack need of a client.
+#[cfg(all(vp_hooks, feature = "sim"))]
+impl Client {
+    pub fn vp_rtp(&self, header: rtp::Header, payload: &[u8]) {
+        self.handle_rtp_received(header, payload)
+    }
+
+    pub fn vp_encrypt(&self, plaintext: &[u8]) -> Option<Vec<u8>> {
+        let mut out = vec![0; Self::get_ciphertext_buffer_size(plaintext.len())];
+        let len = self.encrypt_media(plaintext, &mut out).ok()?;
+        out.truncate(len);
+        Some(out)
+    }
+
+    pub fn vp_decrypt(&self, from: DemuxId, ciphertext: &[u8]) -> Option<Vec<u8>> {
+        let mut out = vec![0; Self::get_plaintext_buffer_size(ciphertext.len())];
+        let len = self.decrypt_media(from, ciphertext, &mut out).ok()?;
+        out.truncate(len);
+        Some(out)
+    }
+
+    pub fn vp_ice(&self, ice: IceConnectionState) {
+        self.actor.send(move |state| {
+            let _ = state
+                .peer_connection_observer_impl
+                .handle_ice_connection_state_changed(ice);
+        });
+    }
+
+    pub fn vp_set_rtp_sink(&self, sink: webrtc::sim::peer_connection::BoxedRtpPacketSink) {
+        self.actor
+            .send(move |state| state.peer_connection.set_rtp_packet_sink(sink));
+    }
+
+    pub fn vp_run_after(&self, delay: Duration, run: impl FnOnce() + Send + 'static) {
+        self.actor.send_delayed(delay, move |_| run());
+    }
+
+    pub fn vp_run(&self, run: impl FnOnce() + Send + 'static) {
+        self.actor.send(move |_| run());
+    }
+
+    pub fn vp_send_state(&self) -> (u8, [u8; 32]) {
+        self.frame_crypto_context.lock().unwrap().send_state()
+    }
+
+    pub fn vp_join_full(&self) {
+        self.on_sfu_client_join_attempt_completed(Err(RingRtcError::GroupCallFull.into()))
+    }
+
+    pub fn vp_stop(&self) {
+        self.actor.stopper().stop_all_without_joining();
+    }
+}
+
 // We need to wrap a Call to implement PeerConnectionObserverTrait
 // because we need to pass an impl into PeerConnectionObserver::new
 // before we call PeerConnectionFactory::create_peer_connection.
-- 
2.43.0

