From 5c04424991e6f972c5d6f71a4a760ab07bd201cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:35 +0000
Subject: [PATCH 01/44] fix: keep receiver ratchet state when an older
 ratchet's frame arrives late

A frame of an older ratchet arriving out of order moved the receiver state
backward and replaced the retained old secret, so that further late frames
within the out-of-order limits could no longer be decrypted.
---
 src/rust/src/core/crypto.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rust/src/core/crypto.rs b/src/rust/src/core/crypto.rs
index 04a1ae8..66631b0 100644
--- a/src/rust/src/core/crypto.rs
+++ b/src/rust/src/core/crypto.rs
@@ -397,9 +397,13 @@ impl Context {
         for state in states.iter_mut() {
             let mut try_state = state.try_advance_ratchet(ratchet_counter, frame_counter);
             if check_mac(&try_state, frame_counter, data, mac) {
-                try_state.limit_ooo();
-                *state = try_state;
-                decrypt_internal(state, frame_counter, data);
+                decrypt_internal(&try_state, frame_counter, data);
+                // A frame from an older ratchet that arrives out of order must not move the state
+                // backward, or else the old secret needed for other such frames would be lost.
+                if frame_counter > state.ratchet_frame {
+                    try_state.limit_ooo();
+                    *state = try_state;
+                }
                 return Ok(());
             }
         }
-- 
2.43.0


From d4f19dd871b8c405bafdeff1f61bf0c82c7124b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 02/44] fix: reject call link strings with extra data after the
 last chunk

ConsonantBase16::parse_with_separators stopped silently once the list of chunk
sizes ran out, so a complete root key followed by '-' and arbitrary text was
accepted as if the trailing text were not there.
---
 src/rust/src/lite/call_links/base16.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/lite/call_links/base16.rs b/src/rust/src/lite/call_links/base16.rs
index 7656be7..8c68445 100644
--- a/src/rust/src/lite/call_links/base16.rs
+++ b/src/rust/src/lite/call_links/base16.rs
@@ -129,7 +129,10 @@ impl ConsonantBase16<'_> {
                 }
                 count_until_separator = match chunk_size_iter.next() {
                     Some(chunk_size) => chunk_size,
-                    None => break,
+                    None => {
+                        let position = string.len() - (bytes.len() + 1);
+                        return Err(DecodeError::UnexpectedSeparator(position));
+                    }
                 };
                 continue;
             }
-- 
2.43.0


From ae095c3c211e4ea79f57b2ff6fd904cb046cd5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 03/44] fix: don't panic when a call link's expiration can't be
 represented

SystemTime + Duration panics on overflow, and the expiration timestamp is
whatever the server's JSON (or the SFU's peek info) says it is.
---
 src/rust/src/lite/call_links.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/lite/call_links.rs b/src/rust/src/lite/call_links.rs
index b407280..3337878 100644
--- a/src/rust/src/lite/call_links.rs
+++ b/src/rust/src/lite/call_links.rs
@@ -97,13 +97,19 @@ impl CallLinkState {
                     Default::default()
                 })
         };
+        // The timestamp comes from the server, so don't assume it can be represented.
+        let expiration = SystemTime::UNIX_EPOCH
+            .checked_add(Duration::from_secs(deserialized.expiration_unix_timestamp))
+            .unwrap_or_else(|| {
+                warn!("expiration of call link is out of range");
+                SystemTime::UNIX_EPOCH + Duration::from_secs(u32::MAX.into())
+            });
         CallLinkState {
             name,
             root_key: *root_key,
             restrictions: deserialized.restrictions,
             revoked: deserialized.revoked,
-            expiration: SystemTime::UNIX_EPOCH
-                + Duration::from_secs(deserialized.expiration_unix_timestamp),
+            expiration,
         }
     }
 }
-- 
2.43.0


From fcd3f989cb89ea31560d7782074cf7428f86e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 04/44] fix: keep the outgoing video track alive while the
 connection is created

create_peer_connection() consumed the track before passing its pointer on, so a
caller that held no other clone handed a released track to WebRTC.
---
 src/rust/src/webrtc/peer_connection_factory.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rust/src/webrtc/peer_connection_factory.rs b/src/rust/src/webrtc/peer_connection_factory.rs
index 1187d80..8a0a905 100644
--- a/src/rust/src/webrtc/peer_connection_factory.rs
+++ b/src/rust/src/webrtc/peer_connection_factory.rs
@@ -393,7 +393,9 @@ impl PeerConnectionFactory {
                 audio_rtcp_report_interval_ms,
                 webrtc::ptr::Borrowed::from_ptr(&rffi_ice_servers),
                 outgoing_audio_track.rffi().as_borrowed(),
+                // Borrow the track (rather than consuming it) so that it outlives this call.
                 outgoing_video_track
+                    .as_ref()
                     .map_or_else(webrtc::ptr::BorrowedRc::null, |outgoing_video_track| {
                         outgoing_video_track.rffi().as_borrowed()
                     }),
-- 
2.43.0


From 85bc09e3605e04ab47a6f46dcf52e75445f11c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:40 +0000
Subject: [PATCH 05/44] fix: point a cloned IceServer's URLs at its own strings

The derived Clone copied the raw URL pointers, which dangle once the original
IceServer is dropped.
---
 .../src/webrtc/peer_connection_factory.rs     | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/rust/src/webrtc/peer_connection_factory.rs b/src/rust/src/webrtc/peer_connection_factory.rs
index 8a0a905..f0039cb 100644
--- a/src/rust/src/webrtc/peer_connection_factory.rs
+++ b/src/rust/src/webrtc/peer_connection_factory.rs
@@ -52,7 +52,7 @@ pub enum RffiPeerConnectionKind {
     GroupCall,
 }
 
-#[derive(Clone, Debug, Default)]
+#[derive(Debug, Default)]
 pub struct IceServer {
     username: CString,
     password: CString,
@@ -63,6 +63,21 @@ pub struct IceServer {
     url_ptrs: Vec<webrtc::ptr::Borrowed<c_char>>,
 }
 
+// Not derived: the pointers of a clone must refer to the strings the clone owns.
+impl Clone for IceServer {
+    fn clone(&self) -> Self {
+        let urls = self._urls.clone();
+        let url_ptrs = Self::borrow_urls(&urls);
+        Self {
+            username: self.username.clone(),
+            password: self.password.clone(),
+            hostname: self.hostname.clone(),
+            _urls: urls,
+            url_ptrs,
+        }
+    }
+}
+
 unsafe impl Send for IceServer {}
 unsafe impl Sync for IceServer {}
 
@@ -72,10 +87,7 @@ impl IceServer {
         for url in urls_in {
             urls.push(CString::new(url).expect("CString of URL"));
         }
-        let url_ptrs = urls
-            .iter()
-            .map(|s| webrtc::ptr::Borrowed::from_ptr(s.as_ptr()))
-            .collect();
+        let url_ptrs = Self::borrow_urls(&urls);
         Self {
             username: CString::new(username).expect("CString of username"),
             password: CString::new(password).expect("CString of password"),
@@ -85,6 +97,12 @@ impl IceServer {
         }
     }
 
+    fn borrow_urls(urls: &[CString]) -> Vec<webrtc::ptr::Borrowed<c_char>> {
+        urls.iter()
+            .map(|s| webrtc::ptr::Borrowed::from_ptr(s.as_ptr()))
+            .collect()
+    }
+
     pub fn none() -> Self {
         // In the FFI C++, no urls means no IceServer is added
         Self::new(
-- 
2.43.0


From 40bd78acfb459a5f114b447f98af270a92b6d622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 06/44] fix: truncate long audio device names at a character
 boundary

copy_and_truncate_string() failed when the limit fell inside a multi-byte
character, so devices with long non-ASCII names could not be enumerated.
---
 src/rust/src/webrtc/audio_device_module_utils.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 65a45eb..78bd3a9 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -226,8 +226,11 @@ pub fn copy_and_truncate_string(
     mut dest: webrtc::ptr::Borrowed<c_uchar>,
     dest_size: usize,
 ) -> anyhow::Result<()> {
-    // Leave room for the nul terminator.
-    let size = std::cmp::min(src.len(), dest_size - 1);
+    // Leave room for the nul terminator, and don't split a character.
+    let mut size = std::cmp::min(src.len(), dest_size - 1);
+    while !src.is_char_boundary(size) {
+        size -= 1;
+    }
     let c_str = CString::new(src.get(0..size).ok_or(anyhow!("couldn't get substring"))?)?;
     let c_str_bytes = c_str.as_bytes_with_nul();
     // Safety: dest has at least |dest_size| bytes allocated, and we won't
-- 
2.43.0


From 06cb17065268645d847dbc085946b5d73c66b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 07/44] fix: don't leak the audio device module when field
 trials are invalid

---
 src/rust/src/webrtc/peer_connection_factory.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/webrtc/peer_connection_factory.rs b/src/rust/src/webrtc/peer_connection_factory.rs
index f0039cb..9956a51 100644
--- a/src/rust/src/webrtc/peer_connection_factory.rs
+++ b/src/rust/src/webrtc/peer_connection_factory.rs
@@ -315,10 +315,11 @@ impl PeerConnectionFactory {
     ) -> Result<Self> {
         debug!("PeerConnectionFactory::new()");
 
-        let audio_config_rffi = audio_config.rffi(audio_device_observer)?;
-
+        // Do this first: the reference to the ADM held for C++ must not be leaked on failure.
         let field_trials_cstr = CString::new(field_trials_string)?;
 
+        let audio_config_rffi = audio_config.rffi(audio_device_observer)?;
+
         let rffi = unsafe {
             webrtc::Arc::from_owned(pcf::Rust_createPeerConnectionFactory(
                 webrtc::ptr::Borrowed::from_ptr(&audio_config_rffi.rffi),
-- 
2.43.0


From 743a3bf4aa01aa78fdbb31734cc81326037dcd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 08/44] fix: redact logged audio device names by position

Replacing the captured texts one after the other left the rest of a name in the
log when an earlier capture was part of it, and repeated the text around a
match.
---
 .../src/webrtc/audio_device_module_utils.rs   | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 78bd3a9..7348a19 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -275,21 +275,22 @@ pub fn redact_for_logging(s: &str) -> String {
 /// Redact all capturing groups (except group 0) with |redact_for_logging|
 /// if the regex matches. Otherwise, return None.
 pub fn redact_by_regex(re: &Regex, s: &str) -> Option<String> {
-    if re.is_match(s) {
-        Some(
-            re.replace(s, |caps: &regex::Captures| {
-                let mut out = s.to_string();
-                // Skip group 0 (the entire match)
-                for group in caps.iter().skip(1).flatten() {
-                    out = out.replace(group.as_str(), &redact_for_logging(group.as_str()));
-                }
-                out
-            })
-            .to_string(),
-        )
-    } else {
-        None
+    let caps = re.captures(s)?;
+    let mut out = String::with_capacity(s.len());
+    let mut copied = 0;
+    // Skip group 0 (the entire match)
+    for group in caps.iter().skip(1).flatten() {
+        // Go by position rather than by text, since one group may contain the text of another.
+        if group.start() < copied {
+            // Nested in a group that was already redacted.
+            continue;
+        }
+        out.push_str(&s[copied..group.start()]);
+        out.push_str(&redact_for_logging(group.as_str()));
+        copied = group.end();
     }
+    out.push_str(&s[copied..]);
+    Some(out)
 }
 
 #[cfg(test)]
-- 
2.43.0


From d9094fb0bd1107a8131db72c265339c0d6c92b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 09/44] fix: select audio devices by the ID they are listed
 with

Devices without an ID of their own are listed with a populated one, but
selecting that ID was accepted and then silently ignored.
---
 src/rust/src/webrtc/audio_device_module.rs       | 12 ++----------
 src/rust/src/webrtc/audio_device_module_utils.rs | 13 +++++++++++++
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/rust/src/webrtc/audio_device_module.rs b/src/rust/src/webrtc/audio_device_module.rs
index 1c3154b..7c62c2b 100644
--- a/src/rust/src/webrtc/audio_device_module.rs
+++ b/src/rust/src/webrtc/audio_device_module.rs
@@ -705,11 +705,7 @@ impl Worker {
                     }
                 }
                 Event::SetPlayoutDeviceById(ref id) => {
-                    if let Some(d) = self.output_device_cache.iter().find(|d| {
-                        d.device_id
-                            .as_ref()
-                            .is_some_and(|actual_id| actual_id == id)
-                    }) {
+                    if let Some(d) = self.output_device_cache.get_by_unique_id(id) {
                         self.update_playout_device(d.devid)
                     } else {
                         Err(anyhow!(
@@ -730,11 +726,7 @@ impl Worker {
                     }
                 }
                 Event::SetRecordingDeviceById(ref id) => {
-                    if let Some(d) = self.input_device_cache.iter().find(|d| {
-                        d.device_id
-                            .as_ref()
-                            .is_some_and(|actual_id| actual_id == id)
-                    }) {
+                    if let Some(d) = self.input_device_cache.get_by_unique_id(id) {
                         self.update_recording_device(d.devid)
                     } else {
                         Err(anyhow!(
diff --git a/src/rust/src/webrtc/audio_device_module_utils.rs b/src/rust/src/webrtc/audio_device_module_utils.rs
index 7348a19..713d538 100644
--- a/src/rust/src/webrtc/audio_device_module_utils.rs
+++ b/src/rust/src/webrtc/audio_device_module_utils.rs
@@ -218,6 +218,19 @@ impl DeviceCollectionWrapper {
         }
         names
     }
+
+    /// Get the device that `extract_names` lists with the given unique ID.
+    ///
+    /// Note that this may be a populated ID, for devices that don't have one of their own.
+    pub fn get_by_unique_id(&self, unique_id: &str) -> Option<&MinimalDeviceInfo> {
+        self.extract_names()
+            .iter()
+            .position(|name| {
+                name.as_ref()
+                    .is_some_and(|device| device.unique_id == unique_id)
+            })
+            .and_then(|idx| self.get(idx))
+    }
 }
 
 /// Copy from |src| into |dest| at most |dest_size| - 1 bytes and write a nul terminator either after |src| or at the end of |dest_size|
-- 
2.43.0


From 9516d804b3c14c215b99e9a9496e9de7a62f7d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:10 +0000
Subject: [PATCH 10/44] fix: don't report an infinite received frame rate when
 no time has passed

---
 src/rust/src/webrtc/stats_observer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/stats_observer.rs b/src/rust/src/webrtc/stats_observer.rs
index 63f0207..725c565 100644
--- a/src/rust/src/webrtc/stats_observer.rs
+++ b/src/rust/src/webrtc/stats_observer.rs
@@ -713,7 +713,9 @@ impl VideoReceiverStatsSnapshot {
         let packets_lost_pct =
             compute_packets_lost_pct(packets_lost, packets_received_delta + packets_lost);
         let bitrate = compute_bitrate(bytes_received_delta, seconds_elapsed);
-        let framerate = frames_decoded_delta as f32 / seconds_elapsed;
+        let framerate = (frames_decoded_delta as f32)
+            .naive_checked_div(seconds_elapsed)
+            .unwrap_or(0.0);
         let decode_time_per_frame = 1000.0
             * total_decode_time_delta
                 .naive_checked_div(frames_decoded_delta as f64)
-- 
2.43.0


From 799d432543b3a640ec097c0e166e817d6ec2ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:10 +0000
Subject: [PATCH 11/44] fix: report received video jitter in milliseconds, not
 its change in seconds

---
 src/rust/src/webrtc/stats_observer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/stats_observer.rs b/src/rust/src/webrtc/stats_observer.rs
index 725c565..b972e80 100644
--- a/src/rust/src/webrtc/stats_observer.rs
+++ b/src/rust/src/webrtc/stats_observer.rs
@@ -704,7 +704,6 @@ impl VideoReceiverStatsSnapshot {
         let key_frames_decoded_delta = delta!(curr_stats, prev_stats, key_frames_decoded);
         let bytes_received_delta = delta!(curr_stats, prev_stats, bytes_received);
         let total_decode_time_delta = delta!(curr_stats, prev_stats, total_decode_time);
-        let jitter = delta!(curr_stats, prev_stats, jitter);
         let freeze_count = delta!(curr_stats, prev_stats, freeze_count);
 
         let packets_per_second =
@@ -713,6 +712,7 @@ impl VideoReceiverStatsSnapshot {
         let packets_lost_pct =
             compute_packets_lost_pct(packets_lost, packets_received_delta + packets_lost);
         let bitrate = compute_bitrate(bytes_received_delta, seconds_elapsed);
+        let jitter = 1000.0 * curr_stats.jitter;
         let framerate = (frames_decoded_delta as f32)
             .naive_checked_div(seconds_elapsed)
             .unwrap_or(0.0);
-- 
2.43.0


From 626aafedd87cdc11db215f0faaa0d2031b8c9b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:10 +0000
Subject: [PATCH 12/44] fix: divide video send delay by packets sent, not
 frames encoded

---
 src/rust/src/webrtc/stats_observer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/webrtc/stats_observer.rs b/src/rust/src/webrtc/stats_observer.rs
index b972e80..dc32bf2 100644
--- a/src/rust/src/webrtc/stats_observer.rs
+++ b/src/rust/src/webrtc/stats_observer.rs
@@ -575,7 +575,7 @@ impl VideoSenderStatsSnapshot {
                 .unwrap_or(0.0);
         let send_delay_per_packet = 1000.0
             * total_packets_send_delay_delta
-                .naive_checked_div(frames_encoded_delta as f64)
+                .naive_checked_div(packets_sent_delta as f64)
                 .unwrap_or(0.0);
         let remote_packets_lost_pct =
             compute_packets_lost_pct(packets_lost_delta.max(0) as u32, packets_sent_delta);
-- 
2.43.0


From 5310ac1ada568ba5c569922063d747e0a1440e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:10 +0000
Subject: [PATCH 13/44] fix: keep the call summary when dropping the last stats
 set makes it fit

---
 src/rust/src/core/call_summary.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rust/src/core/call_summary.rs b/src/rust/src/core/call_summary.rs
index b29e64c..3669988 100644
--- a/src/rust/src/core/call_summary.rs
+++ b/src/rust/src/core/call_summary.rs
@@ -571,6 +571,10 @@ impl CallTelemetry {
             self.stats_sets.remove(0);
         }
 
+        if self.encoded_len() <= MAX_TELEMETRY_ENCODED_SIZE {
+            return Ok(stats_set_count);
+        }
+
         self.group_call_summary = None;
         self.direct_call_summary = None;
 
-- 
2.43.0


From 07b53abf1758433313901c9dc70308cd24c2bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:10 +0000
Subject: [PATCH 14/44] fix: count time on a relay up to the end of the call

---
 src/rust/src/core/call_summary.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/core/call_summary.rs b/src/rust/src/core/call_summary.rs
index 3669988..651a891 100644
--- a/src/rust/src/core/call_summary.rs
+++ b/src/rust/src/core/call_summary.rs
@@ -1058,7 +1058,14 @@ impl DirectCallSummaryInner {
 
         let call_length_ms: u128 =
             (Into::<u64>::into(end_time) - Into::<u64>::into(start_time)).into();
-        let relayed_time_ms = self.relayed_time_this_call.as_millis();
+        let mut relayed_time = self.relayed_time_this_call;
+        if self.relayed
+            && let Some(last) = self.last_relay_start_time
+        {
+            // The call is ending while on a relay.
+            relayed_time += last.elapsed();
+        }
+        let relayed_time_ms = relayed_time.as_millis();
         let relayed = (relayed_time_ms > call_length_ms / MIN_RELAYED_FRACTION)
             || (relayed_time_ms > 0
                 && call_length_ms <= MIN_CALL_TIME_IGNORE_RELAY_FRACTION.as_millis());
-- 
2.43.0


From 2d35063663346165cf00088a40679d3b8bb9185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:10 +0000
Subject: [PATCH 15/44] fix: don't summarize more than MAX_STREAM_SUMMARIES
 streams

---
 src/rust/src/core/call_summary.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust/src/core/call_summary.rs b/src/rust/src/core/call_summary.rs
index 651a891..7c21e14 100644
--- a/src/rust/src/core/call_summary.rs
+++ b/src/rust/src/core/call_summary.rs
@@ -297,7 +297,7 @@ impl StreamSummaries {
     where
         F: FnMut(&mut StreamSummary),
     {
-        if self.audio_recv_stream_summaries.len() <= MAX_STREAM_SUMMARIES {
+        if self.audio_recv_stream_summaries.len() < MAX_STREAM_SUMMARIES {
             let summary = self.audio_recv_stream_summaries.entry(ssrc).or_default();
             func(summary);
         } else if let Some(summary) = self.audio_recv_stream_summaries.get_mut(&ssrc) {
@@ -309,7 +309,7 @@ impl StreamSummaries {
     where
         F: FnMut(&mut StreamSummary),
     {
-        if self.audio_send_stream_summaries.len() <= MAX_STREAM_SUMMARIES {
+        if self.audio_send_stream_summaries.len() < MAX_STREAM_SUMMARIES {
             let summary = self.audio_send_stream_summaries.entry(ssrc).or_default();
             func(summary);
         } else if let Some(summary) = self.audio_send_stream_summaries.get_mut(&ssrc) {
@@ -321,7 +321,7 @@ impl StreamSummaries {
     where
         F: FnMut(&mut StreamSummary),
     {
-        if self.video_recv_stream_summaries.len() <= MAX_STREAM_SUMMARIES {
+        if self.video_recv_stream_summaries.len() < MAX_STREAM_SUMMARIES {
             let summary = self.video_recv_stream_summaries.entry(ssrc).or_default();
             func(summary);
         } else if let Some(summary) = self.video_recv_stream_summaries.get_mut(&ssrc) {
@@ -333,7 +333,7 @@ impl StreamSummaries {
     where
         F: FnMut(&mut StreamSummary),
     {
-        if self.video_send_stream_summaries.len() <= MAX_STREAM_SUMMARIES {
+        if self.video_send_stream_summaries.len() < MAX_STREAM_SUMMARIES {
             let summary = self.video_send_stream_summaries.entry(ssrc).or_default();
             func(summary);
         } else if let Some(summary) = self.video_send_stream_summaries.get_mut(&ssrc) {
-- 
2.43.0


From ed9ba7a2aa54a2f09be7ae2b92809023fabe1374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 16/44] fix: reject a call made while busy without ending the
 ongoing one

---
 src/rust/src/core/call_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 4426a4f..f9c4e77 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -2147,7 +2147,7 @@ where
     ) {
         info!("internal_create_api_error(): error: {}", error);
         if let Ok(active_call) = self.active_call()
-            && self.remote_peer_equals_active(&active_call, remote_peer)
+            && active_call.call_id() == call_id
         {
             // The task managed to create the active call and then
             // hit problems.  Error out with active call clean up.
-- 
2.43.0


From e69da60cf5e5da217d634d4e51fd2928faaaa5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 17/44] fix: terminate a call only once

---
 src/rust/src/core/call.rs         | 10 ++++++++++
 src/rust/src/core/call_manager.rs |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index fa505a1..f0e137e 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -101,6 +101,8 @@ where
     connection_map: Arc<CallMutex<HashMap<DeviceId, Connection<T>>>>,
     /// Condition variable used at termination to quiesce and synchronize the FSM.
     terminate_condvar: Arc<(Mutex<bool>, Condvar)>,
+    /// Whether or not the call manager has already begun to terminate this call.
+    did_begin_termination: Arc<AtomicBool>,
     /// Whether or not an offer has been sent via messaging for this call.
     did_send_offer: Arc<AtomicBool>,
     /// Whether or not the application has already been notified of ApplicationEvent::RemoteRinging.
@@ -191,6 +193,7 @@ where
             timeout_stopper: self.timeout_stopper.clone(),
             connection_map: Arc::clone(&self.connection_map),
             terminate_condvar: Arc::clone(&self.terminate_condvar),
+            did_begin_termination: Arc::clone(&self.did_begin_termination),
             did_send_offer: Arc::clone(&self.did_send_offer),
             did_notify_application_of_remote_ringing: Arc::clone(
                 &self.did_notify_application_of_remote_ringing,
@@ -240,6 +243,7 @@ where
             timeout_stopper: Stopper::new(),
             connection_map: Arc::new(CallMutex::new(HashMap::new(), "connection_map")),
             terminate_condvar: Arc::new((Mutex::new(false), Condvar::new())),
+            did_begin_termination: Arc::new(AtomicBool::new(false)),
             did_send_offer: Arc::new(AtomicBool::new(false)),
             did_notify_application_of_remote_ringing: Arc::new(AtomicBool::new(false)),
             forking: Arc::new(CallMutex::new(None, "forking")),
@@ -975,6 +979,12 @@ where
         Ok(())
     }
 
+    /// Returns `true` the first time it is called, so that a Call which is
+    /// ended for several reasons at once is only terminated once.
+    pub fn begin_termination(&self) -> bool {
+        !self.did_begin_termination.swap(true, Ordering::AcqRel)
+    }
+
     /// Terminate this Call.
     ///
     /// Notify the internal FSM to terminate.
diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index f9c4e77..4ff13d2 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1094,6 +1094,11 @@ where
 
         info!("terminate_call(): call_id: {}", call_id);
 
+        if !call.begin_termination() {
+            info!("terminate_call(): skipping, already terminating");
+            return Ok(());
+        }
+
         self.trim_messages(call_id)?;
 
         if let Some(reason) = reason {
-- 
2.43.0


From bffe5a25a949829c6e846f35b843c497c60e98aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 18/44] fix: don't start a call after it has ended

---
 src/rust/src/core/call.rs         | 17 +++++++++++++----
 src/rust/src/core/call_manager.rs |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index f0e137e..8983207 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -102,7 +102,7 @@ where
     /// Condition variable used at termination to quiesce and synchronize the FSM.
     terminate_condvar: Arc<(Mutex<bool>, Condvar)>,
     /// Whether or not the call manager has already begun to terminate this call.
-    did_begin_termination: Arc<AtomicBool>,
+    did_begin_termination: Arc<CallMutex<bool>>,
     /// Whether or not an offer has been sent via messaging for this call.
     did_send_offer: Arc<AtomicBool>,
     /// Whether or not the application has already been notified of ApplicationEvent::RemoteRinging.
@@ -243,7 +243,7 @@ where
             timeout_stopper: Stopper::new(),
             connection_map: Arc::new(CallMutex::new(HashMap::new(), "connection_map")),
             terminate_condvar: Arc::new((Mutex::new(false), Condvar::new())),
-            did_begin_termination: Arc::new(AtomicBool::new(false)),
+            did_begin_termination: Arc::new(CallMutex::new(false, "did_begin_termination")),
             did_send_offer: Arc::new(AtomicBool::new(false)),
             did_notify_application_of_remote_ringing: Arc::new(AtomicBool::new(false)),
             forking: Arc::new(CallMutex::new(None, "forking")),
@@ -423,6 +423,14 @@ where
         let call_manager = self.call_manager()?;
         let remote_peer = self.remote_peer()?;
 
+        // Keep this locked while notifying the application, so that it is
+        // never told of the start of a call after being told of its end.
+        let did_begin_termination = self.did_begin_termination.lock()?;
+        if *did_begin_termination {
+            info!("handle_start_call(): skipping, already terminating");
+            return Ok(());
+        }
+
         call_manager.start_call(&remote_peer, self.call_id, self.direction, self.media_type)
     }
 
@@ -981,8 +989,9 @@ where
 
     /// Returns `true` the first time it is called, so that a Call which is
     /// ended for several reasons at once is only terminated once.
-    pub fn begin_termination(&self) -> bool {
-        !self.did_begin_termination.swap(true, Ordering::AcqRel)
+    pub fn begin_termination(&self) -> Result<bool> {
+        let mut did_begin_termination = self.did_begin_termination.lock()?;
+        Ok(!std::mem::replace(&mut *did_begin_termination, true))
     }
 
     /// Terminate this Call.
diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 4ff13d2..61fe6db 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1094,7 +1094,7 @@ where
 
         info!("terminate_call(): call_id: {}", call_id);
 
-        if !call.begin_termination() {
+        if !call.begin_termination()? {
             info!("terminate_call(): skipping, already terminating");
             return Ok(());
         }
-- 
2.43.0


From 307595fa4543404de20c66f83b988570b97e95f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 19/44] fix: end the call that was meant to be ended

A call is ended from several threads, by which time another call might be the
active one.
---
 src/rust/src/core/call_manager.rs | 54 ++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 61fe6db..13203af 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1015,6 +1015,21 @@ where
         self.wait_worker_sync(condvar)
     }
 
+    /// Returns the active call and makes the manager idle, provided that the
+    /// given call is still the active one. Calls are ended from several
+    /// threads, and by now another call might have taken its place.
+    fn take_active_call(&mut self, call_id: CallId) -> Result<Option<Call<T>>> {
+        let mut busy = self.busy.lock()?;
+        let mut active_call_id = self.active_call_id.lock()?;
+        if *active_call_id != Some(call_id) {
+            return Ok(None);
+        }
+        let call = self.call_by_call_id.lock()?.get(&call_id).cloned();
+        *active_call_id = None;
+        *busy = false;
+        Ok(call)
+    }
+
     /// Clears the active call_id
     fn clear_active_call(&mut self) -> Result<()> {
         let _ = self.active_call_id.lock()?.take();
@@ -1140,18 +1155,19 @@ where
         })
     }
 
-    /// Terminates the active call.
-    fn terminate_active_call(&mut self, send_hangup: bool, reason: CallEndReason) -> Result<()> {
-        info!("terminate_active_call():");
+    /// Terminates the given call if it is active.
+    fn terminate_active_call(
+        &mut self,
+        call_id: CallId,
+        send_hangup: bool,
+        reason: CallEndReason,
+    ) -> Result<()> {
+        info!("terminate_active_call(): call_id: {}", call_id);
 
-        if !self.call_active()? {
-            info!("terminate_active_call(): skipping, no active call");
+        let Some(call) = self.take_active_call(call_id)? else {
+            info!("terminate_active_call(): skipping, call is not active");
             return Ok(());
-        }
-
-        let call = self.active_call()?;
-        self.clear_active_call()?;
-        self.release_busy()?;
+        };
 
         let hangup = if send_hangup {
             Some(signaling::Hangup::Normal)
@@ -1235,9 +1251,10 @@ where
         hangup: Option<signaling::Hangup>,
         reason: CallEndReason,
     ) -> Result<()> {
-        self.clear_active_call()?;
-        self.release_busy()?;
-        self.terminate_call(active_call, hangup, Some(reason))
+        match self.take_active_call(active_call.call_id())? {
+            Some(call) => self.terminate_call(call, hangup, Some(reason)),
+            None => Ok(()),
+        }
     }
 
     /// Handle drop_call() API from application.
@@ -1329,6 +1346,7 @@ where
                         call_id
                     );
                     let _ = self.terminate_active_call(
+                        call_id,
                         call.should_send_hangup_on_failure(),
                         CallEndReason::SignalingFailure,
                     );
@@ -2468,8 +2486,10 @@ where
 
         if self.call_is_active(call_id)? {
             match end_reason_override {
-                Some(end_reason) => self.terminate_active_call(false, end_reason),
-                None => self.terminate_active_call(false, CallEndReason::RemoteHangup),
+                Some(end_reason) => self.terminate_active_call(call_id, false, end_reason),
+                None => {
+                    self.terminate_active_call(call_id, false, CallEndReason::RemoteHangup)
+                }
             }
         } else {
             info!("remote_hangup(): ignoring for inactive call");
@@ -2515,7 +2535,7 @@ where
         info!("timeout(): call_id: {}", call_id);
 
         if self.call_is_active(call_id)? {
-            self.terminate_active_call(true, CallEndReason::Timeout)
+            self.terminate_active_call(call_id, true, CallEndReason::Timeout)
         } else {
             info!("timeout(): ignoring for inactive call");
             Ok(())
@@ -2529,6 +2549,7 @@ where
         if self.call_is_active(call_id)? {
             let call = self.active_call()?;
             self.terminate_active_call(
+                call_id,
                 call.should_send_hangup_on_failure(),
                 CallEndReason::ConnectionFailure,
             )
@@ -2548,6 +2569,7 @@ where
         if self.call_is_active(call_id)? {
             let call = self.active_call()?;
             self.terminate_active_call(
+                call_id,
                 call.should_send_hangup_on_failure(),
                 CallEndReason::InternalFailure,
             )
-- 
2.43.0


From 51b942d9b91e0b4863e07655e4ffbf7c2ce9cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 20/44] fix: end a call even if the application fails to handle
 its end

---
 src/rust/src/core/call_manager.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 13203af..ad70994 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1121,7 +1121,10 @@ where
             let summary = call
                 .summary()
                 .build_call_summary(Some(call_id.call_summary_hash()), reason);
-            self.on_call_ended(&remote_peer, call_id, reason, summary)?;
+            // The call has to be ended even if the application fails to handle it.
+            if let Err(err) = self.on_call_ended(&remote_peer, call_id, reason, summary) {
+                error!("terminate_call(): on_call_ended() failed: {}", err);
+            }
         }
 
         if let Some(hangup) = hangup {
-- 
2.43.0


From ffcba7d363675ca667ae9e3cd21821a24decff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 21/44] fix: conclude a rejected call once even if the
 application fails to handle the event

---
 src/rust/src/core/call_manager.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index ad70994..8b48539 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1527,11 +1527,21 @@ where
         }
 
         match incoming_call_action {
+            // The incoming call is concluded when it is dropped, and so failing
+            // here would conclude it twice.
             IncomingCallAction::Ignore(app_event) => {
-                self.notify_application(&remote_peer, incoming_call_id, app_event)?;
+                if let Err(err) =
+                    self.notify_application(&remote_peer, incoming_call_id, app_event)
+                {
+                    error!("handle_received_offer(): on_event() failed: {}", err);
+                }
             }
             IncomingCallAction::RejectAsBusy(app_event) => {
-                self.notify_application(&remote_peer, incoming_call_id, app_event)?;
+                if let Err(err) =
+                    self.notify_application(&remote_peer, incoming_call_id, app_event)
+                {
+                    error!("handle_received_offer(): on_event() failed: {}", err);
+                }
                 self.send_busy(incoming_call)?;
             }
             IncomingCallAction::Start => {
-- 
2.43.0


From bcd4c522c75aefc2751986dc113f7f84c432695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 22/44] fix: don't start a call with the id of a call that is
 still being terminated

---
 src/rust/src/core/call_manager.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 8b48539..1fb8b40 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1456,6 +1456,17 @@ where
         )?;
 
         let collision = match (active_call_id, &active_call, *busy) {
+            (_, Some(active_call), _) if active_call.call_id() == incoming_call_id => {
+                self.check_for_collision(active_call, &remote_peer, &incoming_call_id, &received)
+            }
+            _ if self
+                .call_by_call_id
+                .lock()?
+                .contains_key(&incoming_call_id) =>
+            {
+                warn!("A call with the same call_id is still being terminated, sending busy");
+                ReceivedOfferCollision::Busy
+            }
             (None, None, false) => ReceivedOfferCollision::None,
             (None, None, true) => {
                 info!("Group call exists, sending busy for received offer");
@@ -2126,7 +2137,9 @@ where
                 info!("Possible glare, remote peers match");
                 if let Ok(active_device_id) = active_call.active_device_id() {
                     if received.sender_device_id == active_device_id {
-                        if active_call_state >= CallState::ConnectedAndAccepted {
+                        if active_call_state >= CallState::ConnectedAndAccepted
+                            && active_call.call_id() != *incoming_call_id
+                        {
                             info!("Recall, already in-call but peer's device is calling again");
                             // Peer likely ended the call before we know about it:
                             // - Hungup and called faster than messages get handled, or
-- 
2.43.0


From 4f0e7b843447aa646a0dbd0423622da7033d0246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 23/44] fix: don't hold the busy lock while sending a busy
 message

---
 src/rust/src/core/call_manager.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 1fb8b40..db49f7a 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1553,6 +1553,9 @@ where
                 {
                     error!("handle_received_offer(): on_event() failed: {}", err);
                 }
+                // If sending fails, then the active call might be terminated,
+                // which needs the lock.
+                drop(busy);
                 self.send_busy(incoming_call)?;
             }
             IncomingCallAction::Start => {
-- 
2.43.0


From b5e2d4acfaa4a7be7371ba981ae170491ef095e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 24/44] fix: conclude a call whose last references are dropped
 by two threads at once

---
 src/rust/src/core/call.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index 8983207..7140f9d 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -101,6 +101,8 @@ where
     connection_map: Arc<CallMutex<HashMap<DeviceId, Connection<T>>>>,
     /// Condition variable used at termination to quiesce and synchronize the FSM.
     terminate_condvar: Arc<(Mutex<bool>, Condvar)>,
+    /// Counts the clones of this call. Only `None` while being dropped.
+    references: Option<Arc<()>>,
     /// Whether or not the call manager has already begun to terminate this call.
     did_begin_termination: Arc<CallMutex<bool>>,
     /// Whether or not an offer has been sent via messaging for this call.
@@ -153,7 +155,9 @@ where
     T: Platform,
 {
     fn drop(&mut self) {
-        if self.ref_count() == 1 {
+        // Clones might be dropped by several threads at once, and exactly one of
+        // them is the last.
+        if self.references.take().and_then(Arc::into_inner).is_some() {
             info!("Call: Dropping last reference: {}", self.call_id);
 
             // This is the last call reference, so let the application
@@ -193,6 +197,7 @@ where
             timeout_stopper: self.timeout_stopper.clone(),
             connection_map: Arc::clone(&self.connection_map),
             terminate_condvar: Arc::clone(&self.terminate_condvar),
+            references: self.references.clone(),
             did_begin_termination: Arc::clone(&self.did_begin_termination),
             did_send_offer: Arc::clone(&self.did_send_offer),
             did_notify_application_of_remote_ringing: Arc::clone(
@@ -243,6 +248,7 @@ where
             timeout_stopper: Stopper::new(),
             connection_map: Arc::new(CallMutex::new(HashMap::new(), "connection_map")),
             terminate_condvar: Arc::new((Mutex::new(false), Condvar::new())),
+            references: Some(Arc::new(())),
             did_begin_termination: Arc::new(CallMutex::new(false, "did_begin_termination")),
             did_send_offer: Arc::new(AtomicBool::new(false)),
             did_notify_application_of_remote_ringing: Arc::new(AtomicBool::new(false)),
-- 
2.43.0


From 2d15d2c6c4ad5389117b71aa48b4c5603512132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 25/44] fix: report the end of a call before the start of the
 next

---
 src/rust/src/core/call_manager.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index db49f7a..4aa531b 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1018,8 +1018,10 @@ where
     /// Returns the active call and makes the manager idle, provided that the
     /// given call is still the active one. Calls are ended from several
     /// threads, and by now another call might have taken its place.
-    fn take_active_call(&mut self, call_id: CallId) -> Result<Option<Call<T>>> {
-        let mut busy = self.busy.lock()?;
+    ///
+    /// `busy` should stay locked until the application knows that the call has
+    /// ended, so that it doesn't get to know of the next one earlier.
+    fn take_active_call(&self, busy: &mut bool, call_id: CallId) -> Result<Option<Call<T>>> {
         let mut active_call_id = self.active_call_id.lock()?;
         if *active_call_id != Some(call_id) {
             return Ok(None);
@@ -1167,7 +1169,9 @@ where
     ) -> Result<()> {
         info!("terminate_active_call(): call_id: {}", call_id);
 
-        let Some(call) = self.take_active_call(call_id)? else {
+        let busy = Arc::clone(&self.busy);
+        let mut busy = busy.lock()?;
+        let Some(call) = self.take_active_call(&mut busy, call_id)? else {
             info!("terminate_active_call(): skipping, call is not active");
             return Ok(());
         };
@@ -1254,7 +1258,9 @@ where
         hangup: Option<signaling::Hangup>,
         reason: CallEndReason,
     ) -> Result<()> {
-        match self.take_active_call(active_call.call_id())? {
+        let busy = Arc::clone(&self.busy);
+        let mut busy = busy.lock()?;
+        match self.take_active_call(&mut busy, active_call.call_id())? {
             Some(call) => self.terminate_call(call, hangup, Some(reason)),
             None => Ok(()),
         }
-- 
2.43.0


From b532991edd451d39237937dad8c2f6636a0c019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 26/44] fix: lock the bandwidth controller before webrtc when
 the route changes

---
 src/rust/src/core/connection.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rust/src/core/connection.rs b/src/rust/src/core/connection.rs
index 4e62611..275289a 100644
--- a/src/rust/src/core/connection.rs
+++ b/src/rust/src/core/connection.rs
@@ -1011,14 +1011,16 @@ where
 
     /// Update the current network route.
     pub fn set_network_route(&self, network_route: NetworkRoute) -> Result<()> {
-        if let Ok(mut webrtc) = self
-            .webrtc
-            .lock()
-            .inspect_err(|e| error!("couldn't get webrtc lock: {}", e))
-            && let Ok(old_network_route) = self.network_route()
+        // update_bandwidth_controller() locks the bandwidth controller before webrtc,
+        // so don't lock them the other way around.
+        if let Ok(old_network_route) = self.network_route()
             && (old_network_route.local_relayed != network_route.local_relayed
                 || old_network_route.remote_relayed != network_route.remote_relayed
                 || old_network_route.local_relay_protocol != network_route.local_relay_protocol)
+            && let Ok(mut webrtc) = self
+                .webrtc
+                .lock()
+                .inspect_err(|e| error!("couldn't get webrtc lock: {}", e))
         {
             if let Some(observer) = webrtc.stats_observer.as_mut() {
                 observer.set_network_route(network_route);
-- 
2.43.0


From 5ceb1b31c2bdc7142c48295504c9fcc7d7343ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 27/44] fix: ignore busy from a device other than the one that
 accepted the call

When a call rings on several devices, one of them may accept while the busy
of another is still on its way. That busy ended the accepted call.
---
 src/rust/src/core/call_manager.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 4aa531b..44ae95b 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1801,6 +1801,14 @@ where
             .compare_remotes(&active_remote_peer, &remote_peer)
             .unwrap_or(false)
         {
+            // Once a device has accepted the call, only that device can end it.
+            if let Ok(active_device_id) = active_call.active_device_id()
+                && sender_device_id != active_device_id
+            {
+                info!("handle_received_busy(): Ignoring, not from the active device");
+                return Ok(());
+            }
+
             // Invoke hangup_other for the call, which will inject hangup/busy
             // to all connections, if any.
             let hangup = signaling::Hangup::BusyOnAnotherDevice(sender_device_id);
-- 
2.43.0


From 35c0161b48b154b74d9d3811ac0fb09eaec17904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 28/44] fix: ignore ICE candidates from a device without a
 connection

Candidates from one of several ringing devices ended the whole call when
another device had just accepted and was still connecting, when the
connection to the device had failed, or when they overtook its answer.
---
 src/rust/src/core/call.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index 7140f9d..9f8ed76 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -752,17 +752,14 @@ where
             match connection_map.get_mut(&sender_device_id) {
                 Some(connection) => connection.inject_received_ice(received.ice),
                 None => {
-                    if self.state()? == CallState::ConnectedAndAccepted
-                        || self.state()? == CallState::ReconnectingAfterAccepted
-                    {
-                        // This can happen when call forking is enabled.
-                        info!(
-                            "received_ice from device {} when already accepted, so ignore",
-                            sender_device_id
-                        );
-                        return Ok(());
-                    }
-                    Err(RingRtcError::ConnectionNotFound(sender_device_id).into())
+                    // This can happen when call forking is enabled: the call was
+                    // accepted by another device, the connection to this one has
+                    // failed, or its answer is still to come.
+                    info!(
+                        "received_ice from device {} without a connection, so ignore",
+                        sender_device_id
+                    );
+                    Ok(())
                 }
             }
         }
-- 
2.43.0


From e42e4130d31e3dc2c32cc1651ce327db0bd0b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 29/44] fix: send the hangup that was queued before a call
 terminates

Stopping the worker threads of a call and its connections discarded their
queued work, so a hangup to be sent via RTP data was lost when the thread
had not come around to it before being stopped.
---
 src/rust/src/core/call_fsm.rs       | 5 +++++
 src/rust/src/core/connection_fsm.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/rust/src/core/call_fsm.rs b/src/rust/src/core/call_fsm.rs
index de8ff57..3b9c2da 100644
--- a/src/rust/src/core/call_fsm.rs
+++ b/src/rust/src/core/call_fsm.rs
@@ -318,6 +318,11 @@ where
     /// Shutdown the worker thread.
     fn drain_worker_thread(&mut self) {
         debug!("draining worker thread");
+        // Stopping discards what is still queued, which may include the hangup
+        // that informs the remote side.
+        if let Err(err) = Self::sync_thread("worker", &self.worker_thread) {
+            warn!("draining worker thread: {}", err);
+        }
         self.worker_thread.stopper().stop_all_and_join();
         debug!("draining worker thread: complete");
     }
diff --git a/src/rust/src/core/connection_fsm.rs b/src/rust/src/core/connection_fsm.rs
index 93b7c1e..dc75b12 100644
--- a/src/rust/src/core/connection_fsm.rs
+++ b/src/rust/src/core/connection_fsm.rs
@@ -323,6 +323,11 @@ where
     /// Shutdown the worker thread.
     fn drain_worker_thread(&mut self) {
         debug!("draining worker thread");
+        // Stopping discards what is still queued, which may include the hangup
+        // that informs the remote side.
+        if let Err(err) = Self::sync_thread("worker", &self.worker_thread) {
+            warn!("draining worker thread: {}", err);
+        }
         self.worker_thread.stopper().stop_all_and_join();
         debug!("draining worker thread: complete");
     }
-- 
2.43.0


From 25a3d73dcf4b98e797ee3de4c6868ea06c525db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 30/44] fix: stop the threads of a call that is dropped without
 being started

Every offer turned down because of another call left two threads behind.
---
 src/rust/src/core/call_fsm.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/src/core/call_fsm.rs b/src/rust/src/core/call_fsm.rs
index 3b9c2da..6fe331c 100644
--- a/src/rust/src/core/call_fsm.rs
+++ b/src/rust/src/core/call_fsm.rs
@@ -217,6 +217,9 @@ where
 {
     fn drop(&mut self) {
         debug!("Dropping CallStateMachine:");
+        // A call that is dropped without having been started was never terminated.
+        self.worker_thread.stopper().stop_all_without_joining();
+        self.notify_thread.stopper().stop_all_without_joining();
     }
 }
 
-- 
2.43.0


From dad7e5262ef265fc32d009034416f719d99598cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:30 +0000
Subject: [PATCH 31/44] verif: record the SRTP keys of simulated connections
 (feature verif_hooks)

---
 src/rust/Cargo.toml                        |  2 ++
 src/rust/src/webrtc/sim/peer_connection.rs | 20 +++++++++++
 src/rust/src/webrtc/sim/sdp_observer.rs    | 42 ++++++++++++++++++++++
 3 files changed, 64 insertions(+)

diff --git a/src/rust/Cargo.toml b/src/rust/Cargo.toml
index 19d06a9..57ba05b 100644
--- a/src/rust/Cargo.toml
+++ b/src/rust/Cargo.toml
@@ -126,6 +126,8 @@ call_sim = ["call_protobuf/call_sim", "native", "injectable_network", "bitvec",
 direct = ["native", "simnet", "chrono", "clap"]
 virtual_audio = []
 assets = []
+# Lets an external test harness look into the simulated WebRTC.
+verif_hooks = []
 
 [[test]]
 name = "incoming"
diff --git a/src/rust/src/webrtc/sim/peer_connection.rs b/src/rust/src/webrtc/sim/peer_connection.rs
index 452f7bd..d0a34e2 100644
--- a/src/rust/src/webrtc/sim/peer_connection.rs
+++ b/src/rust/src/webrtc/sim/peer_connection.rs
@@ -66,6 +66,8 @@ impl RffiPeerConnection {
                 removed_ice_candidates: vec![],
                 max_bitrate_bps: None,
                 last_sent_rtp_data: None,
+                #[cfg(feature = "verif_hooks")]
+                srtp_keys: Default::default(),
             })),
         }
     }
@@ -121,6 +123,12 @@ impl RffiPeerConnection {
         state.max_bitrate_bps
     }
 
+    /// The SRTP key and salt of the local and of the remote description.
+    #[cfg(feature = "verif_hooks")]
+    pub fn srtp_keys(&self) -> [Option<(Vec<u8>, Vec<u8>)>; 2] {
+        self.state.lock().unwrap().srtp_keys.clone()
+    }
+
     pub fn last_sent_rtp_message(&self) -> Option<crate::protobuf::rtp_data::Message> {
         let state = self.state.lock().unwrap();
         Some(
@@ -146,6 +154,8 @@ struct RffiPeerConnectionState {
     removed_ice_candidates: Vec<SocketAddr>,
     max_bitrate_bps: Option<i32>,
     last_sent_rtp_data: Option<Vec<u8>>,
+    #[cfg(feature = "verif_hooks")]
+    srtp_keys: [Option<(Vec<u8>, Vec<u8>)>; 2],
 }
 
 #[allow(non_snake_case, clippy::missing_safety_doc)]
@@ -183,6 +193,11 @@ pub unsafe fn Rust_setLocalDescription(
     info!("Rust_setLocalDescription():");
     unsafe {
         (*peer_connection.as_ptr()).set_local_description();
+        #[cfg(feature = "verif_hooks")]
+        {
+            let keys = crate::webrtc::sim::sdp_observer::srtp_keys::take(_local_desc.as_ptr() as usize);
+            (*peer_connection.as_ptr()).state.lock().unwrap().srtp_keys[0] = keys;
+        }
     }
 }
 
@@ -203,6 +218,11 @@ pub unsafe fn Rust_setRemoteDescription(
     info!("Rust_setRemoteDescription():");
     unsafe {
         (*peer_connection.as_ptr()).set_remote_description();
+        #[cfg(feature = "verif_hooks")]
+        {
+            let keys = crate::webrtc::sim::sdp_observer::srtp_keys::take(_remote_desc.as_ptr() as usize);
+            (*peer_connection.as_ptr()).state.lock().unwrap().srtp_keys[1] = keys;
+        }
     }
 }
 
diff --git a/src/rust/src/webrtc/sim/sdp_observer.rs b/src/rust/src/webrtc/sim/sdp_observer.rs
index 8b79c11..96faddf 100644
--- a/src/rust/src/webrtc/sim/sdp_observer.rs
+++ b/src/rust/src/webrtc/sim/sdp_observer.rs
@@ -35,6 +35,24 @@ pub type RffiSetSessionDescriptionObserver = u32;
 
 static FAKE_SSD_OBSERVER: u32 = 15;
 
+/// The SRTP keys and salts set on the descriptions this thread is about to use.
+#[cfg(feature = "verif_hooks")]
+pub mod srtp_keys {
+    use std::{cell::RefCell, collections::HashMap};
+
+    thread_local! {
+        static KEYS: RefCell<HashMap<usize, (Vec<u8>, Vec<u8>)>> = RefCell::default();
+    }
+
+    pub fn put(description: usize, key: &[u8], salt: &[u8]) {
+        KEYS.with_borrow_mut(|k| k.insert(description, (key.to_vec(), salt.to_vec())));
+    }
+
+    pub fn take(description: usize) -> Option<(Vec<u8>, Vec<u8>)> {
+        KEYS.with_borrow_mut(|k| k.remove(&description))
+    }
+}
+
 #[allow(non_snake_case, clippy::missing_safety_doc)]
 pub unsafe fn Rust_createSetSessionDescriptionObserver(
     ssd_observer: webrtc::ptr::Borrowed<std::ffi::c_void>,
@@ -95,6 +113,14 @@ pub unsafe fn Rust_disableDtlsAndSetSrtpKey(
     _salt_len: size_t,
 ) -> bool {
     info!("Rust_disableDtlsAndSetSrtpKey(): ");
+    #[cfg(feature = "verif_hooks")]
+    unsafe {
+        srtp_keys::put(
+            _session_description.as_ptr() as usize,
+            std::slice::from_raw_parts(_key_data.as_ptr(), _key_len),
+            std::slice::from_raw_parts(_salt_data.as_ptr(), _salt_len),
+        );
+    }
     true
 }
 
@@ -152,6 +178,14 @@ pub unsafe fn Rust_sessionDescriptionFromV4Legacy(
     _enable_vp9: bool,
 ) -> webrtc::ptr::Owned<RffiSessionDescription> {
     info!("Rust_sessionDescriptionFromV4(): ");
+    #[cfg(feature = "verif_hooks")]
+    {
+        let _ = if offer {
+            srtp_keys::take(addr_of!(FAKE_SDP_OFFER) as usize)
+        } else {
+            srtp_keys::take(addr_of!(FAKE_SDP_ANSWER) as usize)
+        };
+    }
     unsafe {
         if offer {
             webrtc::ptr::Owned::from_ptr(addr_of!(FAKE_SDP_OFFER))
@@ -171,6 +205,14 @@ pub unsafe fn Rust_sessionDescriptionFromV4(
     _is_v4_local: bool,
 ) -> webrtc::ptr::Owned<RffiSessionDescription> {
     info!("Rust_sessionDescriptionFromV4(): ");
+    #[cfg(feature = "verif_hooks")]
+    {
+        let _ = if offer {
+            srtp_keys::take(addr_of!(FAKE_SDP_OFFER) as usize)
+        } else {
+            srtp_keys::take(addr_of!(FAKE_SDP_ANSWER) as usize)
+        };
+    }
     unsafe {
         if offer {
             webrtc::ptr::Owned::from_ptr(addr_of!(FAKE_SDP_OFFER))
-- 
2.43.0


From 818f52a65a81c15c0a9594e701e85c90b88d3c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:36 +0000
Subject: [PATCH 32/44] fix: know the device of an incoming call from the start

An offer from another device of the caller was taken for glare, and so
either ignored without a busy or preferred over the ringing call, when it
arrived before the application proceeded with the ringing one.
---
 src/rust/src/core/call.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index 9f8ed76..6062bdc 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -360,6 +360,8 @@ where
                 );
             }
             None => {
+                // For incoming calls we only have 1 connection and it is the active connection.
+                self.set_active_device_id(received.sender_device_id)?;
                 let pending_data = PendingCall {
                     received,
                     ice_candidates: Vec::new(),
@@ -643,9 +645,6 @@ where
 
                     let mut connection_map = self.connection_map.lock()?;
                     connection_map.insert(remote_device_id, connection);
-
-                    // For incoming calls we only have 1 connection and it is the active connection.
-                    self.set_active_device_id(remote_device_id)?;
                 } else {
                     return Err(RingRtcError::OptionValueNotSet(
                         "proceed()".to_owned(),
-- 
2.43.0


From a7a9add4f13c4de252b1c79edf237b5db02b18bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:36 +0000
Subject: [PATCH 33/44] fix: let a device that rings call again

A second offer from the device of a ringing incoming call was resolved as
glare. But that device can't be ringing us twice: its first call is over,
even if its hangup is still to be handled. When the id of the second call
was smaller it was ignored, and rang for nobody.
---
 src/rust/src/core/call_manager.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 44ae95b..562716b 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -2154,10 +2154,11 @@ where
                 info!("Possible glare, remote peers match");
                 if let Ok(active_device_id) = active_call.active_device_id() {
                     if received.sender_device_id == active_device_id {
-                        if active_call_state >= CallState::ConnectedAndAccepted
+                        if (active_call_state >= CallState::ConnectedAndAccepted
+                            || active_call.direction() == CallDirection::Incoming)
                             && active_call.call_id() != *incoming_call_id
                         {
-                            info!("Recall, already in-call but peer's device is calling again");
+                            info!("Recall, peer's device is calling again");
                             // Peer likely ended the call before we know about it:
                             // - Hungup and called faster than messages get handled, or
                             // - ICE failure on their end before ours
-- 
2.43.0


From afadfa8dece4e5dc98b48005ad578812e87c06b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 34/44] fix: don't send the offer of a call that is being
 terminated

A call that was ended while it was being started could find that no offer
had been sent, and skip the hangup, just before the offer was sent after
all. The remote would then ring for a call that is over.
---
 src/rust/src/core/call.rs         | 10 ++++++++--
 src/rust/src/core/call_manager.rs |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index 6062bdc..ec35aad 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -674,9 +674,10 @@ where
                 });
 
                 self.call_summary.on_call_event(&CallEvent::SendingOffer);
-                call_manager.send_offer(self.clone(), parent_connection, offer)?;
-                // If we don't do this, then hangups won't be sent.
+                // If we don't do this, then hangups won't be sent. It has to be done before
+                // the offer is sent, in case the call is ended at the same time.
                 self.did_send_offer.store(true, Ordering::Release);
+                call_manager.send_offer(self.clone(), parent_connection, offer)?;
             }
         }
         Ok(())
@@ -996,6 +997,11 @@ where
         Ok(!std::mem::replace(&mut *did_begin_termination, true))
     }
 
+    /// Returns `true` if the termination of this Call has begun.
+    pub fn did_begin_termination(&self) -> Result<bool> {
+        Ok(*self.did_begin_termination.lock()?)
+    }
+
     /// Terminate this Call.
     ///
     /// Notify the internal FSM to terminate.
diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 562716b..44a6dfc 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -2642,7 +2642,9 @@ where
 
             let remote_peer = call.remote_peer()?;
 
-            if connection.can_send_messages() {
+            // The hangup of a call that is being terminated might have been sent already, so
+            // an offer sent now would let the remote ring for nothing.
+            if connection.can_send_messages() && !call.did_begin_termination()? {
                 let platform = cm.platform.lock()?;
                 platform.on_send_offer(&remote_peer, call_id, offer)?;
                 Ok(MessageSendResult::Sent)
-- 
2.43.0


From 80ca6a3d37070d6e46a2b4043c07a59a03321ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 35/44] verif: let tests play the engine and the SFU of a group
 call (feature verif_hooks)

---
 src/rust/src/core/group_call.rs            | 68 ++++++++++++++++++++++
 src/rust/src/webrtc/media.rs               |  9 +++
 src/rust/src/webrtc/peer_connection.rs     |  5 ++
 src/rust/src/webrtc/sim/peer_connection.rs | 57 ++++++++++++++++++
 4 files changed, 139 insertions(+)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 6bf9ee5..441c0a5 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -5010,6 +5010,74 @@ impl Client {
     }
 }
 
+/// Stand-ins for what the WebRTC engine does to a client.
+#[cfg(all(feature = "sim", feature = "verif_hooks"))]
+impl Client {
+    pub fn verif_peer_connection(&self) -> webrtc::sim::peer_connection::RffiPeerConnection {
+        let (tx, rx) = std::sync::mpsc::channel();
+        self.actor.send(move |state| {
+            let _ = tx.send(state.peer_connection.simulated());
+        });
+        rx.recv().expect("client is running")
+    }
+
+    pub fn verif_receive_rtp(&self, header: rtp::Header, payload: &[u8]) {
+        self.handle_rtp_received(header, payload);
+    }
+
+    /// Runs f on the observer which the engine was given.
+    pub fn verif_observer(
+        &self,
+        f: impl FnOnce(&mut dyn PeerConnectionObserverTrait) + Send + 'static,
+    ) {
+        self.actor
+            .send(move |state| f(&mut *state.peer_connection_observer_impl));
+    }
+
+    pub fn verif_video_frame(&self, demux_id: DemuxId, height: u32) {
+        self.verif_observer(move |observer| {
+            let _ = observer.handle_incoming_video_frame(
+                demux_id,
+                VideoFrameMetadata::verif_new(height),
+                None,
+            );
+        });
+    }
+
+    /// The key with which media is being encrypted.
+    pub fn verif_send_key(&self) -> (frame_crypto::RatchetCounter, frame_crypto::Secret) {
+        self.frame_crypto_context.lock().unwrap().send_state()
+    }
+
+    /// The SFU refused to let the client join.
+    pub fn verif_join_failed(&self, full: bool) {
+        self.on_sfu_client_join_attempt_completed(Err(if full {
+            RingRtcError::GroupCallFull.into()
+        } else {
+            RingRtcError::SfuClientRequestFailed.into()
+        }));
+    }
+
+    /// Stops the threads of a client which wouldn't end by itself.
+    pub fn verif_stop(&self) {
+        let _ = self.actor.stopper().stop_all_without_joining();
+    }
+
+    pub fn verif_encrypt_media(&self, plaintext: &[u8]) -> Result<Vec<u8>> {
+        let mut buffer = vec![0; Self::get_ciphertext_buffer_size(plaintext.len())];
+        let len = self.encrypt_media(plaintext, &mut buffer)?;
+        buffer.truncate(len);
+        Ok(buffer)
+    }
+
+    pub fn verif_decrypt_media(&self, from: DemuxId, ciphertext: &[u8]) -> Result<Vec<u8>> {
+        let mut buffer = vec![0; Self::get_plaintext_buffer_size(ciphertext.len())];
+        let len = self.decrypt_media(from, ciphertext, &mut buffer)?;
+        buffer.truncate(len);
+        Ok(buffer)
+    }
+}
+
 // We need to wrap a Call to implement PeerConnectionObserverTrait
 // because we need to pass an impl into PeerConnectionObserver::new
 // before we call PeerConnectionFactory::create_peer_connection.
diff --git a/src/rust/src/webrtc/media.rs b/src/rust/src/webrtc/media.rs
index be1ac1a..5b30294 100644
--- a/src/rust/src/webrtc/media.rs
+++ b/src/rust/src/webrtc/media.rs
@@ -94,6 +94,15 @@ pub struct VideoFrameMetadata {
 }
 
 impl VideoFrameMetadata {
+    #[cfg(feature = "verif_hooks")]
+    pub fn verif_new(height: u32) -> Self {
+        Self {
+            width: height,
+            height,
+            rotation: VideoRotation::None,
+        }
+    }
+
     #[must_use]
     pub fn apply_rotation(&self) -> Self {
         match self.rotation {
diff --git a/src/rust/src/webrtc/peer_connection.rs b/src/rust/src/webrtc/peer_connection.rs
index ade8726..f24783f 100644
--- a/src/rust/src/webrtc/peer_connection.rs
+++ b/src/rust/src/webrtc/peer_connection.rs
@@ -109,6 +109,11 @@ impl PeerConnection {
         }
     }
 
+    #[cfg(all(feature = "sim", feature = "verif_hooks"))]
+    pub fn simulated(&self) -> pc::RffiPeerConnection {
+        unsafe { self.rffi.as_borrowed().as_ref().unwrap().clone() }
+    }
+
     pub fn update_transceivers(&self, remote_demux_ids: &[u32]) -> Result<()> {
         let success = unsafe {
             pc::Rust_updateTransceivers(
diff --git a/src/rust/src/webrtc/sim/peer_connection.rs b/src/rust/src/webrtc/sim/peer_connection.rs
index d0a34e2..ecaa9cc 100644
--- a/src/rust/src/webrtc/sim/peer_connection.rs
+++ b/src/rust/src/webrtc/sim/peer_connection.rs
@@ -68,6 +68,8 @@ impl RffiPeerConnection {
                 last_sent_rtp_data: None,
                 #[cfg(feature = "verif_hooks")]
                 srtp_keys: Default::default(),
+                #[cfg(feature = "verif_hooks")]
+                group: Default::default(),
             })),
         }
     }
@@ -129,6 +131,11 @@ impl RffiPeerConnection {
         self.state.lock().unwrap().srtp_keys.clone()
     }
 
+    #[cfg(feature = "verif_hooks")]
+    pub fn group<T>(&self, f: impl FnOnce(&mut GroupState) -> T) -> T {
+        f(&mut self.state.lock().unwrap().group)
+    }
+
     pub fn last_sent_rtp_message(&self) -> Option<crate::protobuf::rtp_data::Message> {
         let state = self.state.lock().unwrap();
         Some(
@@ -156,6 +163,24 @@ struct RffiPeerConnectionState {
     last_sent_rtp_data: Option<Vec<u8>>,
     #[cfg(feature = "verif_hooks")]
     srtp_keys: [Option<(Vec<u8>, Vec<u8>)>; 2],
+    #[cfg(feature = "verif_hooks")]
+    group: GroupState,
+}
+
+/// What the simulation doesn't need but a check of group calls does.
+#[cfg(feature = "verif_hooks")]
+#[derive(Clone, Debug, Default, PartialEq, Eq)]
+pub struct GroupState {
+    pub playout: bool,
+    pub recording: bool,
+    /// the last thing said, if anything
+    pub incoming: Option<bool>,
+    pub closed: bool,
+    /// min, start and max
+    pub bitrates: Option<(i32, i32, i32)>,
+    pub transceivers: Vec<u32>,
+    pub audio_level: u16,
+    pub bandwidth_estimate_bps: u32,
 }
 
 #[allow(non_snake_case, clippy::missing_safety_doc)]
@@ -165,6 +190,15 @@ pub unsafe fn Rust_updateTransceivers(
     _remote_demux_ids_len: usize,
 ) -> bool {
     info!("Rust_updateTransceivers():");
+    #[cfg(feature = "verif_hooks")]
+    unsafe {
+        let ids = if _remote_demux_ids_len == 0 {
+            vec![]
+        } else {
+            std::slice::from_raw_parts(_remote_demux_ids_data.as_ptr(), _remote_demux_ids_len).to_vec()
+        };
+        (*_peer_connection.as_ptr()).group(|g| g.transceivers = ids);
+    }
     true
 }
 
@@ -246,6 +280,8 @@ pub unsafe fn Rust_setIncomingMediaEnabled(
     unsafe {
         (*peer_connection.as_ptr()).set_incoming_media_enabled(enabled);
     }
+    #[cfg(feature = "verif_hooks")]
+    unsafe { (*peer_connection.as_ptr()).group(|g| g.incoming = Some(enabled)) };
     true
 }
 
@@ -255,6 +291,8 @@ pub unsafe fn Rust_setAudioPlayoutEnabled(
     _enabled: bool,
 ) {
     info!("Rust_setAudioPlayoutEnabled:");
+    #[cfg(feature = "verif_hooks")]
+    unsafe { (*_peer_connection.as_ptr()).group(|g| g.playout = _enabled) };
 }
 
 #[allow(non_snake_case, clippy::missing_safety_doc)]
@@ -263,6 +301,8 @@ pub unsafe fn Rust_setAudioRecordingEnabled(
     _enabled: bool,
 ) {
     info!("Rust_setAudioRecordingEnabled:");
+    #[cfg(feature = "verif_hooks")]
+    unsafe { (*_peer_connection.as_ptr()).group(|g| g.recording = _enabled) };
 }
 
 #[allow(non_snake_case, clippy::missing_safety_doc)]
@@ -337,6 +377,10 @@ pub unsafe fn Rust_setSendBitrates(
 ) {
     let mut state = unsafe { (*peer_connection.as_ptr()).state.lock().unwrap() };
     state.max_bitrate_bps = Some(max_bitrate_bps);
+    #[cfg(feature = "verif_hooks")]
+    {
+        state.group.bitrates = Some((_min_bitrate_bps, _start_bitrate_bps, max_bitrate_bps));
+    }
 }
 
 #[allow(non_snake_case, clippy::missing_safety_doc)]
@@ -408,6 +452,12 @@ pub fn Rust_getAudioLevels(
             *received_size_out = 0;
         }
     }
+    #[cfg(feature = "verif_hooks")]
+    unsafe {
+        if let Some(captured_out) = captured_out.as_mut() {
+            *captured_out = (*_peer_connection.as_ptr()).group(|g| g.audio_level);
+        }
+    }
 }
 
 #[allow(non_snake_case, clippy::missing_safety_doc)]
@@ -415,6 +465,11 @@ pub unsafe fn Rust_getLastBandwidthEstimateBps(
     _peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
 ) -> u32 {
     info!("Rust_getLastBandwidthEstimateBps");
+    #[cfg(feature = "verif_hooks")]
+    {
+        return unsafe { (*_peer_connection.as_ptr()).group(|g| g.bandwidth_estimate_bps) };
+    }
+    #[cfg(not(feature = "verif_hooks"))]
     0
 }
 
@@ -431,6 +486,8 @@ pub unsafe fn Rust_closePeerConnection(
     _peer_connection: webrtc::ptr::BorrowedRc<RffiPeerConnection>,
 ) {
     info!("Rust_closePeerConnection:");
+    #[cfg(feature = "verif_hooks")]
+    unsafe { (*_peer_connection.as_ptr()).group(|g| g.closed = true) };
 }
 
 #[allow(non_snake_case, clippy::missing_safety_doc)]
-- 
2.43.0


From 89e8d963e93e26e47298de0c3345b10de8be6ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 36/44] fix: handle all messages from the SFU which become
 ready together

The rest of them were dropped after one which had been sent in parts.
---
 src/rust/src/core/group_call.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 441c0a5..5bdf89d 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -4421,7 +4421,6 @@ impl Client {
                                         error!("Failed to decode content buffer in SfuToDevice: {:?}", err);
                                     }
                                 }
-                                return;
                             } else {
                                 Self::handle_sfu_to_device_inner(
                                     &state.actor,
-- 
2.43.0


From 32c207f28a6fa84003cbd30d9b973228d82b569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 37/44] fix: don't let screen sharing change the send rates
 outside a call

After leaving, it turned the media back on.
---
 src/rust/src/core/group_call.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 5bdf89d..71ef0bf 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -2297,8 +2297,11 @@ impl Client {
                     err
                 );
             }
-            let send_rates = Self::compute_send_rates(state.remote_devices.len(), sharing_screen);
-            Self::set_send_rates_inner(state, send_rates);
+            if let JoinState::Joined(_) = state.join_state {
+                let send_rates =
+                    Self::compute_send_rates(state.remote_devices.len(), sharing_screen);
+                Self::set_send_rates_inner(state, send_rates);
+            }
         });
     }
 
-- 
2.43.0


From d928d12286dfe8807c7b276ac6569d091d8fa486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 38/44] fix: resend the pending media key along with the
 current one

Otherwise, those who asked couldn't decrypt after the pending rotation.
---
 src/rust/src/core/group_call.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 71ef0bf..d1b74a7 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -2340,12 +2340,16 @@ impl Client {
                     );
                     Self::send_media_send_key_to_users_over_signaling(
                         state,
-                        user_ids,
+                        user_ids.clone(),
                         local_demux_id,
                         ratchet_counter,
                         secret,
                         None,
                     );
+                    // They also need the key we are about to switch to, if any.
+                    Self::send_pending_media_send_key_to_users_with_added_devices(
+                        state, user_ids, None,
+                    );
                 }
             }
         });
-- 
2.43.0


From 780e3489d45f6acb6673574a0d071e60ef0e3cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 39/44] fix: remember whose video is forwarded for devices
 which appear later

The SFU says so only when it changes, which may be before the device is known.
---
 src/rust/src/core/group_call.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index d1b74a7..1204106 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -3261,7 +3261,14 @@ impl Client {
                         {
                             return existing_remote_device;
                         }
-                        RemoteDeviceState::new(device.demux_id, user_id.clone(), added_time)
+                        let mut remote_device =
+                            RemoteDeviceState::new(device.demux_id, user_id.clone(), added_time);
+                        if let Some(height) = state.forwarding_videos.get(&device.demux_id) {
+                            remote_device.forwarding_video = Some(true);
+                            remote_device.server_allocated_height = *height;
+                            remote_device.recalculate_higher_resolution_pending();
+                        }
+                        remote_device
                     })
                 })
                 .collect();
-- 
2.43.0


From 3b4595db35d27dae6308b9db05b39bc4092a1e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 40/44] fix: notice a video height again after it has been
 reset or ignored

Otherwise, the device kept waiting for a higher resolution it already had.
---
 src/rust/src/core/group_call.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 1204106..84801e5 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -3261,6 +3261,9 @@ impl Client {
                         {
                             return existing_remote_device;
                         }
+                        state
+                            .peer_connection_observer_impl
+                            .forget_last_height(device.demux_id);
                         let mut remote_device =
                             RemoteDeviceState::new(device.demux_id, user_id.clone(), added_time);
                         if let Some(height) = state.forwarding_videos.get(&device.demux_id) {
@@ -4774,6 +4777,9 @@ impl Client {
 
                     if !is_forwarding {
                         remote_device.client_decoded_height = None;
+                        state
+                            .peer_connection_observer_impl
+                            .forget_last_height(remote_device.demux_id);
                     }
 
                     remote_device.recalculate_higher_resolution_pending();
@@ -4805,6 +4811,9 @@ impl Client {
                         if heartbeat_state.video_muted == Some(true) {
                             remote_device.client_decoded_height = None;
                             remote_device.recalculate_higher_resolution_pending();
+                            state
+                                .peer_connection_observer_impl
+                                .forget_last_height(demux_id);
                         }
 
                         // On unmutes, clear set of seen mute requests
@@ -5104,6 +5113,15 @@ struct PeerConnectionObserverImpl {
 }
 
 impl PeerConnectionObserverImpl {
+    /// To be called when the device's client_decoded_height is reset (or not set), so that the
+    /// next frame sets it even if its height is the same as before.
+    fn forget_last_height(&self, demux_id: DemuxId) {
+        self.last_height_by_demux_id
+            .lock()
+            .unwrap()
+            .remove(&demux_id);
+    }
+
     fn uninitialized(
         incoming_video_sink: Option<Box<dyn VideoSink>>,
     ) -> Result<(Box<Self>, PeerConnectionObserver<Self>)> {
@@ -5286,12 +5304,14 @@ impl PeerConnectionObserverTrait for PeerConnectionObserverImpl {
                 client.actor.send(move |state| {
                     if let Some(remote_device) = state.remote_devices.find_by_demux_id_mut(demux_id)
                     {
+                        // Workaround for a race where a frame is received after video muting
+                        if remote_device.heartbeat_state.video_muted == Some(true) {
+                            state
+                                .peer_connection_observer_impl
+                                .forget_last_height(demux_id);
                         // The height needs to be checked again because last_height_by_demux_id
                         // doesn't account for video mute or forwarding state.
-                        if remote_device.client_decoded_height != Some(height)
-                        // Workaround for a race where a frame is received after video muting
-                        && remote_device.heartbeat_state.video_muted != Some(true)
-                        {
+                        } else if remote_device.client_decoded_height != Some(height) {
                             remote_device.client_decoded_height = Some(height);
 
                             let was_higher_resolution_pending =
-- 
2.43.0


From 105edd037d9242407707bd4b01e44846a7c9c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 41/44] fix: ignore the answer to joining if the call has been
 left meanwhile

It started the peer connection, and later refused to join with it.
---
 src/rust/src/core/group_call.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 84801e5..985cee5 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -2774,6 +2774,10 @@ impl Client {
     }
 
     fn on_sfu_client_join_success(state: &mut State, joined: Joined) {
+        if !matches!(state.join_state, JoinState::Joining) {
+            warn!("The SFU completed joining, but the client is no longer joining.");
+            return;
+        }
         match state.connection_state {
             ConnectionState::NotConnected => {
                 warn!("The SFU completed joining before connect() was requested.");
-- 
2.43.0


From 2f516d0c6068042e4c4776fd6f939095223baa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 42/44] fix: leave a call which was joined while it was ending

Otherwise, the call manager stayed busy forever.
---
 src/rust/src/core/group_call.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 985cee5..ed0ddc2 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -2757,6 +2757,10 @@ impl Client {
                 // the peer connection and cleaning up.
                 let actor = state.actor.clone();
                 actor.send_delayed(CLIENT_END_DELAY, move |state| {
+                    // In case join() was called during the delay.
+                    if !matches!(state.join_state, JoinState::NotJoined(_)) {
+                        Self::leave_inner(state);
+                    }
                     state.peer_connection.close();
                     Self::set_connection_state_and_notify_observer(
                         state,
-- 
2.43.0


From 512b20ed89c9ccf2040cc3f0ef9a27945ab91245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 43/44] verif: record how a group call's connection is set up
 (feature verif_hooks)

---
 src/rust/src/webrtc/peer_connection.rs     |  8 +++
 src/rust/src/webrtc/sdp_observer.rs        | 13 +++++
 src/rust/src/webrtc/sim/peer_connection.rs | 22 ++++++-
 src/rust/src/webrtc/sim/sdp_observer.rs    | 68 ++++++++++++++++++++++
 4 files changed, 109 insertions(+), 2 deletions(-)

diff --git a/src/rust/src/webrtc/peer_connection.rs b/src/rust/src/webrtc/peer_connection.rs
index f24783f..2476800 100644
--- a/src/rust/src/webrtc/peer_connection.rs
+++ b/src/rust/src/webrtc/peer_connection.rs
@@ -238,6 +238,14 @@ impl PeerConnection {
             Protocol::Tls(hostname) => (true, Some(CString::new(hostname)?)),
         };
 
+        #[cfg(all(feature = "sim", feature = "verif_hooks"))]
+        self.simulated().group(|g| {
+            let hostname = hostname_c
+                .as_ref()
+                .map(|h| h.to_string_lossy().into_owned());
+            g.servers.push((ip, port, tcp, hostname))
+        });
+
         let add_ok = unsafe {
             let hostname_ptr = hostname_c
                 .as_ref()
diff --git a/src/rust/src/webrtc/sdp_observer.rs b/src/rust/src/webrtc/sdp_observer.rs
index e0458b2..e6d491e 100644
--- a/src/rust/src/webrtc/sdp_observer.rs
+++ b/src/rust/src/webrtc/sdp_observer.rs
@@ -73,6 +73,19 @@ pub struct RffiSrtpKey<'srtp_key> {
     _srtp_key: std::marker::PhantomData<&'srtp_key SrtpKey>,
 }
 
+#[cfg(all(feature = "sim", feature = "verif_hooks"))]
+impl RffiSrtpKey<'_> {
+    /// The key and the salt.
+    pub fn verif_parts(&self) -> (Vec<u8>, Vec<u8>) {
+        unsafe {
+            (
+                std::slice::from_raw_parts(self.key_data.as_ptr(), self.key_len).to_vec(),
+                std::slice::from_raw_parts(self.salt_data.as_ptr(), self.salt_len).to_vec(),
+            )
+        }
+    }
+}
+
 impl SrtpKey {
     pub fn rffi(&self) -> RffiSrtpKey<'_> {
         RffiSrtpKey {
diff --git a/src/rust/src/webrtc/sim/peer_connection.rs b/src/rust/src/webrtc/sim/peer_connection.rs
index ecaa9cc..e3a7ba9 100644
--- a/src/rust/src/webrtc/sim/peer_connection.rs
+++ b/src/rust/src/webrtc/sim/peer_connection.rs
@@ -181,6 +181,12 @@ pub struct GroupState {
     pub transceivers: Vec<u32>,
     pub audio_level: u16,
     pub bandwidth_estimate_bps: u32,
+    /// local and remote
+    pub descriptions: [Option<crate::webrtc::sim::sdp_observer::group_descriptions::Description>; 2],
+    /// the devices in each remote description so far
+    pub described: Vec<Vec<u32>>,
+    /// ip, port, whether by TCP, host name
+    pub servers: Vec<(std::net::IpAddr, u16, bool, Option<String>)>,
 }
 
 #[allow(non_snake_case, clippy::missing_safety_doc)]
@@ -230,7 +236,12 @@ pub unsafe fn Rust_setLocalDescription(
         #[cfg(feature = "verif_hooks")]
         {
             let keys = crate::webrtc::sim::sdp_observer::srtp_keys::take(_local_desc.as_ptr() as usize);
-            (*peer_connection.as_ptr()).state.lock().unwrap().srtp_keys[0] = keys;
+            let group = crate::webrtc::sim::sdp_observer::group_descriptions::take(
+                _local_desc.as_ptr() as usize,
+            );
+            let mut state = (*peer_connection.as_ptr()).state.lock().unwrap();
+            state.srtp_keys[0] = keys;
+            state.group.descriptions[0] = group;
         }
     }
 }
@@ -255,7 +266,14 @@ pub unsafe fn Rust_setRemoteDescription(
         #[cfg(feature = "verif_hooks")]
         {
             let keys = crate::webrtc::sim::sdp_observer::srtp_keys::take(_remote_desc.as_ptr() as usize);
-            (*peer_connection.as_ptr()).state.lock().unwrap().srtp_keys[1] = keys;
+            let group = crate::webrtc::sim::sdp_observer::group_descriptions::take(
+                _remote_desc.as_ptr() as usize,
+            );
+            let mut state = (*peer_connection.as_ptr()).state.lock().unwrap();
+            state.srtp_keys[1] = keys;
+            let remotes = group.as_ref().map(|g| g.remotes.clone());
+            state.group.described.extend(remotes);
+            state.group.descriptions[1] = group;
         }
     }
 }
diff --git a/src/rust/src/webrtc/sim/sdp_observer.rs b/src/rust/src/webrtc/sim/sdp_observer.rs
index 96faddf..21d047e 100644
--- a/src/rust/src/webrtc/sim/sdp_observer.rs
+++ b/src/rust/src/webrtc/sim/sdp_observer.rs
@@ -53,6 +53,54 @@ pub mod srtp_keys {
     }
 }
 
+/// The description of a group call which this thread is about to use.
+#[cfg(feature = "verif_hooks")]
+pub mod group_descriptions {
+    use std::{cell::RefCell, collections::HashMap, ffi::CStr, os::raw::c_char};
+
+    #[derive(Clone, Debug, Default, PartialEq, Eq)]
+    pub struct Description {
+        pub ice_ufrag: String,
+        pub ice_pwd: String,
+        pub key: Vec<u8>,
+        pub salt: Vec<u8>,
+        pub local: u32,
+        pub remotes: Vec<u32>,
+    }
+
+    thread_local! {
+        static MADE: RefCell<HashMap<usize, Description>> = RefCell::default();
+    }
+
+    pub unsafe fn put(
+        description: usize,
+        ice: [*const c_char; 2],
+        (key, salt): (Vec<u8>, Vec<u8>),
+        local: u32,
+        remotes: (*const u32, usize),
+    ) {
+        let [ice_ufrag, ice_pwd] =
+            ice.map(|s| unsafe { CStr::from_ptr(s) }.to_string_lossy().into_owned());
+        let remotes = match remotes {
+            (_, 0) => vec![],
+            (data, len) => unsafe { std::slice::from_raw_parts(data, len) }.to_vec(),
+        };
+        let made = Description {
+            ice_ufrag,
+            ice_pwd,
+            key,
+            salt,
+            local,
+            remotes,
+        };
+        MADE.with_borrow_mut(|m| m.insert(description, made));
+    }
+
+    pub fn take(description: usize) -> Option<Description> {
+        MADE.with_borrow_mut(|m| m.remove(&description))
+    }
+}
+
 #[allow(non_snake_case, clippy::missing_safety_doc)]
 pub unsafe fn Rust_createSetSessionDescriptionObserver(
     ssd_observer: webrtc::ptr::Borrowed<std::ffi::c_void>,
@@ -232,6 +280,16 @@ pub unsafe fn Rust_localDescriptionForGroupCall(
     _remote_demux_ids_len: size_t,
 ) -> webrtc::ptr::Owned<RffiSessionDescription> {
     info!("Rust_localDescriptionForGroupCall(): ");
+    #[cfg(feature = "verif_hooks")]
+    unsafe {
+        group_descriptions::put(
+            addr_of!(FAKE_SDP_OFFER) as usize,
+            [_ice_ufrag.as_ptr(), _ice_pwd.as_ptr()],
+            _client_srtp_key.verif_parts(),
+            _local_demux_id,
+            (_remote_demux_ids_data.as_ptr(), _remote_demux_ids_len),
+        );
+    }
     unsafe { webrtc::ptr::Owned::from_ptr(addr_of!(FAKE_SDP_OFFER)) }
 }
 
@@ -245,6 +303,16 @@ pub unsafe fn Rust_remoteDescriptionForGroupCall(
     _remote_demux_ids_len: size_t,
 ) -> webrtc::ptr::Owned<RffiSessionDescription> {
     info!("Rust_remoteDescriptionForGroupCall(): ");
+    #[cfg(feature = "verif_hooks")]
+    unsafe {
+        group_descriptions::put(
+            addr_of!(FAKE_SDP_ANSWER) as usize,
+            [_ice_ufrag.as_ptr(), _ice_pwd.as_ptr()],
+            _server_srtp_key.verif_parts(),
+            _local_demux_id,
+            (_remote_demux_ids_data.as_ptr(), _remote_demux_ids_len),
+        );
+    }
     unsafe { webrtc::ptr::Owned::from_ptr(addr_of!(FAKE_SDP_ANSWER)) }
 }
 
-- 
2.43.0


From a8c049286e01a2d28617f0f68137c459633e942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:56 +0000
Subject: [PATCH 44/44] verif: let tests wait for a group call of the call
 manager (feature verif_hooks)

---
 src/rust/src/core/call_manager.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 44a6dfc..d114bb7 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -3426,6 +3426,21 @@ where
     }
 }
 
+#[cfg(all(feature = "sim", feature = "verif_hooks"))]
+impl<T> CallManager<T>
+where
+    T: Platform,
+{
+    /// The client of a group call, whether it's active or not.
+    pub fn verif_group_call_client(
+        &self,
+        client_id: group_call::ClientId,
+    ) -> Option<group_call::Client> {
+        let clients = self.group_call_by_client_id.lock().ok()?;
+        clients.get(&client_id).map(|c| c.client.clone())
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use protobuf::signaling::{
-- 
2.43.0

