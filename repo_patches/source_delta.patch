From 6384be588542374290d95d96877532addd3bbe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 01/31] fix: split messages of more than two parts without
 skipping data

The part builder added the end position of each part to the offset instead
of moving the offset there, so everything after the second part was lost.
---
 src/adnl/node/sender.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index ebbb43a..af03dcb 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -157,7 +157,7 @@ impl Node {
                     },
                 };
 
-                *offset += len;
+                *offset = len;
                 result
             }
 
-- 
2.43.0


From 0cfad2043083eeb8c93e5f2d29ccd8f8dfa2cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 02/31] fix: require a signature on handshake packets with a
 short source id

Such packets were accepted unsigned even with packet_signature_required, so
anybody could speak in the name of a known peer.
---
 src/adnl/node/receiver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 6945295..8d146d1 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -450,7 +450,7 @@ impl Node {
                 raw_packet,
                 &mut packet.signature,
                 peer.id().public_key(),
-                false,
+                !from_channel && self.options.packet_signature_required,
             )?;
         }
 
-- 
2.43.0


From 119b61fb3a75fc0b4d4341dbbdeb7a858fa17e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 03/31] fix: keep a separate channel for every pair of local
 and remote ids

Channels were looked up by the peer id alone, so with several local keys the
channel of one pair was used and replaced by another pair.
---
 src/adnl/node/mod.rs      | 10 ++++++----
 src/adnl/node/receiver.rs |  4 ++--
 src/adnl/node/sender.rs   |  2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index ff1b823..b3841de 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -128,7 +128,9 @@ pub struct Node {
     /// Channels table used to fast search on incoming packets
     channels_by_id: FastDashMap<AdnlChannelId, ChannelReceiver>,
     /// Channels table used to fast search when sending messages
-    channels_by_peers: FastDashMap<NodeIdShort, Arc<Channel>>,
+    ///
+    /// Local id and peer id => channel
+    channels_by_peers: FastDashMap<(NodeIdShort, NodeIdShort), Arc<Channel>>,
 
     /// Pending transfers of large messages that were split
     incoming_transfers: Arc<FastDashMap<TransferId, Arc<Transfer>>>,
@@ -358,7 +360,7 @@ impl Node {
         let peers = self.get_peers(local_id)?;
 
         self.channels_by_peers
-            .remove(peer_id)
+            .remove(&(*local_id, *peer_id))
             .and_then(|(_, removed)| {
                 self.channels_by_id.remove(removed.ordinary_channel_in_id());
                 self.channels_by_id.remove(removed.priority_channel_in_id())
@@ -476,7 +478,7 @@ impl Node {
 
         let channel = self
             .channels_by_peers
-            .get(peer_id)
+            .get(&(*local_id, *peer_id))
             .map(|entry| entry.value().clone());
 
         let timeout = timeout.unwrap_or(self.options.query_default_timeout_ms);
@@ -526,7 +528,7 @@ impl Node {
         tracing::trace!(%local_id, %peer_id, "resetting peer pair");
 
         self.channels_by_peers
-            .remove(peer_id)
+            .remove(&(*local_id, *peer_id))
             .and_then(|(_, removed)| {
                 self.channels_by_id.remove(removed.ordinary_channel_in_id());
                 self.channels_by_id.remove(removed.priority_channel_in_id())
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 8d146d1..15e0d48 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -435,7 +435,7 @@ impl Node {
 
         let peers = self.get_peers(local_id)?;
         let peer = if from_channel {
-            if self.channels_by_peers.contains_key(&peer_id) {
+            if self.channels_by_peers.contains_key(&(*local_id, peer_id)) {
                 peers.get(&peer_id)
             } else {
                 return Err(AdnlPacketError::UnknownChannel.into());
@@ -519,7 +519,7 @@ impl Node {
         };
         let peer = peer.value();
 
-        match self.channels_by_peers.entry(*peer_id) {
+        match self.channels_by_peers.entry((*local_id, *peer_id)) {
             Entry::Occupied(mut entry) => {
                 let channel = entry.get();
 
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index af03dcb..d10154c 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -74,7 +74,7 @@ impl Node {
 
         // Get local key
         let local_key = self.keystore.key_by_id(local_id)?;
-        let channel = self.channels_by_peers.get(peer_id);
+        let channel = self.channels_by_peers.get(&(*local_id, *peer_id));
         let mut force_handshake = false;
         let (additional_size, additional_message) = match &channel {
             Some(channel) if channel.ready() => (0, None),
-- 
2.43.0


From 8238cc65b6430ce50578d6f4335f0749a5724991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 04/31] fix: remember every packet in the packets history

A packet that moved the history window forward neither moved the window nor was
marked as delivered, so it was accepted again. The delivery counter in the low
bits of the index never changed, and window arithmetic overflowed near u64::MAX.
---
 src/util/packets_history.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/util/packets_history.rs b/src/util/packets_history.rs
index 5829f1a..83e0e21 100644
--- a/src/util/packets_history.rs
+++ b/src/util/packets_history.rs
@@ -91,7 +91,7 @@ impl PacketsHistory {
             let index_masked = index & INDEX_MASK;
             let index_normalized = index & !INDEX_MASK;
 
-            if index_normalized > seqno_normalized + INDEX_MASK + 1 {
+            if index_normalized.saturating_sub(seqno_normalized) > INDEX_MASK + 1 {
                 tracing::debug!(seqno, index_normalized, "peer packet is too old");
                 return false;
             }
@@ -127,7 +127,7 @@ impl PacketsHistory {
 
                     mask.bits[mask_offset].fetch_or(mask_bit, Ordering::Release);
 
-                    index
+                    index_normalized
                 }
                 None => {
                     if mask
@@ -138,7 +138,7 @@ impl PacketsHistory {
                         continue;
                     }
 
-                    if index_normalized + INDEX_MASK + 1 == seqno_normalized {
+                    if seqno_normalized - index_normalized == INDEX_MASK + 1 {
                         for i in 0..HISTORY_SIZE / 2 {
                             mask.bits[i].store(
                                 mask.bits[i + HISTORY_SIZE / 2].load(Ordering::Acquire),
@@ -155,7 +155,11 @@ impl PacketsHistory {
                         }
                     }
 
-                    index_normalized
+                    // Packet is the first one in the new window
+                    let mask_offset = HISTORY_SIZE / 2 + seqno_masked as usize / 64;
+                    mask.bits[mask_offset].fetch_or(mask_bit, Ordering::Release);
+
+                    seqno_normalized
                 }
             };
 
@@ -164,7 +168,8 @@ impl PacketsHistory {
                 self.seqno.store(seqno, Ordering::Release);
             }
 
-            let index_masked = (index_masked + 1) & !INDEX_MASK;
+            // Change index on each delivery (it must never be equal to `IN_TRANSIT`)
+            let index_masked = (index_masked + 1) % INDEX_MASK;
             let _ = mask.index.compare_exchange(
                 IN_TRANSIT,
                 next_index | index_masked,
-- 
2.43.0


From fc8a20a843ee244e6268f24b66749bec9389e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 05/31] fix: announce the reinit date of the peer pair after a
 peer reset

Resetting a peer bumps the reinit date of its receiver state so that the other
side resets as well, but packets were still sent and checked with the start
time of the node. With packet history enabled the peer then refused the
restarted seqnos as already seen.
---
 src/adnl/node/receiver.rs | 3 ++-
 src/adnl/node/sender.rs   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 15e0d48..c856734 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -459,7 +459,8 @@ impl Node {
             target: local_reinit_date,
         }) = packet.reinit_dates
         {
-            let expected_local_reinit_date = local_reinit_date.cmp(&self.start_time);
+            let expected_local_reinit_date =
+                local_reinit_date.cmp(&peer.receiver_state().reinit_date());
             if expected_local_reinit_date == Ordering::Greater {
                 return Err(AdnlPacketError::DstReinitDateTooNew.into());
             }
diff --git a/src/adnl/node/sender.rs b/src/adnl/node/sender.rs
index d10154c..b38f210 100644
--- a/src/adnl/node/sender.rs
+++ b/src/adnl/node/sender.rs
@@ -261,7 +261,7 @@ impl Node {
             reinit_dates: match signer {
                 MessageSigner::Channel { .. } => None,
                 MessageSigner::Random(_) => Some(proto::adnl::ReinitDates {
-                    local: self.start_time,
+                    local: peer.receiver_state().reinit_date(),
                     target: peer.sender_state().reinit_date(),
                 }),
             },
-- 
2.43.0


From ebecd7bba2b118a389e9d5dee1f82dd89a6e67be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 06/31] fix: don't drop a newer transfer with the same id on
 timeout

The timeout task of a finished transfer removed whatever was stored under its id.
---
 src/adnl/node/receiver.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index c856734..dcc7d6a 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -219,7 +219,13 @@ impl Node {
                                     continue;
                                 }
 
-                                if incoming_transfers.remove(&transfer_id).is_some() {
+                                // Don't touch a newer transfer with the same id
+                                if incoming_transfers
+                                    .remove_if(&transfer_id, |_, current| {
+                                        Arc::ptr_eq(current, &transfer)
+                                    })
+                                    .is_some()
+                                {
                                     tracing::debug!(
                                         transfer_id = %DisplayTransferId(&transfer_id),
                                         "ADNL transfer timed out"
-- 
2.43.0


From 9e43dde379d3f3e214981da292b0a03dfc0842ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 07/31] fix: ignore repeated and empty parts of a split message

A repeated part replaced the stored one despite the documented behaviour, and an
empty part at the beginning made the assembly loop forever.
---
 src/adnl/transfer.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/adnl/transfer.rs b/src/adnl/transfer.rs
index 46bff45..f4f6d13 100644
--- a/src/adnl/transfer.rs
+++ b/src/adnl/transfer.rs
@@ -48,9 +48,14 @@ impl Transfer {
         data: Vec<u8>,
         transfer_id: &TransferId,
     ) -> Result<Option<Vec<u8>>, TransferError> {
+        use dashmap::mapref::entry::Entry;
+
         let len = data.len();
-        if self.parts.insert(offset, data).is_some() {
-            return Ok(None);
+        match self.parts.entry(offset) {
+            Entry::Vacant(entry) => {
+                entry.insert(data);
+            }
+            Entry::Occupied(_) => return Ok(None),
         }
 
         // Increase received length.
@@ -83,12 +88,13 @@ impl Transfer {
                 received = 0;
                 let mut buffer = Vec::with_capacity(self.total_len);
                 while received < self.total_len {
-                    if let Some(data) = self.parts.get(&received) {
-                        let data = data.value();
-                        received += data.len();
-                        buffer.extend_from_slice(data);
-                    } else {
-                        return Err(TransferError::PartMissing);
+                    match self.parts.get(&received) {
+                        // NOTE: an empty part would never move the offset forward
+                        Some(data) if !data.is_empty() => {
+                            received += data.len();
+                            buffer.extend_from_slice(data.value());
+                        }
+                        _ => return Err(TransferError::PartMissing),
                     }
                 }
 
-- 
2.43.0


From cd4fbe82ce5e926897ea785cb9c8efe1a09c9563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 08/31] fix: don't take the peer address from a packet that is
 then refused

The address of a known peer was replaced before reinit dates were checked, so a
replayed handshake of an earlier incarnation moved the peer to its old address.
---
 src/adnl/node/receiver.rs | 43 ++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index dcc7d6a..af3acb4 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -398,6 +398,9 @@ impl Node {
 
         let from_channel = peer_id.is_some();
 
+        // Known address of the peer will only be updated after the packet was checked
+        let mut new_addr = None;
+
         // Extract peer id
         let (peer_id, check_signature) = if let Some(peer_id) = peer_id {
             if packet.from.is_some() || packet.from_short.is_some() {
@@ -421,13 +424,17 @@ impl Node {
 
             if let Some(list) = &packet.address {
                 let addr = parse_address_list(list, self.options.clock_tolerance_sec)?;
-                self.add_peer(
-                    NewPeerContext::AdnlPacket,
-                    local_id,
-                    &peer_id,
-                    addr,
-                    full_id,
-                )?;
+                if self.get_peers(local_id)?.contains_key(&peer_id) {
+                    new_addr = Some((addr, full_id));
+                } else {
+                    self.add_peer(
+                        NewPeerContext::AdnlPacket,
+                        local_id,
+                        &peer_id,
+                        addr,
+                        full_id,
+                    )?;
+                }
             }
 
             (peer_id, false)
@@ -482,6 +489,16 @@ impl Node {
             if local_reinit_date != 0 && expected_local_reinit_date == Ordering::Less {
                 drop(peer);
 
+                if let Some((addr, full_id)) = new_addr {
+                    self.add_peer(
+                        NewPeerContext::AdnlPacket,
+                        local_id,
+                        &peer_id,
+                        addr,
+                        full_id,
+                    )?;
+                }
+
                 self.send_message(local_id, &peer_id, proto::adnl::Message::Nop, false)?;
                 return Err(AdnlPacketError::DstReinitDateTooOld.into());
             }
@@ -506,6 +523,18 @@ impl Node {
             }
         }
 
+        drop(peer);
+
+        if let Some((addr, full_id)) = new_addr {
+            self.add_peer(
+                NewPeerContext::AdnlPacket,
+                local_id,
+                &peer_id,
+                addr,
+                full_id,
+            )?;
+        }
+
         Ok(Some(peer_id))
     }
 
-- 
2.43.0


From 199d5ca931c9b39745a9a4b72436bcd9d813149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 09/31] fix: drop the channel of a peer's previous incarnation

---
 src/adnl/node/mod.rs      | 19 +++++++++----------
 src/adnl/node/receiver.rs |  6 ++++++
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index b3841de..3d27684 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -359,12 +359,7 @@ impl Node {
     pub fn remove_peer(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) -> Result<bool> {
         let peers = self.get_peers(local_id)?;
 
-        self.channels_by_peers
-            .remove(&(*local_id, *peer_id))
-            .and_then(|(_, removed)| {
-                self.channels_by_id.remove(removed.ordinary_channel_in_id());
-                self.channels_by_id.remove(removed.priority_channel_in_id())
-            });
+        self.remove_channel(local_id, peer_id);
 
         Ok(peers.remove(peer_id).is_some())
     }
@@ -527,16 +522,20 @@ impl Node {
 
         tracing::trace!(%local_id, %peer_id, "resetting peer pair");
 
+        self.remove_channel(local_id, peer_id);
+
+        peer.reset();
+
+        Ok(())
+    }
+
+    fn remove_channel(&self, local_id: &NodeIdShort, peer_id: &NodeIdShort) {
         self.channels_by_peers
             .remove(&(*local_id, *peer_id))
             .and_then(|(_, removed)| {
                 self.channels_by_id.remove(removed.ordinary_channel_in_id());
                 self.channels_by_id.remove(removed.priority_channel_in_id())
             });
-
-        peer.reset();
-
-        Ok(())
     }
 }
 
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index af3acb4..d4d0a0a 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -482,10 +482,16 @@ impl Node {
                 return Err(AdnlPacketError::SrcReinitDateTooNew.into());
             }
 
+            let known_reinit_date = peer.sender_state().reinit_date();
             if !peer.try_reinit_sender(peer_reinit_date) {
                 return Err(AdnlPacketError::SrcReinitDateTooOld.into());
             }
 
+            // Histories were reset, so packets of the old channel could be replayed
+            if known_reinit_date != 0 && known_reinit_date < peer_reinit_date {
+                self.remove_channel(local_id, &peer_id);
+            }
+
             if local_reinit_date != 0 && expected_local_reinit_date == Ordering::Less {
                 drop(peer);
 
-- 
2.43.0


From 652613944ca54e8f897761aef392da81d352abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 10/31] fix: number RLDP packets of each message part from zero

The source packets were taken from a queue regardless of the sequence
number they were sent with, and the window of acknowledged packets was not
reset at the start of the next part. After the window was full, packets
were sent with wrong symbol ids, and transfers with several parts could
underflow the window or never complete.
---
 src/rldp/encoder.rs           | 6 +++---
 src/rldp/outgoing_transfer.rs | 7 +++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/rldp/encoder.rs b/src/rldp/encoder.rs
index 00ed613..fb22752 100644
--- a/src/rldp/encoder.rs
+++ b/src/rldp/encoder.rs
@@ -16,7 +16,7 @@ impl RaptorQEncoder {
         let source_packets = engine
             .get_block_encoders()
             .iter()
-            .flat_map(|encoder| encoder.source_packets().into_iter().rev())
+            .flat_map(|encoder| encoder.source_packets())
             .collect::<Vec<_>>();
 
         Self {
@@ -32,8 +32,8 @@ impl RaptorQEncoder {
     }
 
     pub fn encode(&mut self, seqno: &mut u32) -> Result<Vec<u8>> {
-        let packet = if let Some(packet) = self.source_packets.pop() {
-            packet
+        let packet = if let Some(packet) = self.source_packets.get(*seqno as usize) {
+            packet.clone()
         } else {
             let encoders = self.engine.get_block_encoders();
             let packet = match encoders[self.encoder_index].repair_packets(*seqno, 1).pop() {
diff --git a/src/rldp/outgoing_transfer.rs b/src/rldp/outgoing_transfer.rs
index 5df3389..7643332 100644
--- a/src/rldp/outgoing_transfer.rs
+++ b/src/rldp/outgoing_transfer.rs
@@ -50,6 +50,7 @@ impl OutgoingTransfer {
         }
 
         self.current_message_part = part as u32;
+        self.state.reset_seqno();
 
         let chunk_size = std::cmp::min(total - processed, SLICE);
         let encoder = self.encoder.insert(RaptorQEncoder::with_data(
@@ -155,6 +156,12 @@ impl OutgoingTransferState {
         self.seqno_out.fetch_max(seqno, Ordering::Release);
     }
 
+    /// Each part has its own packets numbering
+    pub fn reset_seqno(&self) {
+        self.seqno_in.store(0, Ordering::Release);
+        self.seqno_out.store(0, Ordering::Release);
+    }
+
     pub fn seqno_in(&self) -> u32 {
         self.seqno_in.load(Ordering::Acquire)
     }
-- 
2.43.0


From f9a316ce74abf8cc3227f0522410596f0b8640f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:26 +0000
Subject: [PATCH 11/31] fix: clear RLDP transfers of cancelled queries

When the future of a query was dropped, both of its transfers stayed in the
cache forever together with the task receiving the answer.
---
 src/rldp/transfers_cache.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index d6cb17d..08f5a8d 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -5,7 +5,7 @@ use std::time::{Duration, Instant};
 use anyhow::Result;
 use parking_lot::Mutex;
 use tl_proto::{TlRead, TlWrite};
-use tokio::sync::mpsc;
+use tokio::sync::{mpsc, oneshot};
 
 use super::compression;
 use super::incoming_transfer::*;
@@ -83,6 +83,22 @@ impl TransfersCache {
             transfer_id: outgoing_transfer_id,
         };
 
+        // Clear transfers in background when this query ends or is cancelled
+        let (_query_guard, query_dropped) = oneshot::channel::<()>();
+        tokio::spawn({
+            let transfers = self.transfers.clone();
+            let interval = self.query_options.completion_interval();
+            async move {
+                query_dropped.await.ok();
+                transfers.insert(outgoing_transfer_id, RldpTransfer::Done);
+                transfers.insert(incoming_transfer_id, RldpTransfer::Done);
+
+                tokio::time::sleep(interval).await;
+                transfers.remove(&outgoing_transfer_id);
+                transfers.remove(&incoming_transfer_id);
+            }
+        });
+
         // Start query transfer loop
         let barrier = Arc::new(Mutex::new(None));
 
@@ -144,17 +160,6 @@ impl TransfersCache {
         self.transfers
             .insert(incoming_transfer_id, RldpTransfer::Done);
 
-        // Clear transfers in background
-        tokio::spawn({
-            let transfers = self.transfers.clone();
-            let interval = self.query_options.completion_interval();
-            async move {
-                tokio::time::sleep(interval).await;
-                transfers.remove(&outgoing_transfer_id);
-                transfers.remove(&incoming_transfer_id);
-            }
-        });
-
         // Done
         result
     }
-- 
2.43.0


From d2f96c61afcd4d7253986d0027f1986c04d81a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:26 +0000
Subject: [PATCH 12/31] fix: clear all transfers of incoming RLDP queries

The expiration task could put back the entry which was already removed, and
the entry of the answer was never removed when sending it failed.
---
 src/rldp/transfers_cache.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 08f5a8d..812d53e 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -336,7 +336,9 @@ impl TransfersCache {
         let interval = self.query_options.completion_interval();
         tokio::spawn(async move {
             tokio::time::sleep(interval).await;
-            transfers.insert(transfer_id, RldpTransfer::Done);
+            if let Some(mut transfer) = transfers.get_mut(&transfer_id) {
+                *transfer = RldpTransfer::Done;
+            }
         });
 
         // Done
@@ -450,7 +452,9 @@ impl IncomingContext {
         };
 
         // Send answer
-        outgoing_context.send(query_options, None).await?;
+        if let Err(e) = outgoing_context.send(query_options, None).await {
+            tracing::warn!("failed to send RLDP answer: {e}");
+        }
 
         // Done
         Ok(Some(outgoing_transfer_id))
-- 
2.43.0


From 674f3957c88325c70495f4cdea40b6764217cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 13/31] fix: reject invalid FEC params and packets

The RaptorQ decoder panics on parameters and symbols which do not fit
together. They are taken from remote messages as is, so any peer could cause
a panic in RLDP and overlay tasks.
---
 src/overlay/overlay.rs        |  4 ++--
 src/rldp/decoder.rs           | 35 ++++++++++++++++++++++++++++++++---
 src/rldp/incoming_transfer.rs |  4 +---
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 7a0769e..c8c4851 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -964,6 +964,8 @@ impl Overlay {
         peer_id: adnl::NodeIdShort,
         entry: VacantBroadcastEntry<'_>,
     ) -> Result<Arc<OwnedBroadcast>> {
+        let mut decoder = RaptorQDecoder::with_params(fec_type)?;
+
         let (broadcast_tx, mut broadcast_rx) = mpsc::unbounded_channel();
 
         let entry = entry
@@ -979,8 +981,6 @@ impl Overlay {
         // Spawn packets receiver
         let overlay = self.clone();
         tokio::spawn(async move {
-            let mut decoder = RaptorQDecoder::with_params(fec_type);
-
             // For each fec broadcast packet
             let mut packets = 0;
             while let Some(broadcast) = broadcast_rx.recv().await {
diff --git a/src/rldp/decoder.rs b/src/rldp/decoder.rs
index 984f22b..5c6340a 100644
--- a/src/rldp/decoder.rs
+++ b/src/rldp/decoder.rs
@@ -1,3 +1,4 @@
+use anyhow::Result;
 use everscale_raptorq::{Decoder, EncodingPacket, ObjectTransmissionInformation, PayloadId};
 
 use crate::proto::rldp::RaptorQFecType;
@@ -9,18 +10,32 @@ pub struct RaptorQDecoder {
 }
 
 impl RaptorQDecoder {
-    pub fn with_params(params: RaptorQFecType) -> Self {
-        Self {
+    pub fn with_params(params: RaptorQFecType) -> Result<Self> {
+        // NOTE: `Decoder` panics on invalid params
+        if params.total_len == 0
+            || !(MIN_PACKET_LEN..=MAX_PACKET_LEN).contains(&params.packet_len)
+            || params.packet_len % PACKET_ALIGNMENT != 0
+            || (params.total_len - 1) / params.packet_len >= MAX_SOURCE_SYMBOLS
+        {
+            return Err(DecoderError::InvalidParams.into());
+        }
+
+        Ok(Self {
             engine: Decoder::new(ObjectTransmissionInformation::with_defaults(
                 params.total_len as u64,
                 params.packet_len as u16,
             )),
             params,
             seqno: 0,
-        }
+        })
     }
 
     pub fn decode(&mut self, seqno: u32, data: Vec<u8>) -> Option<Vec<u8>> {
+        // NOTE: `Decoder` panics on invalid packets
+        if seqno > MAX_SEQNO || data.len() != self.params.packet_len as usize {
+            return None;
+        }
+
         let packet = EncodingPacket::new(PayloadId::new(0, seqno), data);
         self.seqno = seqno;
         self.engine.decode(packet)
@@ -34,3 +49,17 @@ impl RaptorQDecoder {
         self.seqno
     }
 }
+
+const PACKET_ALIGNMENT: u32 = 8;
+const MIN_PACKET_LEN: u32 = 64;
+const MAX_PACKET_LEN: u32 = 2048;
+/// Max number of source symbols in a single block
+const MAX_SOURCE_SYMBOLS: u32 = 56403;
+/// Symbol ids are 24-bit integers (with a reserve for padding symbols)
+const MAX_SEQNO: u32 = (1 << 24) - 1 - MAX_SOURCE_SYMBOLS;
+
+#[derive(thiserror::Error, Debug)]
+enum DecoderError {
+    #[error("Invalid FEC params")]
+    InvalidParams,
+}
diff --git a/src/rldp/incoming_transfer.rs b/src/rldp/incoming_transfer.rs
index 7607080..99f237b 100644
--- a/src/rldp/incoming_transfer.rs
+++ b/src/rldp/incoming_transfer.rs
@@ -78,9 +78,7 @@ impl IncomingTransfer {
                     return Err(IncomingTransferError::PacketParametersMismatch.into())
                 }
                 Some(decoder) => decoder,
-                None => self
-                    .decoder
-                    .get_or_insert_with(|| RaptorQDecoder::with_params(fec_type)),
+                None => self.decoder.insert(RaptorQDecoder::with_params(fec_type)?),
             },
             std::cmp::Ordering::Less => {
                 tl_proto::serialize_into(
-- 
2.43.0


From 4f0f8a7f98e5fafc5ddea4fdd3a3dd58274bcb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 14/31] fix: overflow on completion of the last possible RLDP
 part

The part number comes from a remote message.
---
 src/rldp/transfers_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rldp/transfers_cache.rs b/src/rldp/transfers_cache.rs
index 812d53e..82fef30 100644
--- a/src/rldp/transfers_cache.rs
+++ b/src/rldp/transfers_cache.rs
@@ -261,7 +261,9 @@ impl TransfersCache {
             proto::rldp::MessagePart::Complete { transfer_id, part } => {
                 if let Some(transfer) = self.transfers.get(transfer_id) {
                     if let RldpTransfer::Outgoing(state) = transfer.value() {
-                        state.set_part(part + 1);
+                        if let Some(next_part) = part.checked_add(1) {
+                            state.set_part(next_part);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 51611b016a3b67a2400c8415cd299de87e7f4ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:14 +0000
Subject: [PATCH 15/31] fix: count unanswered DHT queries as failures of the
 peer

---
 src/dht/node.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index ec0c8b0..11efd3f 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -454,7 +454,8 @@ impl Node {
         for<'a> A: TlRead<'a, Repr = tl_proto::Boxed> + 'static,
     {
         let result = self.adnl.query(&self.local_id, peer_id, query, None).await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
@@ -472,7 +473,8 @@ impl Node {
                 Some(self.options.query_timeout_ms),
             )
             .await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
@@ -489,7 +491,8 @@ impl Node {
             .adnl
             .query_with_prefix::<Q, A>(&self.local_id, peer_id, &self.query_prefix, query, None)
             .await;
-        self.state.update_peer_status(peer_id, result.is_ok());
+        self.state
+            .update_peer_status(peer_id, matches!(&result, Ok(Some(_))));
         result
     }
 
@@ -622,7 +625,7 @@ impl NodeState {
                     *entry.get_mut() += 2;
                 }
                 Entry::Vacant(entry) => {
-                    entry.insert(0);
+                    entry.insert(2);
                 }
             }
         }
-- 
2.43.0


From 225871e0c1d3ac61237ed4ee73aac43ba03e5d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 16/31] fix: don't forgive a DHT peer when others merely
 mention it

---
 src/dht/node.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 11efd3f..f3a1c2e 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -185,7 +185,11 @@ impl Node {
 
     /// Adds new peer to DHT or explicitly marks existing as good. Returns new peer short id
     pub fn add_dht_peer(&self, peer: proto::dht::NodeOwned) -> Result<Option<adnl::NodeIdShort>> {
-        self.state.add_dht_peer(&self.adnl, peer)
+        let result = self.state.add_dht_peer(&self.adnl, peer)?;
+        if let Some(peer_id) = &result {
+            self.state.set_good_peer(peer_id);
+        }
+        Ok(result)
     }
 
     /// Checks whether the specified peer was marked as bad
@@ -258,7 +262,8 @@ impl Node {
             match res {
                 Ok(nodes) => {
                     for node in nodes {
-                        node_count += self.add_dht_peer(node)?.is_some() as usize;
+                        node_count +=
+                            self.state.add_dht_peer(&self.adnl, node)?.is_some() as usize;
                     }
                 }
                 Err(e) => {
@@ -514,7 +519,7 @@ impl Node {
             }
             proto::dht::ValueResult::ValueNotFound(proto::dht::NodesOwned { nodes }) => {
                 for node in nodes {
-                    if let Err(e) = self.add_dht_peer(node) {
+                    if let Err(e) = self.state.add_dht_peer(&self.adnl, node) {
                         tracing::warn!("failed to add DHT peer: {e:?}");
                     }
                 }
@@ -607,8 +612,6 @@ impl NodeState {
         // Add new peer to the bucket
         if self.known_peers.insert(peer_id) {
             self.buckets.insert(&peer_id, peer);
-        } else {
-            self.set_good_peer(&peer_id);
         }
 
         Ok(Some(peer_id))
@@ -712,7 +715,10 @@ impl QuerySubscriber for NodeState {
                     return Err(DhtNodeError::UnexpectedQuery.into());
                 }
 
-                self.add_dht_peer(ctx.adnl, node.as_equivalent_owned())?;
+                let added = self.add_dht_peer(ctx.adnl, node.as_equivalent_owned())?;
+                if added.as_ref() == Some(ctx.peer_id) {
+                    self.set_good_peer(ctx.peer_id);
+                }
 
                 match self
                     .try_consume_query(ctx, constructor, Cow::Borrowed(&query[offset..]))
-- 
2.43.0


From b1df04098d7baed75ceca2e3ab1fb6d5e5f46810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 17/31] fix: don't let one bad record end the search for DHT
 nodes

---
 src/dht/node.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index f3a1c2e..726af60 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -262,8 +262,10 @@ impl Node {
             match res {
                 Ok(nodes) => {
                     for node in nodes {
-                        node_count +=
-                            self.state.add_dht_peer(&self.adnl, node)?.is_some() as usize;
+                        match self.state.add_dht_peer(&self.adnl, node) {
+                            Ok(added) => node_count += added.is_some() as usize,
+                            Err(e) => tracing::warn!(%peer_id, "failed to add DHT peer: {e:?}"),
+                        }
                     }
                 }
                 Err(e) => {
-- 
2.43.0


From b12b3d38fbd5987754b6bbc917950dce2df863eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 18/31] fix: verify values received from DHT peers against the
 requested key

---
 src/dht/entry.rs   |  2 +-
 src/dht/node.rs    | 21 +++++++++---
 src/dht/storage.rs | 79 +++++++++++++++++++++++++++-------------------
 src/dht/streams.rs |  6 +++-
 4 files changed, 70 insertions(+), 38 deletions(-)

diff --git a/src/dht/entry.rs b/src/dht/entry.rs
index 2d99158..f4cdda8 100644
--- a/src/dht/entry.rs
+++ b/src/dht/entry.rs
@@ -89,7 +89,7 @@ impl<'a> Entry<'a> {
         let query = tl_proto::serialize(proto::rpc::DhtFindValue { key: &key_id, k: 6 }).into();
 
         match self.dht.query_raw(peer_id, query).await? {
-            Some(result) => self.dht.parse_value_result(&result),
+            Some(result) => self.dht.parse_value_result(&key_id, &result),
             None => Ok(None),
         }
     }
diff --git a/src/dht/node.rs b/src/dht/node.rs
index 726af60..3e2634e 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -14,7 +14,7 @@ use tl_proto::{BoxedConstructor, BoxedWrapper, TlRead, TlWrite};
 use super::buckets::Buckets;
 use super::entry::Entry;
 use super::futures::StoreValue;
-use super::storage::{Storage, StorageOptions};
+use super::storage::{filter_overlay_nodes_value, Storage, StorageKeyId, StorageOptions};
 use super::{KEY_ADDRESS, KEY_NODES, MAX_DHT_PEERS};
 use crate::adnl;
 use crate::overlay;
@@ -505,6 +505,7 @@ impl Node {
 
     pub(super) fn parse_value_result<T>(
         &self,
+        key_id: &StorageKeyId,
         result: &[u8],
     ) -> Result<Option<(proto::dht::KeyDescriptionOwned, T)>>
     where
@@ -512,11 +513,21 @@ impl Node {
     {
         match tl_proto::deserialize::<proto::dht::ValueResult>(result)? {
             proto::dht::ValueResult::ValueFound(BoxedWrapper(mut value)) => {
-                if value.key.update_rule == proto::dht::UpdateRule::Signature {
-                    verify_signed_dht_value(&mut value)?;
+                // Peers must not answer with a value of some other key
+                if key_id != &tl_proto::hash_as_boxed(value.key.key) {
+                    return Err(DhtNodeError::InvalidValueKey.into());
                 }
 
-                let parsed = tl_proto::deserialize(value.value)?;
+                let parsed = match value.key.update_rule {
+                    proto::dht::UpdateRule::Signature => {
+                        verify_signed_dht_value(&mut value)?;
+                        tl_proto::deserialize(value.value)?
+                    }
+                    proto::dht::UpdateRule::OverlayNodes => {
+                        tl_proto::deserialize(&filter_overlay_nodes_value(value)?.value)?
+                    }
+                    _ => return Err(DhtNodeError::UnsupportedUpdateRule.into()),
+                };
                 Ok(Some((value.key.as_equivalent_owned(), parsed)))
             }
             proto::dht::ValueResult::ValueNotFound(proto::dht::NodesOwned { nodes }) => {
@@ -776,4 +787,6 @@ enum DhtNodeError {
     InvalidNodeCountLimit,
     #[error("Invalid value key")]
     InvalidValueKey,
+    #[error("Unsupported update rule")]
+    UnsupportedUpdateRule,
 }
diff --git a/src/dht/storage.rs b/src/dht/storage.rs
index 5c82479..a857afd 100644
--- a/src/dht/storage.rs
+++ b/src/dht/storage.rs
@@ -116,38 +116,7 @@ impl Storage {
     fn insert_overlay_nodes(&self, value: proto::dht::Value) -> Result<bool> {
         use dashmap::mapref::entry::Entry;
 
-        if !value.signature.is_empty() || !value.key.signature.is_empty() {
-            return Err(StorageError::InvalidSignatureValue.into());
-        }
-
-        let overlay_id = match value.key.id {
-            everscale_crypto::tl::PublicKey::Overlay { .. } => {
-                overlay::IdShort::from(tl_proto::hash(value.key.id))
-            }
-            _ => return Err(StorageError::InvalidKeyDescription.into()),
-        };
-
-        let required_key = proto::dht::Key {
-            id: overlay_id.as_slice(),
-            name: KEY_NODES.as_ref(),
-            idx: 0,
-        };
-        if value.key.key != required_key {
-            return Err(StorageError::InvalidDhtKey.into());
-        }
-
-        let mut new_nodes = deserialize_overlay_nodes(value.value)?;
-        new_nodes.retain(|node| {
-            if overlay_id.verify_overlay_node(node).is_err() {
-                tracing::warn!(?node, "bad overlay node");
-                false
-            } else {
-                true
-            }
-        });
-        if new_nodes.is_empty() {
-            return Err(StorageError::EmptyOverlayNodes.into());
-        }
+        let new_nodes = verify_overlay_nodes(&value)?;
 
         let key = tl_proto::hash_as_boxed(value.key.key);
         match self.storage.entry(key) {
@@ -171,6 +140,52 @@ impl Storage {
     }
 }
 
+/// Checks overlay nodes value and returns its valid nodes
+fn verify_overlay_nodes<'a>(
+    value: &proto::dht::Value<'a>,
+) -> Result<SmallVec<[proto::overlay::Node<'a>; 5]>> {
+    if !value.signature.is_empty() || !value.key.signature.is_empty() {
+        return Err(StorageError::InvalidSignatureValue.into());
+    }
+
+    let overlay_id = match value.key.id {
+        everscale_crypto::tl::PublicKey::Overlay { .. } => {
+            overlay::IdShort::from(tl_proto::hash(value.key.id))
+        }
+        _ => return Err(StorageError::InvalidKeyDescription.into()),
+    };
+
+    let required_key = proto::dht::Key {
+        id: overlay_id.as_slice(),
+        name: KEY_NODES.as_ref(),
+        idx: 0,
+    };
+    if value.key.key != required_key {
+        return Err(StorageError::InvalidDhtKey.into());
+    }
+
+    let mut nodes = deserialize_overlay_nodes(value.value)?;
+    nodes.retain(|node| {
+        if overlay_id.verify_overlay_node(node).is_err() {
+            tracing::warn!(?node, "bad overlay node");
+            false
+        } else {
+            true
+        }
+    });
+    if nodes.is_empty() {
+        return Err(StorageError::EmptyOverlayNodes.into());
+    }
+
+    Ok(nodes)
+}
+
+/// Checks overlay nodes value received from someone and leaves only valid nodes in it
+pub fn filter_overlay_nodes_value(value: proto::dht::Value<'_>) -> Result<proto::dht::ValueOwned> {
+    let nodes = verify_overlay_nodes(&value)?;
+    Ok(make_overlay_nodes_value(value, nodes, None))
+}
+
 // Merges old and new overlay nodes and returns updated value
 fn make_overlay_nodes_value<const N: usize>(
     value: proto::dht::Value<'_>,
diff --git a/src/dht/streams.rs b/src/dht/streams.rs
index dbff243..a250e6b 100644
--- a/src/dht/streams.rs
+++ b/src/dht/streams.rs
@@ -10,12 +10,14 @@ use tl_proto::TlRead;
 
 use super::node::Node;
 use super::peers_iter::PeersIter;
+use super::storage::StorageKeyId;
 use crate::proto;
 
 /// Stream for the `DhtNode::values` method.
 #[must_use = "streams do nothing unless polled"]
 pub struct DhtValuesStream<T> {
     dht: Arc<Node>,
+    key_id: StorageKeyId,
     query: Bytes,
     batch_len: Option<usize>,
     known_peers_version: u64,
@@ -43,6 +45,7 @@ where
 
         Self {
             dht,
+            key_id,
             query,
             batch_len,
             known_peers_version,
@@ -70,11 +73,12 @@ where
         // Spawn at most `max_tasks` queries
         while let Some(peer_id) = self.peers_iter.next() {
             let dht = self.dht.clone();
+            let key_id = self.key_id;
             let query = self.query.clone();
 
             self.futures.push(Box::pin(async move {
                 match dht.query_raw(&peer_id, query).await {
-                    Ok(Some(result)) => match dht.parse_value_result::<T>(&result) {
+                    Ok(Some(result)) => match dht.parse_value_result::<T>(&key_id, &result) {
                         Ok(Some(value)) => Some(value),
                         Ok(None) => None,
                         Err(e) => {
-- 
2.43.0


From 9879079a0a002f896a0b1327f175c90b13108bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 19/31] fix: end the search for overlay nodes without known
 addresses

---
 src/dht/node.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 3e2634e..d4d0f85 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -286,9 +286,8 @@ impl Node {
         overlay_id: &overlay::IdShort,
     ) -> Result<Vec<(SocketAddrV4, proto::overlay::NodeOwned)>> {
         let mut result = Vec::new();
-        let mut nodes = Vec::new();
         let mut cache = FastHashSet::default();
-        loop {
+        for _ in 0..MAX_OVERLAY_SEARCH_ROUNDS {
             // Receive several nodes records
             let received = self
                 .entry(overlay_id, KEY_NODES)
@@ -303,13 +302,8 @@ impl Node {
 
             let mut futures = FuturesUnordered::new();
 
-            // Spawn IP resolution tasks.
-            // It combines received nodes with nodes from the previous iteration
-            for node in received
-                .into_iter()
-                .flatten()
-                .chain(std::mem::take(&mut nodes).into_iter())
-            {
+            // Spawn IP resolution tasks
+            for node in received.into_iter().flatten() {
                 let peer_id = match adnl::NodeIdFull::try_from(node.id.as_equivalent_ref())
                     .map(|full_id| full_id.compute_short_id())
                 {
@@ -327,14 +321,16 @@ impl Node {
                 });
             }
 
+            // Stop if there is nothing left to resolve
+            if futures.is_empty() {
+                break;
+            }
+
             // Wait all results
             while let Some((ip, node)) = futures.next().await {
-                match ip {
-                    // Add nodes with ips to result
-                    Some(ip) => result.push((ip, node)),
-                    // Prepare nodes for the next iteration in case we haven't found any yet
-                    None if result.is_empty() => nodes.push(node),
-                    _ => {}
+                // Add nodes with ips to result
+                if let Some(ip) = ip {
+                    result.push((ip, node));
                 }
             }
 
@@ -775,6 +771,9 @@ pub struct NodeMetrics {
     pub storage_total_size: usize,
 }
 
+/// Max number of attempts to find at least one overlay node with a known address
+const MAX_OVERLAY_SEARCH_ROUNDS: usize = 5;
+
 type Penalties = FastDashMap<adnl::NodeIdShort, usize>;
 
 #[derive(thiserror::Error, Debug)]
-- 
2.43.0


From 7368951497d8636d3ad5f28b9a16e35a9454fd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:08 +0000
Subject: [PATCH 20/31] fix: don't skip newly found peers during DHT lookups

---
 src/dht/peers_iter.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/dht/peers_iter.rs b/src/dht/peers_iter.rs
index b755a9e..330d74a 100644
--- a/src/dht/peers_iter.rs
+++ b/src/dht/peers_iter.rs
@@ -60,16 +60,14 @@ impl PeersIter {
 
     fn next_known_peer(&mut self, dht: &Node) -> Option<adnl::NodeIdShort> {
         loop {
-            let peer_id = dht.known_peers().get(self.index);
+            // NOTE: index must not be moved past the end, because
+            // more peers can be added there before the next fill
+            let peer_id = dht.known_peers().get(self.index)?;
             self.index += 1;
 
-            if let Some(peer) = &peer_id {
-                if dht.is_bad_peer(peer) {
-                    continue;
-                }
+            if !dht.is_bad_peer(&peer_id) {
+                break Some(peer_id);
             }
-
-            break peer_id;
         }
     }
 }
-- 
2.43.0


From f49a7a8c5488cc6a9f345c484ca429e855616ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 21/31] fix: don't replace the address of a DHT peer by an
 older record

---
 src/dht/buckets.rs |  7 +++++++
 src/dht/node.rs    | 12 ++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/dht/buckets.rs b/src/dht/buckets.rs
index 4d090d2..2124ec1 100644
--- a/src/dht/buckets.rs
+++ b/src/dht/buckets.rs
@@ -23,6 +23,13 @@ impl Buckets {
         self.buckets.iter()
     }
 
+    /// Returns version of the known DHT node record
+    pub fn get_version(&self, peer_id: &adnl::NodeIdShort) -> Option<u32> {
+        let affinity = get_affinity(&self.local_id, peer_id.borrow());
+        let peer = self.buckets[affinity as usize].get(peer_id)?;
+        Some(peer.version)
+    }
+
     /// Inserts DHT node into the bucket based on its distance
     pub fn insert(&self, peer_id: &adnl::NodeIdShort, peer: proto::dht::NodeOwned) {
         use dashmap::mapref::entry::Entry;
diff --git a/src/dht/node.rs b/src/dht/node.rs
index d4d0f85..9ae2e21 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -606,6 +606,11 @@ impl NodeState {
         let peer_id = peer_id_full.compute_short_id();
         let peer_addr = parse_address_list(&peer.addr_list, adnl.options().clock_tolerance_sec)?;
 
+        // Ignore outdated records
+        if matches!(self.buckets.get_version(&peer_id), Some(version) if version > peer.version) {
+            return Ok(None);
+        }
+
         // Add new ADNL peer
         let is_new_peer = adnl.add_peer(
             adnl::NewPeerContext::Dht,
@@ -618,10 +623,9 @@ impl NodeState {
             return Ok(None);
         }
 
-        // Add new peer to the bucket
-        if self.known_peers.insert(peer_id) {
-            self.buckets.insert(&peer_id, peer);
-        }
+        // Add new peer to the bucket or update its record
+        self.known_peers.insert(peer_id);
+        self.buckets.insert(&peer_id, peer);
 
         Ok(Some(peer_id))
     }
-- 
2.43.0


From 1119e44573187134b0f0431c40ef293e2d3624b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:12 +0000
Subject: [PATCH 22/31] fix: merge overlay nodes regardless of the lifetime of
 their lists

---
 src/dht/storage.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dht/storage.rs b/src/dht/storage.rs
index a857afd..2a4ac5f 100644
--- a/src/dht/storage.rs
+++ b/src/dht/storage.rs
@@ -113,7 +113,7 @@ impl Storage {
     /// Special case of inserting overlay nodes value.
     ///
     /// It requires empty signatures and special update rule
-    fn insert_overlay_nodes(&self, value: proto::dht::Value) -> Result<bool> {
+    fn insert_overlay_nodes(&self, mut value: proto::dht::Value) -> Result<bool> {
         use dashmap::mapref::entry::Entry;
 
         let new_nodes = verify_overlay_nodes(&value)?;
@@ -123,9 +123,13 @@ impl Storage {
             Entry::Occupied(mut entry) => {
                 let value = {
                     let old_nodes = match entry.get().ttl {
-                        old_ttl if old_ttl < now() => None,
-                        old_ttl if old_ttl > value.ttl => return Ok(false),
-                        _ => Some(deserialize_overlay_nodes(&entry.get().value)?),
+                        old_ttl if old_ttl <= now() => None,
+                        old_ttl => {
+                            // Nodes are merged, so that the value must live as long as
+                            // the longest of the two
+                            value.ttl = std::cmp::max(value.ttl, old_ttl);
+                            Some(deserialize_overlay_nodes(&entry.get().value)?)
+                        }
                     };
                     make_overlay_nodes_value(value, new_nodes, old_nodes)
                 };
-- 
2.43.0


From cf16932dc1f307ab7a22a459b1ee96084965a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 23/31] fix: cancelled waiters must not lose overlay broadcasts
 or wake-ups

---
 src/overlay/broadcast_receiver.rs | 56 +++++++++++++++----------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/overlay/broadcast_receiver.rs b/src/overlay/broadcast_receiver.rs
index 52b9f45..60f6a34 100644
--- a/src/overlay/broadcast_receiver.rs
+++ b/src/overlay/broadcast_receiver.rs
@@ -1,13 +1,14 @@
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Arc;
 
 use crossbeam_queue::SegQueue;
-use tokio::sync::Barrier;
+use tokio::sync::Semaphore;
 
 pub struct BroadcastReceiver<T> {
     data: SegQueue<T>,
-    barriers: SegQueue<Arc<Barrier>>,
-    sync_lock: AtomicU32,
+    /// Contains one permit for each item in the queue
+    available: Semaphore,
+    waiters: AtomicUsize,
 }
 
 impl<T: Send + 'static> BroadcastReceiver<T> {
@@ -16,37 +17,34 @@ impl<T: Send + 'static> BroadcastReceiver<T> {
     }
 
     pub fn barriers_len(&self) -> usize {
-        self.barriers.len()
+        self.waiters.load(Ordering::Acquire)
     }
 
     pub fn push(self: &Arc<Self>, data: T) {
         self.data.push(data);
-        let receiver = self.clone();
-        tokio::spawn(async move {
-            while receiver.sync_lock.load(Ordering::Acquire) > 0 {
-                if let Some(barrier) = receiver.barriers.pop() {
-                    barrier.wait().await;
-                    break;
-                } else {
-                    tokio::task::yield_now().await;
-                }
-            }
-        });
+        self.available.add_permits(1);
     }
 
+    /// NOTE: this method is cancel safe
     pub async fn pop(&self) -> T {
-        self.sync_lock.fetch_add(1, Ordering::Release);
+        struct Waiter<'a>(&'a AtomicUsize);
+
+        impl Drop for Waiter<'_> {
+            fn drop(&mut self) {
+                self.0.fetch_sub(1, Ordering::Release);
+            }
+        }
+
+        self.waiters.fetch_add(1, Ordering::Release);
+        let _waiter = Waiter(&self.waiters);
+
         loop {
-            match self.data.pop() {
-                Some(data) => {
-                    self.sync_lock.fetch_sub(1, Ordering::Release);
-                    return data;
-                }
-                None => {
-                    let barrier = Arc::new(Barrier::new(2));
-                    self.barriers.push(barrier.clone());
-                    barrier.wait().await;
-                }
+            // NOTE: semaphore is never closed
+            let permit = self.available.acquire().await.unwrap();
+            permit.forget();
+
+            if let Some(data) = self.data.pop() {
+                return data;
             }
         }
     }
@@ -56,8 +54,8 @@ impl<T> Default for BroadcastReceiver<T> {
     fn default() -> Self {
         Self {
             data: Default::default(),
-            barriers: Default::default(),
-            sync_lock: Default::default(),
+            available: Semaphore::new(0),
+            waiters: Default::default(),
         }
     }
 }
-- 
2.43.0


From a300f23fba70e85f6b4c2cbfd835d8bf16342cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 24/31] fix: broadcast date near the end of its range must not
 overflow

---
 src/overlay/overlay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index c8c4851..5b75beb 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -1130,7 +1130,7 @@ impl Overlay {
     }
 
     fn is_broadcast_outdated(&self, date: u32) -> bool {
-        date + (self.options.broadcast_timeout_sec as u32) < now()
+        date.saturating_add(self.options.broadcast_timeout_sec as u32) < now()
     }
 
     fn spawn_broadcast_gc_task(self: &Arc<Self>, broadcast_id: BroadcastId) {
-- 
2.43.0


From 203703576ebedf087c6d2a1ce5475f03e244ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 25/31] fix: peer removed from a public overlay must not stay
 among its neighbours

---
 src/adnl/peers_set.rs  | 24 ++++++++++++++++++++++++
 src/overlay/overlay.rs |  2 +-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/adnl/peers_set.rs b/src/adnl/peers_set.rs
index a1fc7b8..a82ee52 100644
--- a/src/adnl/peers_set.rs
+++ b/src/adnl/peers_set.rs
@@ -127,6 +127,11 @@ impl PeersSet {
         self.state.write().insert(peer_id)
     }
 
+    /// Removes a value from the set. Returns whether the value was present in the set.
+    pub fn remove(&self, peer_id: &NodeIdShort) -> bool {
+        self.state.write().remove(peer_id)
+    }
+
     pub fn extend<I>(&self, peers: I)
     where
         I: IntoIterator<Item = NodeIdShort>,
@@ -302,6 +307,25 @@ impl PeersSetState {
 
         true
     }
+
+    fn remove(&mut self, peer_id: &NodeIdShort) -> bool {
+        let index = match self.cache.remove(Wrapper::wrap(peer_id)) {
+            Some(index) => index,
+            None => return false,
+        };
+        self.version += 1;
+
+        // Move the last peer to the released slot
+        self.index.swap_remove(index as usize);
+        if let Some(moved) = self.index.get(index as usize) {
+            self.cache.insert(moved.clone(), index);
+        }
+
+        // There is at least one free slot now, so the next peer will be added to the end
+        self.upper = self.index.len() as u32;
+
+        true
+    }
 }
 
 // SAFETY: internal Rcs are not exposed by the api and the reference
diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 5b75beb..db74e40 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -315,7 +315,7 @@ impl Overlay {
             return false;
         }
         tracing::warn!(overlay_id = %self.id, %peer_id, "removing public overlay peer");
-        if self.neighbours.contains(peer_id) {
+        if self.neighbours.remove(peer_id) {
             self.update_neighbours(self.options.max_neighbours);
         }
         true
-- 
2.43.0


From 7867965cce7b9c9fef8f97de2a5d1bc8c875b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 26/31] fix: forged part must not affect bookkeeping or
 redistribution of a FEC broadcast

---
 src/overlay/overlay.rs | 49 ++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index db74e40..94484a9 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -626,10 +626,8 @@ impl Overlay {
         let node_id = adnl::NodeIdFull::try_from(broadcast.src)?;
         let source = node_id.compute_short_id();
 
-        let signature = match broadcast.signature.len() {
-            64 => broadcast.signature.try_into().unwrap(),
-            _ => return Err(OverlayError::UnsupportedSignature.into()),
-        };
+        // NOTE: must be checked first, because nothing can be affected by a forged part
+        verify_fec_broadcast_part(&broadcast, &node_id, &source)?;
 
         let transfer = match self.owned_broadcasts.entry(broadcast_id) {
             // First packet of the broadcast
@@ -662,15 +660,10 @@ impl Overlay {
         // Send broadcast to the processing queue
         if !transfer.completed.load(Ordering::Acquire) {
             transfer.broadcast_tx.send(BroadcastFec {
-                node_id,
                 data_hash: broadcast_id,
                 data_size: broadcast.data_size,
-                flags: broadcast.flags,
                 data: broadcast.data.to_vec(),
                 seqno: broadcast.seqno,
-                fec_type: broadcast.fec,
-                date: broadcast.date,
-                signature,
             })?;
         }
 
@@ -1221,29 +1214,38 @@ pub struct OverlayMetrics {
     pub received_broadcasts_barrier_count: usize,
 }
 
-fn process_fec_broadcast(
-    decoder: &mut RaptorQDecoder,
-    broadcast: BroadcastFec,
-) -> Result<Option<Vec<u8>>> {
-    let broadcast_id = &broadcast.data_hash;
+fn verify_fec_broadcast_part(
+    broadcast: &proto::overlay::OverlayBroadcastFec<'_>,
+    node_id: &adnl::NodeIdFull,
+    source: &adnl::NodeIdShort,
+) -> Result<()> {
+    if broadcast.signature.len() != 64 {
+        return Err(OverlayError::UnsupportedSignature.into());
+    }
 
     let broadcast_to_sign = &make_fec_part_to_sign(
-        broadcast_id,
+        broadcast.data_hash,
         broadcast.data_size,
         broadcast.date,
         broadcast.flags,
-        &broadcast.fec_type,
-        &broadcast.data,
+        &broadcast.fec,
+        broadcast.data,
         broadcast.seqno,
         if broadcast.flags & BROADCAST_FLAG_ANY_SENDER == 0 {
-            Some(broadcast.node_id.compute_short_id())
+            Some(*source)
         } else {
             None
         },
     );
-    broadcast
-        .node_id
-        .verify(broadcast_to_sign, &broadcast.signature)?;
+    node_id.verify(broadcast_to_sign, broadcast.signature)?;
+    Ok(())
+}
+
+fn process_fec_broadcast(
+    decoder: &mut RaptorQDecoder,
+    broadcast: BroadcastFec,
+) -> Result<Option<Vec<u8>>> {
+    let broadcast_id = &broadcast.data_hash;
 
     match decoder.decode(broadcast.seqno, broadcast.data) {
         Some(result) if result.len() != broadcast.data_size as usize => {
@@ -1377,15 +1379,10 @@ enum OwnedBroadcast {
 
 #[derive(Debug)]
 struct BroadcastFec {
-    node_id: adnl::NodeIdFull,
     data_hash: BroadcastId,
     data_size: u32,
-    flags: u32,
     data: Vec<u8>,
     seqno: u32,
-    fec_type: proto::rldp::RaptorQFecType,
-    date: u32,
-    signature: [u8; 64],
 }
 
 type VacantBroadcastEntry<'a> =
-- 
2.43.0


From a254f553acd357644ae04510c1fc0f13fb4048b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 27/31] fix: FEC broadcast must not be suppressed by parts from
 another source

---
 src/overlay/overlay.rs | 47 ++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/overlay/overlay.rs b/src/overlay/overlay.rs
index 94484a9..7ac5376 100644
--- a/src/overlay/overlay.rs
+++ b/src/overlay/overlay.rs
@@ -629,11 +629,21 @@ impl Overlay {
         // NOTE: must be checked first, because nothing can be affected by a forged part
         verify_fec_broadcast_part(&broadcast, &node_id, &source)?;
 
-        let transfer = match self.owned_broadcasts.entry(broadcast_id) {
+        // NOTE: parts from different sources are collected separately
+        let transfer_id = compute_fec_transfer_id(&broadcast_id, &source);
+        let is_known_data = self.owned_broadcasts.contains_key(&broadcast_id);
+
+        let transfer = match self.owned_broadcasts.entry(transfer_id) {
+            // Same data was already sent by this node or received from the other source
+            Entry::Vacant(_) if is_known_data => return Ok(()),
             // First packet of the broadcast
-            Entry::Vacant(entry) => {
-                self.spawn_fec_transfer_receiver(broadcast.fec, broadcast_id, source, entry)?
-            }
+            Entry::Vacant(entry) => self.spawn_fec_transfer_receiver(
+                broadcast.fec,
+                broadcast_id,
+                transfer_id,
+                source,
+                entry,
+            )?,
             // Broadcast was already started
             Entry::Occupied(entry) => entry.get().clone(),
         };
@@ -643,14 +653,6 @@ impl Overlay {
         };
 
         transfer.updated_at.refresh();
-        if transfer.source != source {
-            tracing::trace!(
-                overlay_id = %self.id,
-                broadcast_id = %DisplayBroadcastId(&broadcast_id),
-                "same broadcast but parts from different sources"
-            );
-            return Ok(());
-        }
 
         // Ignore duplicate packets
         if !transfer.history.deliver_packet(broadcast.seqno as u64) {
@@ -954,6 +956,7 @@ impl Overlay {
         self: &Arc<Self>,
         fec_type: proto::rldp::RaptorQFecType,
         broadcast_id: BroadcastId,
+        transfer_id: BroadcastId,
         peer_id: adnl::NodeIdShort,
         entry: VacantBroadcastEntry<'_>,
     ) -> Result<Arc<OwnedBroadcast>> {
@@ -966,7 +969,6 @@ impl Overlay {
                 completed: AtomicBool::new(false),
                 history: PacketsHistory::for_recv(),
                 broadcast_tx,
-                source: peer_id,
                 updated_at: Default::default(),
             })))
             .clone();
@@ -988,7 +990,10 @@ impl Overlay {
                             data,
                             from: peer_id,
                         };
-                        overlay.received_broadcasts.push(data);
+                        if overlay.create_broadcast(broadcast_id) {
+                            overlay.received_broadcasts.push(data);
+                            overlay.spawn_broadcast_gc_task(broadcast_id);
+                        }
                         break;
                     }
                     // Broadcast is not complete yet
@@ -1006,7 +1011,7 @@ impl Overlay {
             }
 
             // Mark broadcast as completed
-            if let Some(broadcast) = overlay.owned_broadcasts.get(&broadcast_id) {
+            if let Some(broadcast) = overlay.owned_broadcasts.get(&transfer_id) {
                 match broadcast.value().as_ref() {
                     OwnedBroadcast::Incoming(transfer) => {
                         transfer.completed.store(true, Ordering::Release);
@@ -1030,7 +1035,7 @@ impl Overlay {
                 tokio::time::sleep(Duration::from_millis(broadcast_timeout_sec * 100)).await;
 
                 // Find incoming broadcast
-                if let Some(broadcast) = overlay.owned_broadcasts.get(&broadcast_id) {
+                if let Some(broadcast) = overlay.owned_broadcasts.get(&transfer_id) {
                     match broadcast.value().as_ref() {
                         // Keep waiting if broadcast is not expired or not complete
                         OwnedBroadcast::Incoming(transfer)
@@ -1053,7 +1058,7 @@ impl Overlay {
                 break;
             }
 
-            overlay.spawn_broadcast_gc_task(broadcast_id);
+            overlay.spawn_broadcast_gc_task(transfer_id);
         });
 
         Ok(entry)
@@ -1214,6 +1219,13 @@ pub struct OverlayMetrics {
     pub received_broadcasts_barrier_count: usize,
 }
 
+fn compute_fec_transfer_id(broadcast_id: &BroadcastId, source: &adnl::NodeIdShort) -> BroadcastId {
+    let mut hash = sha2::Sha256::new();
+    hash.update(broadcast_id);
+    hash.update(source.as_slice());
+    hash.finalize().into()
+}
+
 fn verify_fec_broadcast_part(
     broadcast: &proto::overlay::OverlayBroadcastFec<'_>,
     node_id: &adnl::NodeIdFull,
@@ -1362,7 +1374,6 @@ struct IncomingFecTransfer {
     completed: AtomicBool,
     history: PacketsHistory,
     broadcast_tx: BroadcastFecTx,
-    source: adnl::NodeIdShort,
     updated_at: UpdatedAt,
 }
 
-- 
2.43.0


From d0403ad78e53a5cc3444ab4e24935a176d1b43fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 28/31] fix: don't mix parts of the same message sent by
 different peers

---
 src/adnl/node/mod.rs      |  4 +++-
 src/adnl/node/receiver.rs | 10 ++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/adnl/node/mod.rs b/src/adnl/node/mod.rs
index 3d27684..840df31 100644
--- a/src/adnl/node/mod.rs
+++ b/src/adnl/node/mod.rs
@@ -133,7 +133,9 @@ pub struct Node {
     channels_by_peers: FastDashMap<(NodeIdShort, NodeIdShort), Arc<Channel>>,
 
     /// Pending transfers of large messages that were split
-    incoming_transfers: Arc<FastDashMap<TransferId, Arc<Transfer>>>,
+    ///
+    /// Local id, peer id and transfer id => transfer
+    incoming_transfers: Arc<FastDashMap<(NodeIdShort, NodeIdShort, TransferId), Arc<Transfer>>>,
 
     /// Pending queries
     queries: Arc<QueriesCache>,
diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index d4d0a0a..9543cf7 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -194,7 +194,9 @@ impl Node {
         } = message
         {
             let transfer_id = *hash;
-            let transfer = match self.incoming_transfers.entry(transfer_id) {
+            // NOTE: different peers can send the same message split in different ways
+            let transfer_key = (*local_id, *peer_id, transfer_id);
+            let transfer = match self.incoming_transfers.entry(transfer_key) {
                 // Create new transfer state if it was a new incoming transfer
                 Entry::Vacant(entry) => {
                     let entry = entry.insert(Arc::new(Transfer::new(total_size as usize)));
@@ -221,7 +223,7 @@ impl Node {
 
                                 // Don't touch a newer transfer with the same id
                                 if incoming_transfers
-                                    .remove_if(&transfer_id, |_, current| {
+                                    .remove_if(&transfer_key, |_, current| {
                                         Arc::ptr_eq(current, &transfer)
                                     })
                                     .is_some()
@@ -248,11 +250,11 @@ impl Node {
             // Update transfer
             match transfer.add_part(offset as usize, data.to_vec(), &transfer_id) {
                 Ok(Some(message)) => {
-                    self.incoming_transfers.remove(&transfer_id);
+                    self.incoming_transfers.remove(&transfer_key);
                     Some(message)
                 }
                 Err(error) => {
-                    self.incoming_transfers.remove(&transfer_id);
+                    self.incoming_transfers.remove(&transfer_key);
                     return Err(error.into());
                 }
                 _ => return Ok(()),
-- 
2.43.0


From 0911372c8999d9e8ffcf9053446b2c5a3df19612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:46 +0000
Subject: [PATCH 29/31] fix: reject nested dht.query prefixes

Each nested prefix was consumed by a recursive call, so a single query with
several thousand of them overflowed the stack and aborted the process.
---
 src/dht/node.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dht/node.rs b/src/dht/node.rs
index 9ae2e21..c3dde59 100644
--- a/src/dht/node.rs
+++ b/src/dht/node.rs
@@ -724,7 +724,8 @@ impl QuerySubscriber for NodeState {
                 let proto::rpc::DhtQuery { node } = <_>::read_from(&query, &mut offset)?;
                 let constructor = u32::read_from(&query, &mut std::convert::identity(offset))?;
 
-                if offset >= query.len() {
+                // NOTE: a nested prefix would be processed recursively
+                if offset >= query.len() || constructor == proto::rpc::DhtQuery::TL_ID {
                     return Err(DhtNodeError::UnexpectedQuery.into());
                 }
 
-- 
2.43.0


From 986068552f092820268f36b68a6ae8930cbfd151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 30/31] fix: keep numbering packets when a peer restarts

Ordinary packets that don't name the peer's reinit date are accepted by a
restarted peer. When an older reinit date of that peer was then learned from a
delayed packet, learning the new one reset the seqno, and everything up to
the already delivered number was dropped as repeated.
---
 src/adnl/peer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/adnl/peer.rs b/src/adnl/peer.rs
index 6c5cb7c..96c5f58 100644
--- a/src/adnl/peer.rs
+++ b/src/adnl/peer.rs
@@ -45,7 +45,8 @@ impl Peer {
             std::cmp::Ordering::Greater => {
                 self.sender_state.set_reinit_date(reinit_date);
                 if sender_reinit_date != 0 {
-                    self.sender_state.history(false).reset();
+                    // NOTE: ordinary packets without a known peer reinit date could already be
+                    // delivered to the restarted peer, so their numbers must not be reused
                     self.sender_state.history(true).reset();
                     self.receiver_state.history(false).reset();
                     self.receiver_state.history(true).reset();
-- 
2.43.0


From 506405302f7760202f1becde1b00635e579e46e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:19 +0000
Subject: [PATCH 31/31] fix: a message that fails to be processed must not
 discard the rest of its packet

---
 src/adnl/node/receiver.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/adnl/node/receiver.rs b/src/adnl/node/receiver.rs
index 9543cf7..d9e8f2c 100644
--- a/src/adnl/node/receiver.rs
+++ b/src/adnl/node/receiver.rs
@@ -159,15 +159,21 @@ impl Node {
 
         // Process message(s)
         for message in packet.messages {
-            self.process_message(
-                &local_id,
-                &peer_id,
-                message,
-                message_subscribers,
-                query_subscribers,
-                priority,
-            )
-            .await?;
+            let result = self
+                .process_message(
+                    &local_id,
+                    &peer_id,
+                    message,
+                    message_subscribers,
+                    query_subscribers,
+                    priority,
+                )
+                .await;
+
+            // NOTE: messages are independent, one failure must not affect the remaining ones
+            if let Err(error) = result {
+                tracing::trace!(%local_id, %peer_id, ?error, "failed to process message");
+            }
         }
 
         // Done
-- 
2.43.0

