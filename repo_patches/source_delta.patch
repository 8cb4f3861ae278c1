From fbf5247d569ff049a1c2996d832017e448e3f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 01/25] fix: accept remaining lengths encoded in four bytes

decode_remaining_length checked the multiplier before looking at the
continuation bit and so rejected every legal four byte length.
---
 src/mqtt/transport/packet_decoder.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 1628c84..86e7757 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -49,6 +49,12 @@ pub async fn decode_remaining_length(buffer: &mut MqttBytesReadStream) -> Result
     loop {
         let byte = buffer.get_u8().await?;
         remaining_length += (byte & 127) as u64 * multiplier;
+
+        let continuation_bit = byte & 128;
+        if continuation_bit == 0 {
+            break;
+        }
+
         multiplier *= 128;
 
         if multiplier > 128 * 128 * 128 {
@@ -57,11 +63,6 @@ pub async fn decode_remaining_length(buffer: &mut MqttBytesReadStream) -> Result
                 "Malformed remaining length multiplier",
             ));
         }
-
-        let continuation_bit = byte & 128;
-        if continuation_bit == 0 {
-            break;
-        }
     }
 
     Ok(remaining_length)
-- 
2.43.0


From f0bc6710874ad2a0e466b2af0f102125aaf82643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 02/25] fix: do not spin when a stream buffer has no capacity
 left

split_to and advance shrink the capacity of BytesMut. Once it was 0,
get_bytes and put_bytes moved 0 bytes per iteration and never ended,
e.g. while reading a payload larger than the read buffer.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index df07b2b..8681f1b 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -75,8 +75,10 @@ impl MqttBytesStream {
         while remaining_length > 0 {
             // todo: use clamp when stabilized
             let wait_for_bytes = {
-                if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
+                // the capacity shrinks to 0 when the buffer is drained
+                let capacity = self.read_buffer.capacity().max(1);
+                if remaining_length > capacity {
+                    capacity
                 } else {
                     remaining_length
                 }
@@ -144,8 +146,10 @@ impl MqttBytesStream {
 
         while remaining_size > 0 {
             let bytes_to_write = {
-                if remaining_size > self.write_buffer.capacity() {
-                    self.write_buffer.capacity()
+                // the capacity shrinks to 0 when the buffer is drained
+                let capacity = self.write_buffer.capacity().max(1);
+                if remaining_size > capacity {
+                    capacity
                 } else {
                     remaining_size
                 }
@@ -223,8 +227,10 @@ impl MqttBytesReadStream {
         while remaining_length > 0 {
             // todo: use clamp when stabilized
             let wait_for_bytes = {
-                if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
+                // the capacity shrinks to 0 when the buffer is drained
+                let capacity = self.read_buffer.capacity().max(1);
+                if remaining_length > capacity {
+                    capacity
                 } else {
                     remaining_length
                 }
@@ -299,8 +305,10 @@ impl MqttBytesWriteStream {
 
         while remaining_size > 0 {
             let bytes_to_write = {
-                if remaining_size > self.write_buffer.capacity() {
-                    self.write_buffer.capacity()
+                // the capacity shrinks to 0 when the buffer is drained
+                let capacity = self.write_buffer.capacity().max(1);
+                if remaining_size > capacity {
+                    capacity
                 } else {
                     remaining_size
                 }
-- 
2.43.0


From daf3bdc52693ddc828c424541808662671967a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 03/25] fix: write all buffered bytes when finishing a packet

write_buf may write only a part of the buffer; the rest stayed there
until some later packet was written.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index 8681f1b..5276291 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -165,7 +165,7 @@ impl MqttBytesStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.tcp_stream.write_buf(&mut self.write_buffer).await?;
+        self.tcp_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
@@ -324,7 +324,7 @@ impl MqttBytesWriteStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.write_stream.write_buf(&mut self.write_buffer).await?;
+        self.write_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
-- 
2.43.0


From 1eaeb78b1d351a17e7da287c9ffb17b189749d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 04/25] fix: refuse to write strings whose length does not fit
 16 bits

The length was truncated, so the reader lost the packet boundaries.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index 5276291..4452956 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -135,7 +135,13 @@ impl MqttBytesStream {
     }
 
     pub async fn put_string(&mut self, string: &str) -> Result<(), Error> {
-        self.put_u16(string.len() as u16).await?;
+        let size = u16::try_from(string.len()).map_err(|_| {
+            Error::new(
+                ErrorKind::InvalidInput,
+                "String longer than 65535 bytes",
+            )
+        })?;
+        self.put_u16(size).await?;
         self.put_bytes(BytesMut::from(string.as_bytes())).await?;
 
         Ok(())
@@ -294,7 +300,13 @@ impl MqttBytesWriteStream {
     }
 
     pub async fn put_string(&mut self, string: &str) -> Result<(), Error> {
-        self.put_u16(string.len() as u16).await?;
+        let size = u16::try_from(string.len()).map_err(|_| {
+            Error::new(
+                ErrorKind::InvalidInput,
+                "String longer than 65535 bytes",
+            )
+        })?;
+        self.put_u16(size).await?;
         self.put_bytes(BytesMut::from(string.as_bytes())).await?;
 
         Ok(())
-- 
2.43.0


From f715910eb2616126398f30fbc863939d9357ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 05/25] fix: write the packet id of a PUBLISH exactly when QoS
 > 0

The length depended on the QoS but the packet id was written whenever it
was set, so the two could disagree and break the framing.
---
 src/mqtt/transport/packet_encoder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/transport/packet_encoder.rs b/src/mqtt/transport/packet_encoder.rs
index 395a048..6f15ac6 100644
--- a/src/mqtt/transport/packet_encoder.rs
+++ b/src/mqtt/transport/packet_encoder.rs
@@ -1,6 +1,6 @@
 use async_trait::async_trait;
 use bitflags::bitflags;
-use tokio::io::Error;
+use tokio::io::{Error, ErrorKind};
 
 use crate::mqtt::packets::puback::PubAckPacket;
 use crate::mqtt::packets::pubcomp::PubCompPacket;
@@ -100,6 +100,14 @@ async fn write_publish(
         }
     }
 
+    // the packet id is present if and only if QoS > 0
+    let packet_id = if packet.message.qos > QoS::AtMostOnce {
+        let missing = || Error::new(ErrorKind::InvalidInput, "Missing packet id");
+        Some(packet.packet_id.ok_or_else(missing)?)
+    } else {
+        None
+    };
+
     // fixed header
     let mut first_byte = PACKET_TYPE_PUBLISH << 4;
     if packet.dup {
@@ -125,7 +133,7 @@ async fn write_publish(
     // variable header
     buffer.put_string(packet.message.topic.as_str()).await?;
 
-    if let Some(packet_id) = packet.packet_id {
+    if let Some(packet_id) = packet_id {
         buffer.put_u16(packet_id).await?;
     }
 
-- 
2.43.0


From d7dfd083dcd063864c2b02c08a91842ef2d8800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 06/25] fix: report malformed packets as errors instead of
 panicking

Reserved packet types reached unimplemented!(), QoS 3 reached panic!() and
a remaining length smaller than the fields underflowed (and with wrapping
asked for a payload of nearly 2^64 bytes).
---
 src/mqtt/transport/packet_decoder.rs | 30 ++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 86e7757..02f5d64 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -88,7 +88,7 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         }
         PACKET_TYPE_PING_REQ => ControlPacket::PingReq,
         PACKET_TYPE_DISCONNECT => ControlPacket::Disconnect(DisconnectPacket::default()),
-        _ => unimplemented!(),
+        _ => return Err(malformed("Unexpected packet type")),
     };
 
     Ok(packet)
@@ -172,15 +172,17 @@ async fn decode_publish(
 
     let dup = flags.contains(FixedHeaderFlags::DUP);
     let retain = flags.contains(FixedHeaderFlags::RETAIN);
+    if flags.contains(FixedHeaderFlags::QOS) {
+        return Err(malformed("Malformed QoS"));
+    }
     let qos = QoS::from_bits((flags & FixedHeaderFlags::QOS).bits >> 1);
 
     // variable header
     let topic = buffer.get_string().await?;
-    remaining_length -= topic.len() as u64;
-    remaining_length -= 2;
+    consume(&mut remaining_length, topic.len() as u64 + 2)?;
 
     let packet_id = if qos > QoS::AtMostOnce {
-        remaining_length -= 2;
+        consume(&mut remaining_length, 2)?;
         Some(buffer.get_u16().await?)
     } else {
         None
@@ -235,7 +237,7 @@ async fn decode_subscribe(
     mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b10000010).await?;
-    remaining_length -= 2;
+    consume(&mut remaining_length, 2)?;
 
     // payload
 
@@ -257,7 +259,7 @@ async fn decode_subscribe(
             ));
         }
 
-        remaining_length -= topic.len() as u64 + 3u64 /* 2 topic length + QoS*/;
+        consume(&mut remaining_length, topic.len() as u64 + 3u64 /* 2 topic length + QoS*/)?;
 
         let subscription = Subscription::new(topic, QoS::from_bits(qos));
         subscriptions.push(subscription);
@@ -273,7 +275,7 @@ async fn decode_unsubscribe(
     mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b10100010).await?;
-    remaining_length -= 2;
+    consume(&mut remaining_length, 2)?;
 
     if remaining_length == 0 {
         return Err(tokio::io::Error::new(
@@ -286,7 +288,7 @@ async fn decode_unsubscribe(
     while remaining_length > 0 {
         let topic = buffer.get_string().await?;
 
-        remaining_length -= topic.len() as u64 + 2u64/* 2 topic length */;
+        consume(&mut remaining_length, topic.len() as u64 + 2u64 /* 2 topic length */)?;
 
         topics.push(topic);
     }
@@ -316,3 +318,15 @@ fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
         ))
     }
 }
+
+/// Takes bytes already read off the remaining length of the packet.
+fn consume(remaining_length: &mut u64, bytes: u64) -> Result<(), Error> {
+    *remaining_length = remaining_length
+        .checked_sub(bytes)
+        .ok_or_else(|| malformed("Packet longer than its remaining length"))?;
+    Ok(())
+}
+
+fn malformed(message: &'static str) -> Error {
+    Error::new(ErrorKind::InvalidData, message)
+}
-- 
2.43.0


From b25cb234993f4376a40294b28041ebb478ebb097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 07/25] fix: check header flags and remaining length of every
 packet

CONNECT, PINGREQ and DISCONNECT were accepted with any flags, and these
and the PUBACK family with any remaining length, so that the next packet
was read from the wrong position.
---
 src/mqtt/transport/packet_decoder.rs | 57 ++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 02f5d64..fb16fe7 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -86,8 +86,16 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         PACKET_TYPE_UNSUBSCRIBE => {
             decode_unsubscribe(mqtt_stream, first_byte, remaining_length).await?
         }
-        PACKET_TYPE_PING_REQ => ControlPacket::PingReq,
-        PACKET_TYPE_DISCONNECT => ControlPacket::Disconnect(DisconnectPacket::default()),
+        PACKET_TYPE_PING_REQ => {
+            validate_first_byte(first_byte, 0b11000000)?;
+            expect_end(remaining_length)?;
+            ControlPacket::PingReq
+        }
+        PACKET_TYPE_DISCONNECT => {
+            validate_first_byte(first_byte, 0b11100000)?;
+            expect_end(remaining_length)?;
+            ControlPacket::Disconnect(DisconnectPacket::default())
+        }
         _ => return Err(malformed("Unexpected packet type")),
     };
 
@@ -96,8 +104,8 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
 
 async fn decode_connect(
     buffer: &mut MqttBytesReadStream,
-    _first_byte: u8,
-    _remaining_length: u64,
+    first_byte: u8,
+    mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     bitflags! {
         struct ConnectFlags: u8 {
@@ -113,8 +121,11 @@ async fn decode_connect(
         }
     }
 
+    // fixed header
+    validate_first_byte(first_byte, 0b00010000)?;
+
     // variable header
-    let _protocol_name = buffer.get_string().await?;
+    let protocol_name = buffer.get_string().await?;
     let _protocol_level = buffer.get_u8().await?;
     let connect_flags_byte = buffer.get_u8().await?;
     let connect_flags = ConnectFlags::from_bits_truncate(connect_flags_byte);
@@ -122,23 +133,31 @@ async fn decode_connect(
     let clean_session = connect_flags.contains(ConnectFlags::CLEAN_SESSION);
 
     let keep_alive_seconds = buffer.get_u16().await?;
+    consume(&mut remaining_length, protocol_name.len() as u64 + 2 + 1 + 1 + 2)?;
 
     // payload
     let client_id = buffer.get_string().await?;
+    consume(&mut remaining_length, client_id.len() as u64 + 2)?;
 
     let user_name = if connect_flags.contains(ConnectFlags::USERNAME) {
-        Some(buffer.get_string().await?)
+        let user_name = buffer.get_string().await?;
+        consume(&mut remaining_length, user_name.len() as u64 + 2)?;
+        Some(user_name)
     } else {
         None
     };
 
     let password = if connect_flags.contains(ConnectFlags::PASSWORD) {
         // todo: allow non-utf8 bytes?
-        Some(buffer.get_string().await?)
+        let password = buffer.get_string().await?;
+        consume(&mut remaining_length, password.len() as u64 + 2)?;
+        Some(password)
     } else {
         None
     };
 
+    expect_end(remaining_length)?;
+
     let connect_packet = ConnectPacket::new(
         ProtocolVersion::Mqtt3,
         client_id,
@@ -198,36 +217,44 @@ async fn decode_publish(
 async fn decode_pub_ack(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01000000).await?;
+    consume(&mut remaining_length, 2)?;
+    expect_end(remaining_length)?;
     Ok(ControlPacket::PubAck(PubAckPacket::new(packet_id)))
 }
 
 async fn decode_pub_rec(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01010000).await?;
+    consume(&mut remaining_length, 2)?;
+    expect_end(remaining_length)?;
     Ok(ControlPacket::PubRec(PubRecPacket::new(packet_id)))
 }
 
 async fn decode_pub_rel(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01100010).await?;
+    consume(&mut remaining_length, 2)?;
+    expect_end(remaining_length)?;
     Ok(ControlPacket::PubRel(PubRelPacket::new(packet_id)))
 }
 
 async fn decode_pub_comp(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01110000).await?;
+    consume(&mut remaining_length, 2)?;
+    expect_end(remaining_length)?;
     Ok(ControlPacket::PubComp(PubCompPacket::new(packet_id)))
 }
 
@@ -327,6 +354,14 @@ fn consume(remaining_length: &mut u64, bytes: u64) -> Result<(), Error> {
     Ok(())
 }
 
+fn expect_end(remaining_length: u64) -> Result<(), Error> {
+    if remaining_length == 0 {
+        Ok(())
+    } else {
+        Err(malformed("Packet shorter than its remaining length"))
+    }
+}
+
 fn malformed(message: &'static str) -> Error {
     Error::new(ErrorKind::InvalidData, message)
 }
-- 
2.43.0


From 3c60ee2045dadc7c9d50e9b8fa8a88deb6027a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 08/25] fix: decode the will topic and message of CONNECT

They were not read, so the user name was taken from the will topic and
the password from the will message.
---
 src/mqtt/transport/packet_decoder.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index fb16fe7..b6a7060 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -1,3 +1,4 @@
+use crate::mqtt::message::Message;
 use crate::mqtt::packets::puback::PubAckPacket;
 use crate::mqtt::packets::pubcomp::PubCompPacket;
 use crate::mqtt::packets::pubrec::PubRecPacket;
@@ -139,6 +140,27 @@ async fn decode_connect(
     let client_id = buffer.get_string().await?;
     consume(&mut remaining_length, client_id.len() as u64 + 2)?;
 
+    let will_message = if connect_flags.contains(ConnectFlags::WILL) {
+        if connect_flags.contains(ConnectFlags::WILL_QOS) {
+            return Err(malformed("Malformed will QoS"));
+        }
+
+        let topic = buffer.get_string().await?;
+        consume(&mut remaining_length, topic.len() as u64 + 2)?;
+        let size = buffer.get_u16().await?;
+        let payload = buffer.get_bytes(size as usize).await?;
+        consume(&mut remaining_length, size as u64 + 2)?;
+
+        Some(Message {
+            topic,
+            payload,
+            qos: QoS::from_bits((connect_flags & ConnectFlags::WILL_QOS).bits >> 3),
+            retain: connect_flags.contains(ConnectFlags::WILL_RETAIN),
+        })
+    } else {
+        None
+    };
+
     let user_name = if connect_flags.contains(ConnectFlags::USERNAME) {
         let user_name = buffer.get_string().await?;
         consume(&mut remaining_length, user_name.len() as u64 + 2)?;
@@ -163,7 +185,7 @@ async fn decode_connect(
         client_id,
         keep_alive_seconds,
         clean_session,
-        None,
+        will_message,
         user_name,
         password,
     );
-- 
2.43.0


From 1877fbd7be83d5b60f40417b755a783dfb898abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 09/25] fix: refuse wildcards in the topic of a PUBLISH

Published to a/+ a message was delivered twice to every subscriber of
the filter a/+.
---
 src/mqtt/transport/packet_decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index b6a7060..33687a4 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -221,6 +221,9 @@ async fn decode_publish(
     // variable header
     let topic = buffer.get_string().await?;
     consume(&mut remaining_length, topic.len() as u64 + 2)?;
+    if topic.contains('+') || topic.contains('#') {
+        return Err(malformed("Wildcard in the topic of PUBLISH"));
+    }
 
     let packet_id = if qos > QoS::AtMostOnce {
         consume(&mut remaining_length, 2)?;
-- 
2.43.0


From a040b72527c7372c911f6f886082ac30c7a862b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:52 +0000
Subject: [PATCH 10/25] fix: refuse a user name without password instead of
 panicking

The unwrap ended the task that handles the packets of all clients.
---
 src/broker/client_packet_handler.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index bdbf76f..0798a84 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -7,7 +7,7 @@ use tokio::sync::mpsc::{Receiver, Sender};
 use tokio::sync::{broadcast, mpsc, oneshot};
 use uuid::Uuid;
 
-use crate::broker::authentication::{FileIdentityManager, IdentityProvider};
+use crate::broker::authentication::{AuthenticationError, FileIdentityManager, IdentityProvider};
 use crate::broker::messaging::{MessagingOperation, MessagingService, MessagingTx};
 use crate::broker::session::Session;
 use crate::mqtt::events::{ClientEvent, ServerEvent};
@@ -120,8 +120,11 @@ impl ClientPacketHandler {
         debug!("New client {:?} connected", &client_id);
 
         if let Some(user_name) = packet.user_name {
-            let password = packet.password.unwrap();
-            if let Err(e) = self.identity_provider.authenticate(&user_name, &password) {
+            let result = match &packet.password {
+                Some(password) => self.identity_provider.authenticate(&user_name, password),
+                None => Err(AuthenticationError::InvalidPassword),
+            };
+            if let Err(e) = result {
                 info!("Client {} authentication error: {:?}", &user_name, &e);
 
                 let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
-- 
2.43.0


From 25c0da2f76bbb8498874298686757aef0c4e46dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 11/25] fix: keep handling packets when a client is gone

Sending to the channel of a closed connection fails; the unwrap ended
the task that handles the packets of all clients.
---
 src/broker/client_packet_handler.rs | 38 ++++++++++++-----------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 0798a84..c7c602c 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -128,11 +128,8 @@ impl ClientPacketHandler {
                 info!("Client {} authentication error: {:?}", &user_name, &e);
 
                 let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
-                sender
-                    .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-                    .await
-                    .unwrap();
-                sender.send(ServerEvent::Disconnect).await.unwrap();
+                send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
+                send(&sender, ServerEvent::Disconnect).await;
                 return;
             }
         };
@@ -166,10 +163,7 @@ impl ClientPacketHandler {
 
         let conn_ack = ConnAckPacket::new(session_present, ConnAckReturnCode::Accepted);
 
-        sender
-            .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-            .await
-            .unwrap();
+        send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
 
         // debug!(
         //     "Active sessions count: {:?}",
@@ -226,7 +220,7 @@ impl ClientPacketHandler {
 
         for sender in senders_to_publish {
             let event = ServerEvent::ControlPacket(Publish(publish.clone()));
-            sender.send(event).await.unwrap();
+            send(&sender, event).await;
         }
     }
 
@@ -253,10 +247,7 @@ impl ClientPacketHandler {
         }
 
         let sub_ack = SubAckPacket::new(subscribe.packet_id, return_codes);
-        sender
-            .send(ServerEvent::ControlPacket(SubAck(sub_ack)))
-            .await
-            .unwrap();
+        send(&sender, ServerEvent::ControlPacket(SubAck(sub_ack))).await;
     }
 
     async fn on_unsubscribe(
@@ -274,10 +265,7 @@ impl ClientPacketHandler {
         let _ = rx.await.unwrap();
 
         let unsub_ack = UnSubAckPacket::new(unsubscribe.packet_id);
-        sender
-            .send(ServerEvent::ControlPacket(UnsubAck(unsub_ack)))
-            .await
-            .unwrap();
+        send(&sender, ServerEvent::ControlPacket(UnsubAck(unsub_ack))).await;
     }
 
     async fn on_ping_req(&mut self, sender: Sender<ServerEvent>, client_id: &ClientId) {
@@ -306,16 +294,20 @@ impl ClientPacketHandler {
         };
 
         if session_present {
-            sender
-                .send(ServerEvent::ControlPacket(PingResp))
-                .await
-                .unwrap();
+            send(&sender, ServerEvent::ControlPacket(PingResp)).await;
         } else {
             error!(
                 "Received PING from not existing session with client id {}",
                 client_id
             );
-            sender.send(ServerEvent::Disconnect).await.unwrap();
+            send(&sender, ServerEvent::Disconnect).await;
         }
     }
 }
+
+/// A client that is gone must not disturb the others.
+async fn send(sender: &Sender<ServerEvent>, event: ServerEvent) {
+    if let Err(e) = sender.send(event).await {
+        debug!("Client is gone: {}", &e);
+    }
+}
-- 
2.43.0


From dbde4fd5f98c5dbb47d6f0acda4a51494c21e20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 12/25] fix: run the publish operation of the messaging service

The future was dropped without being awaited, so nothing was published
and the requester was told it had been.
---
 src/broker/messaging/messaging_service.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/broker/messaging/messaging_service.rs b/src/broker/messaging/messaging_service.rs
index fc84a90..391082a 100644
--- a/src/broker/messaging/messaging_service.rs
+++ b/src/broker/messaging/messaging_service.rs
@@ -123,7 +123,7 @@ impl MessagingService {
                     let _ = resp.send(());
                 }
                 MessagingOperation::Publish { message, publish, resp } => {
-                    self.publish(&message, &publish);
+                    self.publish(&message, &publish).await;
                     let _ = resp.send(());
                 }
 
@@ -201,7 +201,9 @@ impl MessagingService {
                 match self.sessions.get(c) {
                     Some(session) => {
                         let event = ServerEvent::ControlPacket(Publish(publish.clone()));
-                        session.sender().send(event).await.unwrap();
+                        if let Err(e) = session.sender().send(event).await {
+                            debug!("Client {:?} is gone: {}", c, &e);
+                        }
                     }
                     None => {
                         warn!(
-- 
2.43.0


From 32dfd3e2f9621a85969916b21726715d022dcb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 13/25] fix: do not log the passwords of clients

The derived Debug of ConnectPacket printed the password at trace level.
---
 src/mqtt/packets/connect.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packets/connect.rs b/src/mqtt/packets/connect.rs
index e24e349..147b409 100644
--- a/src/mqtt/packets/connect.rs
+++ b/src/mqtt/packets/connect.rs
@@ -1,8 +1,10 @@
 use crate::mqtt::packets::{ClientId, ProtocolVersion};
 
 use crate::mqtt::message::Message;
+use std::fmt;
+use std::fmt::{Debug, Formatter};
 
-#[derive(Debug, PartialEq, Clone, Default)]
+#[derive(PartialEq, Clone, Default)]
 pub struct ConnectPacket {
     pub version: ProtocolVersion,
     pub client_id: ClientId,
@@ -36,3 +38,18 @@ impl ConnectPacket {
         }
     }
 }
+
+/// Packets are logged; the password must not be.
+impl Debug for ConnectPacket {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        f.debug_struct("ConnectPacket")
+            .field("version", &self.version)
+            .field("client_id", &self.client_id)
+            .field("keep_alive_seconds", &self.keep_alive_seconds)
+            .field("clean_session", &self.clean_session)
+            .field("will_message", &self.will_message)
+            .field("user_name", &self.user_name)
+            .field("password", &self.password.as_ref().map(|_| "***"))
+            .finish()
+    }
+}
-- 
2.43.0


From a08a33fa657ec3ae7fcbb6ce07d4833bba9051a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 14/25] fix: keep one subscription per client and topic filter

A client that subscribed twice got every message twice, and after
unsubscribing or disconnecting its other subscription stayed.
---
 src/broker/messaging/subscriptions_repository.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index db6e7c5..ba893c5 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -34,7 +34,9 @@ impl SubscriptionsRepository {
                 .entry(segment.to_string())
                 .or_insert(SubscriptionNode::new());
         }
-        node.clients.push(client_id.clone());
+        if !node.clients.contains(client_id) {
+            node.clients.push(client_id.clone());
+        }
         // println!("Nodes: {:?}", &self.root);
 
         SubAckReturnCode::SuccessQoS0
-- 
2.43.0


From 5612f8029e3a2fee82d2bd6926272eb1ac362252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 15/25] fix: do not match topics starting with $ by a leading
 wildcard

---
 src/broker/messaging/subscriptions_repository.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index ba893c5..f9de4ea 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -82,6 +82,9 @@ impl SubscriptionsRepository {
         let mut client_ids = Vec::<ClientId>::new();
 
         let mut nodes = vec![&self.root];
+        // a leading wildcard does not match topics starting with $
+        let mut wildcards = !topic.starts_with('$');
+
         let segments: Vec<&str> = topic.split("/").collect();
         for segment in segments {
             // nodes.iter().or itera
@@ -91,6 +94,10 @@ impl SubscriptionsRepository {
                     descendant_nodes.push(direct);
                 };
 
+                if !wildcards {
+                    continue;
+                }
+
                 if let Some(plus) = node.children.get("+") {
                     descendant_nodes.push(plus);
                 };
@@ -102,6 +109,7 @@ impl SubscriptionsRepository {
                 }
             }
             nodes = descendant_nodes;
+            wildcards = true;
         }
 
         nodes
-- 
2.43.0


From 5a78c96f85844d49b4332b18642eae0719cbc8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 16/25] fix: deliver messages with the QoS and flags of the
 delivery

The publisher's QoS, packet id, dup and retain flags were passed on,
although subscriptions are granted QoS 0 only.
---
 src/broker/client_packet_handler.rs       | 12 +++++++++++-
 src/broker/messaging/messaging_service.rs | 14 ++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index c7c602c..c99b9e1 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -219,7 +219,17 @@ impl ClientPacketHandler {
         let senders_to_publish = rx.await.unwrap();
 
         for sender in senders_to_publish {
-            let event = ServerEvent::ControlPacket(Publish(publish.clone()));
+            // subscriptions are granted QoS 0
+            let message = publish.message.clone();
+            let delivery = PublishPacket::new(
+                message.topic,
+                message.payload,
+                QoS::AtMostOnce,
+                false,
+                None,
+                false,
+            );
+            let event = ServerEvent::ControlPacket(Publish(delivery));
             send(&sender, event).await;
         }
     }
diff --git a/src/broker/messaging/messaging_service.rs b/src/broker/messaging/messaging_service.rs
index 391082a..0a8e258 100644
--- a/src/broker/messaging/messaging_service.rs
+++ b/src/broker/messaging/messaging_service.rs
@@ -7,7 +7,7 @@ use crate::mqtt::events::ServerEvent;
 use crate::mqtt::message::Message;
 use crate::mqtt::packets::suback::SubAckReturnCode;
 use crate::mqtt::packets::ControlPacket::Publish;
-use crate::mqtt::packets::{ClientId, PublishPacket};
+use crate::mqtt::packets::{ClientId, PublishPacket, QoS};
 use crate::mqtt::subscription::Subscription;
 use chrono::Utc;
 use std::collections::hash_map::Iter;
@@ -200,7 +200,17 @@ impl MessagingService {
             for c in &client_ids {
                 match self.sessions.get(c) {
                     Some(session) => {
-                        let event = ServerEvent::ControlPacket(Publish(publish.clone()));
+                        // subscriptions are granted QoS 0
+                        let message = publish.message.clone();
+                        let delivery = PublishPacket::new(
+                            message.topic,
+                            message.payload,
+                            QoS::AtMostOnce,
+                            false,
+                            None,
+                            false,
+                        );
+                        let event = ServerEvent::ControlPacket(Publish(delivery));
                         if let Err(e) = session.sender().send(event).await {
                             debug!("Client {:?} is gone: {}", c, &e);
                         }
-- 
2.43.0


From 2d158cc9ada52685d78e7a4ed13c7b04ef202c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 17/25] fix: let a new connection take over the session of its
 client id

The previous connection went on, two connections shared one client id,
and the end of either removed the session of the other.
---
 src/broker/client_packet_handler.rs | 55 ++++++++++++++++-------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index c99b9e1..615a666 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 use std::net::SocketAddr;
 
 use chrono::Utc;
@@ -27,6 +28,8 @@ pub struct ClientPacketHandler {
     // messaging: MessagingServiceSync,
     messaging_tx: MessagingTx,
     identity_provider: Box<dyn IdentityProvider + Send + Sync>,
+    // connections that were accepted and have not ended
+    connections: HashMap<ClientId, Sender<ServerEvent>>,
 }
 
 impl ClientPacketHandler {
@@ -48,6 +51,7 @@ impl ClientPacketHandler {
             // messaging,
             messaging_tx,
             identity_provider,
+            connections: HashMap::new(),
         }
     }
 
@@ -134,33 +138,27 @@ impl ClientPacketHandler {
             }
         };
 
-        let session_present = {
-            let (tx, rx) = oneshot::channel();
-            let op = MessagingOperation::SessionGet { client_id: client_id.clone(), resp: tx };
+        if let Some(previous) = self.connections.remove(&client_id) {
+            info!("Client {:?} connected again", &client_id);
+            send(&previous, ServerEvent::Disconnect).await;
+            self.remove_session(client_id.clone()).await;
+        }
 
-            self.messaging_tx.send(op).await.unwrap();
-            let maybe_session = rx.await.unwrap();
-
-            if let Some(session) = maybe_session {
-                // session.set_last_activity(Utc::now());
-                true
-            } else {
-                let session = Session::new(
-                    client_id,
-                    address.ip(),
-                    !packet.clean_session,
-                    sender.clone(),
-                    packet.keep_alive_seconds,
-                    Utc::now(),
-                );
-                let (insert_tx, insert_rx) = oneshot::channel();
-                let op = MessagingOperation::SessionInsert { session, resp: insert_tx };
-                self.messaging_tx.send(op).await.unwrap();
-                let insert_result = insert_rx.await.unwrap();
-                false
-            }
-        };
+        let session = Session::new(
+            client_id.clone(),
+            address.ip(),
+            !packet.clean_session,
+            sender.clone(),
+            packet.keep_alive_seconds,
+            Utc::now(),
+        );
+        let (insert_tx, insert_rx) = oneshot::channel();
+        let op = MessagingOperation::SessionInsert { session, resp: insert_tx };
+        self.messaging_tx.send(op).await.unwrap();
+        insert_rx.await.unwrap();
+        self.connections.insert(client_id, sender.clone());
 
+        let session_present = false; // sessions are not resumed
         let conn_ack = ConnAckPacket::new(session_present, ConnAckReturnCode::Accepted);
 
         send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
@@ -174,6 +172,8 @@ impl ClientPacketHandler {
     async fn on_disconnect(&mut self, client_id: ClientId) {
         debug!("Client {:?} disconnected", &client_id);
 
+        self.connections.remove(&client_id);
+
         let (tx, rx) = oneshot::channel();
         let op = MessagingOperation::ConnectionDisconnected { client_id, resp: tx };
 
@@ -189,6 +189,11 @@ impl ClientPacketHandler {
     async fn on_connection_lost(&mut self, client_id: ClientId) {
         info!("Client {:?} disconnected unexpectedly", &client_id);
 
+        self.connections.remove(&client_id);
+        self.remove_session(client_id).await;
+    }
+
+    async fn remove_session(&mut self, client_id: ClientId) {
         let (tx, rx) = oneshot::channel();
         let op = MessagingOperation::ConnectionLost { client_id, resp: tx };
 
-- 
2.43.0


From 9283ec0a911c9615605b066c4b4190ffc4ac2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 18/25] fix: report connections that end without DISCONNECT

The read task just ended, so the session and the subscriptions of the
client stayed for ever. The report names the connection, as another one
may have taken over the client id meanwhile.
---
 src/broker/client_packet_handler.rs | 14 ++++++++++++--
 src/mqtt/events.rs                  |  2 +-
 src/mqtt/listener.rs                |  9 +++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 615a666..30e4d4d 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -73,8 +73,10 @@ impl ClientPacketHandler {
                                 self.on_packet(client_id, packet, tx).await;
                             }
                             ClientEvent::Disconnected(_client_id) => {}
-                            ClientEvent::ConnectionLost(client_id) => {
-                                self.on_connection_lost(client_id).await;
+                            ClientEvent::ConnectionLost(client_id, tx) => {
+                                if self.is_current(&client_id, &tx) {
+                                    self.on_connection_lost(client_id).await;
+                                }
                             }
                         }
                     }
@@ -85,6 +87,14 @@ impl ClientPacketHandler {
         debug!("Stopped Manager");
     }
 
+    /// Whether this is the connection that was accepted for the client id, and not ended since.
+    fn is_current(&self, client_id: &ClientId, tx: &Sender<ServerEvent>) -> bool {
+        match self.connections.get(client_id) {
+            Some(current) => current.same_channel(tx),
+            None => false,
+        }
+    }
+
     async fn on_packet(
         &mut self,
         client_id: String,
diff --git a/src/mqtt/events.rs b/src/mqtt/events.rs
index 4ac7c3a..6ec9dca 100644
--- a/src/mqtt/events.rs
+++ b/src/mqtt/events.rs
@@ -7,7 +7,7 @@ pub enum ClientEvent {
     Connected(ConnectPacket, SocketAddr, Sender<ServerEvent>),
     ControlPacket(ClientId, ControlPacket, Sender<ServerEvent>),
     Disconnected(ClientId),
-    ConnectionLost(ClientId),
+    ConnectionLost(ClientId, Sender<ServerEvent>),
 }
 
 #[derive(Debug)]
diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index 06a6ee4..fe8b3fa 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -121,11 +121,20 @@ impl MqttListener {
         while let Ok(packet) = read_packet(&mut read_stream).await {
             trace!("Read packet: {:?}", &packet);
 
+            let disconnected = matches!(packet, ControlPacket::Disconnect(_));
             let event =
                 ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
             if let Err(e) = client_event_tx.send(event).await {
                 error!("Error while sending client event to be processed: {}", &e);
             }
+            if disconnected {
+                return;
+            }
+        }
+
+        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
+        if let Err(e) = client_event_tx.send(event).await {
+            error!("Error while sending client event to be processed: {}", &e);
         }
         trace!("Client read task ended");
     }
-- 
2.43.0


From b6aba34afd48d90661c1385a3a3ced679e1ede5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:31 +0000
Subject: [PATCH 19/25] fix: ignore packets of connections that were not
 accepted

A refused, disconnected or replaced connection could still publish,
subscribe and end the session of the client id it claimed.
---
 src/broker/client_packet_handler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 30e4d4d..5ff27ec 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -103,6 +103,11 @@ impl ClientPacketHandler {
     ) {
         trace!("Got packet {:?}", packet);
 
+        if !self.is_current(&client_id, &tx) {
+            debug!("Ignored packet of client {:?}, which is not connected", &client_id);
+            return;
+        }
+
         match packet {
             // ControlPacket::Connect(c) => {
             //     self.on_connect(action.response, c, &mut sessions).await
-- 
2.43.0


From 4cc40fbef14c918caeafc6320a2c376370fd1eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 20/25] fix: change only the named user's entry of the password
 file

The pattern matched in the middle of other users' names, ignored case,
and missed an entry at the end of a file without final newline; a new
entry was appended to the last one then.
---
 ratelmq-passwd/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index f2b1d8f..a26fa7f 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -25,9 +25,8 @@ fn main() {
     let password = arguments.value_of(ARGUMENT_NAME_PASSWORD);
     let delete = arguments.is_present(ARGUMENT_NAME_DELETE);
 
-    let regexp_format = format!(r"{}{}", regex::escape(user_name), r":.*\n");
+    let regexp_format = format!(r"^{}{}", regex::escape(user_name), r":.*\n?");
     let regexp = RegexBuilder::new(regexp_format.as_str())
-        .case_insensitive(true)
         .multi_line(true)
         .build()
         .unwrap();
@@ -47,6 +46,10 @@ fn main() {
                 .into_owned(),
         )
     } else if !delete {
+        let mut credentials = credentials;
+        if !credentials.is_empty() && !credentials.ends_with('\n') {
+            credentials.push('\n');
+        }
         Some(credentials + build_entry(user_name, password).as_str())
     } else {
         None
-- 
2.43.0


From 40bf71cf2a39e04aaeaab9f4dc380c01d698200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 21/25] fix: refuse user names the password file cannot
 represent

The broker splits a line at the first colon, so the rest of such a name
was read as part of the hash.
---
 ratelmq-passwd/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index a26fa7f..34c4f16 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -25,6 +25,11 @@ fn main() {
     let password = arguments.value_of(ARGUMENT_NAME_PASSWORD);
     let delete = arguments.is_present(ARGUMENT_NAME_DELETE);
 
+    if user_name.contains(':') || user_name.contains('\n') {
+        eprintln!("User names must not contain colons or line breaks");
+        std::process::exit(1);
+    }
+
     let regexp_format = format!(r"^{}{}", regex::escape(user_name), r":.*\n?");
     let regexp = RegexBuilder::new(regexp_format.as_str())
         .multi_line(true)
-- 
2.43.0


From 9b324a2b3a79a255b878b920d1e71a0533a5339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 22/25] fix: update the password file atomically

It was truncated and rewritten in place; a crash in between lost the
entries of all users.
---
 ratelmq-passwd/src/main.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index 34c4f16..4390bce 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -1,3 +1,6 @@
+use std::fs::File;
+use std::io::Write;
+
 use clap::{App, Arg, ArgMatches};
 use regex::RegexBuilder;
 
@@ -61,10 +64,22 @@ fn main() {
     };
 
     if let Some(new_file_content) = updated_credentials {
-        std::fs::write(file_name, new_file_content).unwrap();
+        replace_file(file_name, &new_file_content).unwrap();
     }
 }
 
+/// Replaces the file by a complete new one, so that a crash never leaves half of it.
+fn replace_file(file_name: &str, content: &str) -> std::io::Result<()> {
+    let temporary_name = format!("{}.{}.tmp", file_name, std::process::id());
+
+    let mut file = File::create(&temporary_name)?;
+    file.set_permissions(std::fs::metadata(file_name)?.permissions())?;
+    file.write_all(content.as_bytes())?;
+    file.sync_all()?;
+
+    std::fs::rename(&temporary_name, file_name)
+}
+
 fn build_arguments(version: String) -> ArgMatches {
     App::new("ratelmq-passwd")
         .version(version.as_str())
-- 
2.43.0


From cdf0b05a0bec517ed8577853dabb66cf7dc84604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:58 +0000
Subject: [PATCH 23/25] fix: do not recurse over the levels of topic filters

A client could subscribe to a filter of tens of thousands of levels; ending
its session, or stopping the broker, then overflowed the stack and aborted
the process.
---
 .../messaging/subscriptions_repository.rs     | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index f9de4ea..e1dcaa2 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -122,14 +122,16 @@ impl SubscriptionsRepository {
     }
 
     fn remove_client(node: &mut SubscriptionNode, client_id: &ClientId) {
-        node.clients
-            .iter()
-            .position(|c| c == client_id)
-            .map(|p| node.clients.remove(p));
+        // not recursive: clients can make the tree deeper than the stack
+        let mut nodes = vec![node];
+        while let Some(node) = nodes.pop() {
+            node.clients
+                .iter()
+                .position(|c| c == client_id)
+                .map(|p| node.clients.remove(p));
 
-        node.children
-            .iter_mut()
-            .for_each(|c| Self::remove_client(c.1, client_id));
+            nodes.extend(node.children.values_mut());
+        }
     }
 }
 
@@ -148,6 +150,16 @@ impl SubscriptionNode {
     }
 }
 
+impl Drop for SubscriptionNode {
+    fn drop(&mut self) {
+        // not recursive: clients can make the tree deeper than the stack
+        let mut nodes: Vec<_> = self.children.drain().map(|(_, node)| node).collect();
+        while let Some(mut node) = nodes.pop() {
+            nodes.extend(node.children.drain().map(|(_, node)| node));
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::mqtt::packets::QoS;
-- 
2.43.0


From 820afd45092eff5467ac1702cc76a15ef876fc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:40 +0000
Subject: [PATCH 24/25] fix: stop reading a connection that is not written any
 more

A client that was refused, or whose client id was taken over, was sent
the end of the stream but read on for as long as it liked: the socket
and its reading task stayed until the client closed it.
---
 src/mqtt/listener.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index fe8b3fa..ed73d36 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -118,7 +118,15 @@ impl MqttListener {
             return;
         }
 
-        while let Ok(packet) = read_packet(&mut read_stream).await {
+        loop {
+            let packet = select! {
+                // the connection is not written any more, e.g. after it was told to disconnect
+                _ = server_event_tx.closed() => break,
+                result = read_packet(&mut read_stream) => match result {
+                    Ok(packet) => packet,
+                    Err(_) => break,
+                },
+            };
             trace!("Read packet: {:?}", &packet);
 
             let disconnected = matches!(packet, ControlPacket::Disconnect(_));
-- 
2.43.0


From e3fb27d6c748ae3dee7ed5d23ee44d665b58cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:55 +0000
Subject: [PATCH 25/25] fix: unsubscribing does not create subscription nodes

UNSUBSCRIBE made the nodes of filters nobody had subscribed to, and nothing
removes them: one client could make the broker grow without limit by
unsubscribing from ever new filters.
---
 src/broker/messaging/subscriptions_repository.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index e1dcaa2..c8f5cba 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -43,7 +43,7 @@ impl SubscriptionsRepository {
     }
 
     pub fn unsubscribe(&mut self, client_id: &ClientId, topics: &Vec<String>) {
-        for topic in topics {
+        'topics: for topic in topics {
             // if let Some(client_ids) = self.subscriptions.get_mut(topic) {
             // client_ids.remove(client_id);
             // }
@@ -55,10 +55,11 @@ impl SubscriptionsRepository {
 
             let segments: Vec<&str> = topic.split("/").collect();
             for segment in segments {
-                node = node
-                    .children
-                    .entry(segment.to_string())
-                    .or_insert(SubscriptionNode::new());
+                // unsubscribing must not make the tree grow
+                node = match node.children.get_mut(segment) {
+                    Some(child) => child,
+                    None => continue 'topics,
+                };
             }
 
             node.clients
-- 
2.43.0

