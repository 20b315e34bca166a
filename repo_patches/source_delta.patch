From 66538ce2ea5d269007e48a681a6f9c86c93839cd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 01/18] fix: check that an upload stays below the served
 directory before creating directories

---
 std-binary/src/io.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/std-binary/src/io.rs b/std-binary/src/io.rs
index 27b96d7..edd4e3b 100644
--- a/std-binary/src/io.rs
+++ b/std-binary/src/io.rs
@@ -97,6 +97,27 @@ pub fn create_server_writer(requested_path: &FilePath, config: &ServerConfig) ->
     if !path.starts_with(&dir) {
         return Err(FileError::InvalidFileName.into());
     }
+    // nothing can be created before it is known to end up in the served directory
+    if !dir.is_dir() {
+        create_dir_all(&dir).map_err(from_io_err)?
+    }
+    let root = canonicalize(&dir).map_err(from_io_err)?;
+    let existing = path
+        .ancestors()
+        .skip(1)
+        .find(|p| p.exists())
+        .ok_or(FileError::InvalidFileName)?;
+    if !canonicalize(existing)
+        .map_err(from_io_err)?
+        .starts_with(&root)
+    {
+        return Err(FileError::InvalidFileName.into());
+    }
+    // opening a dangling link would create the file it points to
+    if path.is_symlink() && !path.exists() {
+        return Err(FileError::InvalidFileName.into());
+    }
+
     if let Some(dir) = path.parent() {
         if !dir.is_dir() {
             create_dir_all(dir).map_err(from_io_err)?
-- 
2.43.0


From 3eed278b204a016fb4ac24939fa1e77430f59902 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 02/18] fix: truncate strings only at a char boundary

A request for a file name with a multi-byte character across byte 100 made the server panic.
---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7ffb379..5c7b7a0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,8 +54,11 @@ mod string {
 
     pub fn ensure_size(s: &str, max_size: usize) -> &str {
         if s.len() > max_size {
-            let (f, _) = s.split_at(max_size);
-            return f;
+            let mut end = max_size;
+            while !s.is_char_boundary(end) {
+                end -= 1;
+            }
+            return &s[..end];
         }
         s
     }
-- 
2.43.0


From d986b6d07497efae8c05bf407dc2795b3b5a40b0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 03/18] fix: do not panic when an encrypted packet is too short
 to decrypt

---
 src/encryption.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encryption.rs b/src/encryption.rs
index f3e7b5d..880de3f 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -302,6 +302,9 @@ impl<R: CryptoRng + RngCore + Clone> Encryptor<R> {
             .rslice_to_array(nonce.len())
             .ok_or(EncryptionError::Decrypt)?
             .into();
+        if buffer.len() < nonce.len() + tag.len() + from_position {
+            return Err(EncryptionError::Decrypt);
+        }
         buffer.truncate(buffer.len() - nonce.len() - tag.len());
         let (_, data) = buffer.split_at_mut(from_position);
         self.cipher
-- 
2.43.0


From 7f52fcbbd18558e56a48c21a5669b9fab550d84c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 04/18] fix: do not cut the last character of a file name of
 maximum length

---
 src/server/validation.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/validation.rs b/src/server/validation.rs
index c79e925..a626578 100644
--- a/src/server/validation.rs
+++ b/src/server/validation.rs
@@ -78,17 +78,18 @@ pub fn validate_file_name(file_name: &FilePath) -> Result<FilePath, ErrorPacket>
 
 fn normalize_remote_name(file_path: &FilePath) -> Result<FilePath, FileError> {
     #[allow(unused_must_use)]
-    let mut result = file_path
+    let result = file_path
         .as_str()
         .trim_start_matches('/')
         .split('/')
         .filter(|c| !matches!(c.trim(), "." | ".." | "/" | ""))
         .fold(FilePath::new(), |mut f, c| {
+            if !f.as_str().is_empty() {
+                f.push('/');
+            }
             f.push_str(c);
-            f.push('/');
             f
         });
-    result.pop();
     #[allow(clippy::redundant_as_str)]
     if result.as_str().is_empty() {
         return Err(FileError::InvalidFileName);
-- 
2.43.0


From d199b620d452839ea6d74f61d22e76cf4a3fe14b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 05/18] fix: reply to an invalid request the way any other
 refusal is sent

The reply was sent in clear text inside an encrypted handshake, and ignored error_to_authorized_only.
---
 src/server/connection_builder.rs |  6 ++----
 src/server/validation.rs         | 14 +++-----------
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/server/connection_builder.rs b/src/server/connection_builder.rs
index dcbcad6..8dbcc4b 100644
--- a/src/server/connection_builder.rs
+++ b/src/server/connection_builder.rs
@@ -150,8 +150,7 @@ where
     {
         let file_name = self.file_name.clone().ok_or(FileError::InvalidFileName)?;
         let file_path = validate_request_options(
-            socket,
-            client,
+            |e| self.reply_with_error(socket, client, e),
             &file_name,
             &self.options,
             &self.used_extensions,
@@ -239,8 +238,7 @@ where
     {
         let file_name = self.file_name.clone().ok_or(FileError::InvalidFileName)?;
         let file_path = validate_request_options(
-            socket,
-            client,
+            |e| self.reply_with_error(socket, client, e),
             &file_name,
             &self.options,
             &self.used_extensions,
diff --git a/src/server/validation.rs b/src/server/validation.rs
index a626578..6333b3e 100644
--- a/src/server/validation.rs
+++ b/src/server/validation.rs
@@ -1,5 +1,3 @@
-use core::net::SocketAddr;
-
 use log::error;
 
 use super::config::ServerConfig;
@@ -7,36 +5,30 @@ use crate::config::ConnectionOptions;
 use crate::error::BoxedResult;
 use crate::error::ExtensionError;
 use crate::error::FileError;
-use crate::packet::ByteConverter;
 use crate::packet::ErrorCode;
 use crate::packet::ErrorPacket;
 use crate::packet::Extension;
-use crate::packet::Packet;
 use crate::packet::PacketExtensions;
-use crate::socket::Socket;
 use crate::string::ensure_size;
 use crate::string::format_str;
 use crate::types::FilePath;
 
 pub fn validate_request_options(
-    socket: &impl Socket,
-    client: SocketAddr,
+    reply_with_error: impl Fn(ErrorPacket),
     file_name: &FilePath,
     options: &ConnectionOptions,
     _extensions: &PacketExtensions,
     config: &ServerConfig,
 ) -> BoxedResult<FilePath> {
     if let Err(e) = handle_file_size(options.file_size.unwrap_or(0), config.max_file_size) {
-        let packet = Packet::Error(e);
-        socket.send_to(&mut packet.to_bytes(), client)?;
+        reply_with_error(e);
         return Err(ExtensionError::InvalidExtension(Extension::TransferSize).into());
     }
 
     match validate_file_name(file_name) {
         Ok(p) => Ok(p),
         Err(e) => {
-            let packet = Packet::Error(e);
-            socket.send_to(&mut packet.to_bytes(), client)?;
+            reply_with_error(e);
             Err(FileError::InvalidFileName.into())
         }
     }
-- 
2.43.0


From 021764b64d552c0661e80c9bdbd99a1d695680a5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 06/18] fix: require_full_encryption also refuses a request
 that asks for less inside an encrypted packet

---
 src/server/extensions.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server/extensions.rs b/src/server/extensions.rs
index 2494f09..ca0881b 100644
--- a/src/server/extensions.rs
+++ b/src/server/extensions.rs
@@ -147,6 +147,12 @@ pub fn parse_extensions<R: CryptoRng + RngCore + Copy>(
             }
         };
 
+        if config.require_full_encryption && options.encryption_level != EncryptionLevel::Full {
+            return Err(ExtensionError::ServerRequiredEncryption(
+                EncryptionLevel::Full,
+            ));
+        }
+
         if client_encryption_level.is_some() {
             let _ = used_extensions.insert(
                 Extension::EncryptionLevel,
-- 
2.43.0


From 9908f2c8bebfe2a54731ac9ce433ff4ac7e555af Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 07/18] fix: a failed session does not accept any more packets

The single threaded server kept writing blocks until the session was removed.
---
 src/server/helpers/read.rs  | 5 +++++
 src/server/helpers/write.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/server/helpers/read.rs b/src/server/helpers/read.rs
index b4d27d9..3260352 100644
--- a/src/server/helpers/read.rs
+++ b/src/server/helpers/read.rs
@@ -90,6 +90,11 @@ pub fn handle_read<R: BlockReader, B: BoundSocket, Rng: CryptoRng + RngCore + Co
     buffer: &mut DataBuffer,
     instant: InstantCallback,
 ) -> Option<()> {
+    // nothing is accepted once the session has failed
+    if connection.invalid.is_some() {
+        return None;
+    }
+
     if !connection.decrypt_packet(buffer) {
         return None;
     }
diff --git a/src/server/helpers/write.rs b/src/server/helpers/write.rs
index 87ef7b0..a99a1e9 100644
--- a/src/server/helpers/write.rs
+++ b/src/server/helpers/write.rs
@@ -28,6 +28,11 @@ pub fn handle_write<W: BlockWriter, B: BoundSocket, Rng: CryptoRng + RngCore + C
     instant: InstantCallback,
     max_file_size: u64,
 ) -> Option<()> {
+    // nothing is accepted once the session has failed
+    if connection.invalid.is_some() {
+        return None;
+    }
+
     if !connection.decrypt_packet(receive_buffer) {
         return None;
     }
-- 
2.43.0


From 94c4f79e922663b1941956fc1bc0d730b89e0e41 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 08/18] fix: a file that is still being written is not cut when
 it is finished during a read

---
 std-binary/src/blocking_reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/std-binary/src/blocking_reader.rs b/std-binary/src/blocking_reader.rs
index 28c77da..f3fb1c5 100644
--- a/std-binary/src/blocking_reader.rs
+++ b/std-binary/src/blocking_reader.rs
@@ -43,6 +43,8 @@ impl<R: Read> Read for BlockingReader<R> {
     // reader will error with WouldBlock if there is no data to read
     fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
         let expected_size = buffer.len();
+        // data could be appended after the read, but before it is marked as finished
+        let finished = self.finished.load(Ordering::Acquire);
         let result = if !self.temp_buf.is_empty() {
             let temp_len = self.temp_buf.len();
             for (to_buf, data) in buffer.iter_mut().zip(self.temp_buf.iter()) {
@@ -58,7 +60,7 @@ impl<R: Read> Read for BlockingReader<R> {
         };
         match result {
             Ok(0) => {
-                if self.finished.load(Ordering::Relaxed) {
+                if finished {
                     return Ok(0);
                 }
 
@@ -68,7 +70,7 @@ impl<R: Read> Read for BlockingReader<R> {
             }
             Ok(n) if expected_size == n => Ok(n),
             Ok(n) => {
-                if self.finished.load(Ordering::Relaxed) {
+                if finished {
                     return Ok(n);
                 }
 
-- 
2.43.0


From ece3b74cabbd168babc71df43c0be34b35296501 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 09/18] fix: client does not continue without encryption when
 encryption is required

A plain acknowledgment or data packet in reply to the request turned the encryption off.
---
 src/client/connection.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 4a6d713..3970b46 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -15,6 +15,7 @@ use crate::encryption::EncryptionLevel;
 use crate::encryption::PublicKeyPair;
 use crate::error::BoxedResult;
 use crate::error::DefaultBoxedResult;
+use crate::error::ExtensionError;
 use crate::error::PacketError;
 use crate::packet::ByteConverter;
 use crate::packet::ErrorCode;
@@ -132,7 +133,7 @@ pub fn query_server<'a>(
                 return Ok(QueryResult {
                     received_length: None,
                     acknowledge: false,
-                    options: options.with_block_size(DEFAULT_DATA_BLOCK_SIZE),
+                    options: options_without_extensions(options)?,
                     endpoint,
                     remote_session_public_keys: None,
                 });
@@ -142,7 +143,7 @@ pub fn query_server<'a>(
                 return Ok(QueryResult {
                     received_length: Some(length),
                     acknowledge: false,
-                    options: options.with_block_size(DEFAULT_DATA_BLOCK_SIZE),
+                    options: options_without_extensions(options)?,
                     endpoint,
                     remote_session_public_keys: None,
                 });
@@ -169,6 +170,21 @@ pub fn query_server<'a>(
     }
 }
 
+// server does not support extensions or disregards them
+fn options_without_extensions(
+    options: ConnectionOptions,
+) -> Result<ConnectionOptions, ExtensionError> {
+    if matches!(
+        options.encryption_level,
+        EncryptionLevel::Data | EncryptionLevel::Protocol | EncryptionLevel::Full
+    ) {
+        return Err(ExtensionError::ClientRequiredEncryption(
+            options.encryption_level,
+        ));
+    }
+    Ok(options.with_block_size(DEFAULT_DATA_BLOCK_SIZE))
+}
+
 pub fn send_error(
     socket: &impl Socket,
     endpoint: SocketAddr,
-- 
2.43.0


From d8cc3b9a58e7b8c3c86e3326e895124f846c4fb9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 10/18] fix: client that requires full encryption does not
 accept a lower level

---
 src/client/extensions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/client/extensions.rs b/src/client/extensions.rs
index 019f2e3..aed0283 100644
--- a/src/client/extensions.rs
+++ b/src/client/extensions.rs
@@ -193,6 +193,14 @@ pub fn parse_extensions(
             ));
         }
 
+        if expected_encryption_level == EncryptionLevel::Full
+            && encryption_level != Some(EncryptionLevel::Full)
+        {
+            return Err(ExtensionError::ClientRequiredEncryption(
+                options.encryption_level,
+            ));
+        }
+
         options.encryption_level =
             encryption_level.ok_or(ExtensionError::InvalidExtension(Extension::EncryptionLevel))?;
 
-- 
2.43.0


From 0f18eb7471614cf6ae85b3746d3ce6b568843d40 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 11/18] fix: client does not use a window the server has not
 acknowledged

---
 src/client/connection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 3970b46..eb0805e 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -11,6 +11,7 @@ use super::ClientConfig;
 use crate::buffer::resize_buffer;
 use crate::config::ConnectionOptions;
 use crate::config::DEFAULT_DATA_BLOCK_SIZE;
+use crate::config::EXTENSION_WINDOW_SIZE_MIN;
 use crate::encryption::EncryptionLevel;
 use crate::encryption::PublicKeyPair;
 use crate::error::BoxedResult;
@@ -182,7 +183,9 @@ fn options_without_extensions(
             options.encryption_level,
         ));
     }
-    Ok(options.with_block_size(DEFAULT_DATA_BLOCK_SIZE))
+    let mut options = options.with_block_size(DEFAULT_DATA_BLOCK_SIZE);
+    options.window_size = EXTENSION_WINDOW_SIZE_MIN;
+    Ok(options)
 }
 
 pub fn send_error(
-- 
2.43.0


From 20a2708a376657b0a2aa74e572cd1d43462dbd3c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 12/18] fix: client receives the whole file from a server that
 disregards extensions

The packet length was compared with the block size: only the first block was received.
---
 src/client/receiver.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/client/receiver.rs b/src/client/receiver.rs
index 07fa1d4..5b2d297 100644
--- a/src/client/receiver.rs
+++ b/src/client/receiver.rs
@@ -127,11 +127,13 @@ where
     // server sent data packet so no encryption
     if let Some(packet_length) = received_length.take() {
         if let Ok(Packet::Data(p)) = Packet::from_bytes(&receive_buffer[..packet_length]) {
-            handle_file_size(&socket, endpoint, packet_length, config.max_file_size)?;
+            handle_file_size(&socket, endpoint, p.data.len(), config.max_file_size)?;
+            let mut finished = false;
             match write_block(&mut block_writer, p.block, p.data) {
                 Ok((written, index, block)) => {
                     if let Some(w) = written {
                         total += w;
+                        finished = w < options.block_size_with_encryption() as usize;
                     }
 
                     if options.window_size <= 1
@@ -147,13 +149,13 @@ where
                 Err(e) => return Err(e),
             };
 
-            if packet_length != options.block_size_with_encryption() as usize {
+            if finished {
                 info!("Client finished receiving {local_file_path} {total} bytes");
                 histogram!("tftp.client.connection.duration", "connection_type" => "read")
                     .record(started.elapsed());
                 counter!("tftp.client.connection.transfer.size", "connection_type" => "read")
                     .increment(total as u64);
-                return Ok((packet_length, None));
+                return Ok((total, None));
             }
         }
     }
-- 
2.43.0


From 72ff67239822323c8cc46bf91a765f2df8421b9f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 13/18] fix: packets from elsewhere neither end nor prolong a
 client transfer

A packet that could not be decrypted ended the transfer, whoever sent it, and the request timeout was not checked while packets from other addresses kept coming.
---
 src/client/connection.rs | 16 ++++++++++------
 src/client/receiver.rs   | 18 ++++++++++--------
 src/client/sender.rs     | 18 ++++++++++--------
 3 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index eb0805e..abe02c3 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -210,7 +210,14 @@ fn wait_for_initial_packet(
     mut retry_timeout: Duration,
 ) -> BoxedResult<(usize, SocketAddr)> {
     let timeout = instant();
+    let buffer_size = buffer.len();
     loop {
+        let elapsed = timeout.elapsed();
+        if elapsed > request_timeout {
+            return Err(PacketError::Timeout(elapsed).into());
+        }
+        resize_buffer(buffer, buffer_size);
+
         socket.send_to(&mut packet.clone().to_bytes(), endpoint)?;
         debug!(
             "Initial packet elapsed {} wait {}",
@@ -225,13 +232,10 @@ fn wait_for_initial_packet(
                 }
                 continue;
             }
-            Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
-                let elapsed = timeout.elapsed();
-                if elapsed > request_timeout {
-                    return Err(PacketError::Timeout(elapsed).into());
-                }
+            // packets that can not be decrypted are ignored
+            Err(ref e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::InvalidData) => {
                 retry_timeout = min(
-                    request_timeout.saturating_sub(elapsed),
+                    request_timeout.saturating_sub(timeout.elapsed()),
                     retry_timeout.saturating_mul(2),
                 );
                 continue;
diff --git a/src/client/receiver.rs b/src/client/receiver.rs
index 5b2d297..6b90076 100644
--- a/src/client/receiver.rs
+++ b/src/client/receiver.rs
@@ -179,6 +179,14 @@ where
     let mut send_buffer = create_max_buffer(options.block_size);
 
     loop {
+        let elapsed = timeout.elapsed();
+        if elapsed > config.request_timeout {
+            if let Ok(s) = socket.local_addr() {
+                debug!("Received timeout for {}", s);
+            }
+            return Err(PacketError::Timeout(elapsed).into());
+        }
+
         resize_buffer(&mut receive_buffer, max_receive_buffer_size);
 
         let received = match socket.recv_from(&mut receive_buffer, Duration::from_secs(1).into()) {
@@ -188,14 +196,8 @@ where
                 }
                 n
             }
-            Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
-                let elapsed = timeout.elapsed();
-                if elapsed > config.request_timeout {
-                    if let Ok(s) = socket.local_addr() {
-                        debug!("Received timeout for {}", s);
-                    }
-                    return Err(PacketError::Timeout(elapsed).into());
-                }
+            // packets that can not be decrypted are ignored
+            Err(ref e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::InvalidData) => {
                 continue;
             }
             Err(e) => {
diff --git a/src/client/sender.rs b/src/client/sender.rs
index 02a7b80..f3ed9fb 100644
--- a/src/client/sender.rs
+++ b/src/client/sender.rs
@@ -182,6 +182,14 @@ where
     let send_max_buffer_size = send_buffer.len();
     let started = instant();
     loop {
+        let elapsed = timeout.elapsed();
+        if elapsed > config.request_timeout {
+            if let Ok(s) = socket.local_addr() {
+                debug!("Send timeout for {}", s);
+            }
+            return Err(PacketError::Timeout(elapsed).into());
+        }
+
         if stats_calculate.elapsed() > flow_control_period {
             rate_control.calculate_transmit_rate(
                 options.block_size,
@@ -269,14 +277,8 @@ where
                 last_received = instant();
                 n
             }
-            Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
-                let elapsed = timeout.elapsed();
-                if elapsed > config.request_timeout {
-                    if let Ok(s) = socket.local_addr() {
-                        debug!("Send timeout for {}", s);
-                    }
-                    return Err(PacketError::Timeout(elapsed).into());
-                }
+            // packets that can not be decrypted are ignored
+            Err(ref e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::InvalidData) => {
                 no_work += 1;
 
                 continue;
-- 
2.43.0


From 14ec0ef93e8734499f7e81243f71a15a357cbd63 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 14/18] fix: refuse a block size without space for encryption

A request for an encrypted transfer with blksize below 41 made the server panic, or read and write blocks of the wrong size without overflow checks.
---
 src/client/connection.rs         |  4 ++++
 src/config.rs                    | 22 ++++++++++++++--------
 src/server/connection_builder.rs |  3 +++
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index abe02c3..6f4d8aa 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -21,6 +21,7 @@ use crate::error::PacketError;
 use crate::packet::ByteConverter;
 use crate::packet::ErrorCode;
 use crate::packet::ErrorPacket;
+use crate::packet::Extension;
 use crate::packet::Mode;
 use crate::packet::Packet;
 use crate::packet::PacketExtensions;
@@ -106,6 +107,9 @@ pub fn query_server<'a>(
                     return Err(PacketError::RemoteError(message).into());
                 }
                 let (conn, remote_session_public_keys) = parse_extensions(p.extensions, options)?;
+                if !conn.is_block_size_valid() {
+                    return Err(ExtensionError::InvalidExtension(Extension::BlockSize).into());
+                }
                 // if we know server public key and server should reply with one it must match
                 if conn.encryption_level != EncryptionLevel::None
                     && config.private_key.is_some()
diff --git a/src/config.rs b/src/config.rs
index 2f090e8..5789db7 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -97,19 +97,25 @@ impl ConnectionOptions {
     }
 
     pub fn block_size_with_encryption(&self) -> u16 {
+        self.block_size - self.encryption_overhead()
+    }
+
+    /// block must have space for data once it is encrypted
+    pub fn is_block_size_valid(&self) -> bool {
+        self.block_size > self.encryption_overhead()
+    }
+
+    fn encryption_overhead(&self) -> u16 {
         match self.encryption_level {
-            EncryptionLevel::Data => {
-                self.block_size - ENCRYPTION_TAG_SIZE as u16 - ENCRYPTION_NONCE_SIZE as u16
-            }
+            EncryptionLevel::Data => ENCRYPTION_TAG_SIZE as u16 + ENCRYPTION_NONCE_SIZE as u16,
             EncryptionLevel::Full | EncryptionLevel::Protocol => {
-                self.block_size
-                    - ENCRYPTION_TAG_SIZE as u16
-                    - ENCRYPTION_PADDING_SIZE as u16
-                    - ENCRYPTION_NONCE_SIZE as u16
+                ENCRYPTION_TAG_SIZE as u16
+                    + ENCRYPTION_PADDING_SIZE as u16
+                    + ENCRYPTION_NONCE_SIZE as u16
             }
             EncryptionLevel::OptionalData
             | EncryptionLevel::OptionalProtocol
-            | EncryptionLevel::None => self.block_size,
+            | EncryptionLevel::None => 0,
         }
     }
 
diff --git a/src/server/connection_builder.rs b/src/server/connection_builder.rs
index 8dbcc4b..0665e35 100644
--- a/src/server/connection_builder.rs
+++ b/src/server/connection_builder.rs
@@ -126,6 +126,9 @@ where
             max_window_size,
             rng,
         )?;
+        if !options.is_block_size_valid() {
+            return Err(ExtensionError::InvalidExtension(Extension::BlockSize));
+        }
         self.file_name = Some(request.file_name);
         self.used_extensions = used_extensions;
         self.options = options;
-- 
2.43.0


From e7ff28a1ba7292b96aef813f65beaa88c74a470e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 15/18] fix: write the whole block

A short write, for instance on a disk that is getting full, was taken for the end of the transfer.
---
 src/writers/single_block_writer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/writers/single_block_writer.rs b/src/writers/single_block_writer.rs
index 8c71642..a84506f 100644
--- a/src/writers/single_block_writer.rs
+++ b/src/writers/single_block_writer.rs
@@ -4,6 +4,8 @@ use super::block_writer::BlockWriter;
 use crate::block_mapper::BlockMapper;
 use crate::error::ExistingBlock;
 use crate::error::StorageError;
+use crate::std_compat::io::Error;
+use crate::std_compat::io::ErrorKind;
 use crate::std_compat::io::Write;
 
 #[derive(Debug)]
@@ -47,7 +49,13 @@ where
 
         trace!("Writing block {expected_index}");
 
-        let written = self.writer.write(data)?;
+        let mut written = 0;
+        while written < data.len() {
+            match self.writer.write(&data[written..])? {
+                0 => return Err(Error::from(ErrorKind::WriteZero).into()),
+                n => written += n,
+            }
+        }
         self.block_written = expected_index;
         Ok((written, self.block_written))
     }
-- 
2.43.0


From c5ff40f314356464a853a198bc3c056878cfd4ec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 16/18] fix: a short read is not the end of the file

Reading from a pipe, for instance, ended the transfer early, as if it was complete.
---
 src/readers/encrypted_stream_reader.rs    |  8 ++++---
 src/readers/mod.rs                        | 18 +++++++++++++++
 src/readers/multiple_block_reader.rs      |  3 ++-
 src/readers/multiple_block_seek_reader.rs | 28 +++++++++++++----------
 src/readers/single_block_reader.rs        |  3 ++-
 5 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/readers/encrypted_stream_reader.rs b/src/readers/encrypted_stream_reader.rs
index c0ee873..55c3abe 100644
--- a/src/readers/encrypted_stream_reader.rs
+++ b/src/readers/encrypted_stream_reader.rs
@@ -1,6 +1,7 @@
 use log::error;
 use log::trace;
 
+use super::read_block;
 use crate::buffer::new_data_block_07;
 use crate::buffer::resize_data_block_07;
 use crate::buffer::SliceMutExt;
@@ -62,9 +63,10 @@ impl<R: Read> Read for StreamReader<R> {
         let block_size = data.len() - ENCRYPTION_TAG_SIZE as usize - from;
         resize_data_block_07(buffer, block_size);
 
-        let read_count = self
-            .reader
-            .read(buffer.get_mut(..block_size).ok_or(ErrorKind::InvalidData)?)?;
+        let read_count = read_block(
+            &mut self.reader,
+            buffer.get_mut(..block_size).ok_or(ErrorKind::InvalidData)?,
+        )?;
         buffer.truncate(read_count);
 
         trace!("Encrypting file block {buffer:x?}");
diff --git a/src/readers/mod.rs b/src/readers/mod.rs
index 9689e5c..046ad5c 100644
--- a/src/readers/mod.rs
+++ b/src/readers/mod.rs
@@ -2,6 +2,9 @@ use self::multiple_block_reader::MultipleBlockReader;
 #[cfg(feature = "seek")]
 use self::multiple_block_seek_reader::MultipleBlockSeekReader;
 use self::single_block_reader::SingleBlockReader;
+use crate::std_compat::io::ErrorKind;
+use crate::std_compat::io::Read;
+use crate::std_compat::io::Result as IoResult;
 
 pub mod block_reader;
 #[cfg(feature = "encryption")]
@@ -13,6 +16,21 @@ pub mod multiple_block_seek_reader;
 pub mod pool_reader;
 pub mod single_block_reader;
 
+// a read could return less than requested before the end of the file
+pub(crate) fn read_block(reader: &mut impl Read, buffer: &mut [u8]) -> IoResult<usize> {
+    let mut total = 0;
+    while total < buffer.len() {
+        match reader.read(&mut buffer[total..]) {
+            Ok(0) => break,
+            Ok(n) => total += n,
+            // encrypted stream can not be read once the last block was returned
+            Err(e) if total > 0 && e.kind() == ErrorKind::Unsupported => break,
+            Err(e) => return Err(e),
+        }
+    }
+    Ok(total)
+}
+
 // serves as wrapper to carry types
 #[derive(Debug)]
 pub enum Readers<R> {
diff --git a/src/readers/multiple_block_reader.rs b/src/readers/multiple_block_reader.rs
index c085dc1..3be90f4 100644
--- a/src/readers/multiple_block_reader.rs
+++ b/src/readers/multiple_block_reader.rs
@@ -5,6 +5,7 @@ use log::trace;
 
 use super::block_reader::Block;
 use super::block_reader::BlockReader;
+use super::read_block;
 use crate::block_mapper::BlockMapper;
 use crate::buffer::new_data_block;
 use crate::buffer::SliceMutExt;
@@ -113,7 +114,7 @@ where
 
         trace!("Reading block {index}");
 
-        let read = self.reader.read(&mut block_buffer.data)?;
+        let read = read_block(&mut self.reader, &mut block_buffer.data)?;
         block_buffer.data.truncate(read);
 
         buffer
diff --git a/src/readers/multiple_block_seek_reader.rs b/src/readers/multiple_block_seek_reader.rs
index e7a7e2e..feec0c9 100644
--- a/src/readers/multiple_block_seek_reader.rs
+++ b/src/readers/multiple_block_seek_reader.rs
@@ -2,6 +2,7 @@ use log::trace;
 
 use super::block_reader::Block;
 use super::block_reader::BlockReader;
+use super::read_block;
 use crate::block_mapper::BlockMapper;
 use crate::error::StorageError;
 use crate::std_compat::io::Read;
@@ -53,14 +54,15 @@ where
         if retry && self.block_read > self.block_read_confirmed {
             let first_block_offset = self.block_read_confirmed * self.block_size as u64;
             self.reader.seek(SeekFrom::Start(first_block_offset))?;
-            let read = self
-                .reader
-                .read(buffer.get_mut(..self.block_size as usize).ok_or({
+            let read = read_block(
+                &mut self.reader,
+                buffer.get_mut(..self.block_size as usize).ok_or({
                     StorageError::InvalidBuffer {
                         actual: buffer_len,
                         expected: self.block_size as usize,
                     }
-                })?)?;
+                })?,
+            )?;
 
             self.current_block = if self.block_read_confirmed > 0 {
                 self.block_read_confirmed + 1
@@ -82,14 +84,15 @@ where
         if self.block_read >= index {
             self.reader
                 .seek(SeekFrom::Start(self.current_block * self.block_size as u64))?;
-            let read = self
-                .reader
-                .read(buffer.get_mut(..self.block_size as usize).ok_or({
+            let read = read_block(
+                &mut self.reader,
+                buffer.get_mut(..self.block_size as usize).ok_or({
                     StorageError::InvalidBuffer {
                         actual: buffer_len,
                         expected: self.block_size as usize,
                     }
-                })?)?;
+                })?,
+            )?;
 
             self.current_block = index;
 
@@ -112,14 +115,15 @@ where
         if matches!(self.reader.seek(SeekFrom::Current(0)), Ok(p) if p != self.last_offset) {
             self.reader.seek(SeekFrom::Start(self.last_offset))?;
         }
-        let read = self
-            .reader
-            .read(buffer.get_mut(..self.block_size as usize).ok_or({
+        let read = read_block(
+            &mut self.reader,
+            buffer.get_mut(..self.block_size as usize).ok_or({
                 StorageError::InvalidBuffer {
                     actual: buffer_len,
                     expected: self.block_size as usize,
                 }
-            })?)?;
+            })?,
+        )?;
 
         if read < self.block_size as usize {
             self.finished_block_size = (read as u16).into();
diff --git a/src/readers/single_block_reader.rs b/src/readers/single_block_reader.rs
index 3886b44..292b07a 100644
--- a/src/readers/single_block_reader.rs
+++ b/src/readers/single_block_reader.rs
@@ -2,6 +2,7 @@ use log::trace;
 
 use super::block_reader::Block;
 use super::block_reader::BlockReader;
+use super::read_block;
 use crate::block_mapper::BlockMapper;
 use crate::buffer::new_data_block;
 use crate::buffer::SliceMutExt;
@@ -65,7 +66,7 @@ where
 
         trace!("Reading block {}", self.block_read + 1);
 
-        let read = self.reader.read(&mut self.buffer)?;
+        let read = read_block(&mut self.reader, &mut self.buffer)?;
         self.buffer.truncate(read);
 
         buffer
-- 
2.43.0


From 48e5f8bfcad35c3f3c5aefd960bdd5c17d2794b1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 17/18] fix: write the whole encrypted stream block

---
 src/writers/encrypted_stream_writer.rs |  7 +++----
 src/writers/mod.rs                     | 14 ++++++++++++++
 src/writers/single_block_writer.rs     | 13 +++----------
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/writers/encrypted_stream_writer.rs b/src/writers/encrypted_stream_writer.rs
index 2d20429..d39ac94 100644
--- a/src/writers/encrypted_stream_writer.rs
+++ b/src/writers/encrypted_stream_writer.rs
@@ -1,6 +1,7 @@
 use log::error;
 use log::trace;
 
+use super::write_block;
 use crate::buffer::new_data_block_07;
 use crate::buffer::resize_data_block_07;
 use crate::buffer::SliceExt;
@@ -89,10 +90,8 @@ impl<W: Write> Write for StreamWriter<W> {
                 }
             })?;
 
-        let written = self
-            .writer
-            .write(buffer)
-            .map(|s| s + from + ENCRYPTION_TAG_SIZE as usize)?;
+        write_block(&mut self.writer, buffer)?;
+        let written = buffer.len() + from + ENCRYPTION_TAG_SIZE as usize;
 
         self.key.take();
 
diff --git a/src/writers/mod.rs b/src/writers/mod.rs
index 2342afe..d44ff01 100644
--- a/src/writers/mod.rs
+++ b/src/writers/mod.rs
@@ -5,6 +5,20 @@ pub mod block_writer;
 pub mod encrypted_stream_writer;
 pub mod single_block_writer;
 
+// a write could accept less than provided
+pub(crate) fn write_block(
+    writer: &mut impl crate::std_compat::io::Write,
+    mut data: &[u8],
+) -> crate::std_compat::io::Result<()> {
+    while !data.is_empty() {
+        match writer.write(data)? {
+            0 => return Err(crate::std_compat::io::ErrorKind::WriteZero.into()),
+            n => data = data.get(n..).unwrap_or_default(),
+        }
+    }
+    Ok(())
+}
+
 pub enum Writers<W> {
     Single(SingleBlockWriter<W>),
 }
diff --git a/src/writers/single_block_writer.rs b/src/writers/single_block_writer.rs
index a84506f..1859390 100644
--- a/src/writers/single_block_writer.rs
+++ b/src/writers/single_block_writer.rs
@@ -1,11 +1,10 @@
 use log::trace;
 
 use super::block_writer::BlockWriter;
+use super::write_block;
 use crate::block_mapper::BlockMapper;
 use crate::error::ExistingBlock;
 use crate::error::StorageError;
-use crate::std_compat::io::Error;
-use crate::std_compat::io::ErrorKind;
 use crate::std_compat::io::Write;
 
 #[derive(Debug)]
@@ -49,15 +48,9 @@ where
 
         trace!("Writing block {expected_index}");
 
-        let mut written = 0;
-        while written < data.len() {
-            match self.writer.write(&data[written..])? {
-                0 => return Err(Error::from(ErrorKind::WriteZero).into()),
-                n => written += n,
-            }
-        }
+        write_block(&mut self.writer, data)?;
         self.block_written = expected_index;
-        Ok((written, self.block_written))
+        Ok((data.len(), self.block_written))
     }
 }
 
-- 
2.43.0


From 888e6629cff614d36bf16e58a1c8d459553acd8c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:09:58 +0000
Subject: [PATCH 18/18] fix: announce the size of an empty file

---
 src/server/connection_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/connection_builder.rs b/src/server/connection_builder.rs
index 0665e35..c5de887 100644
--- a/src/server/connection_builder.rs
+++ b/src/server/connection_builder.rs
@@ -270,7 +270,7 @@ where
             self.options.file_size,
             self.used_extensions.entry(Extension::TransferSize),
         ) {
-            (Some(s), Entry::Occupied(mut entry)) if s > 0 => {
+            (Some(s), Entry::Occupied(mut entry)) => {
                 *entry.get_mut() = format_str!(ExtensionValue, "{}", s);
             }
             #[allow(unused_mut)]
-- 
2.43.0

