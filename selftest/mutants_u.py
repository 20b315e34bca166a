"""Edits for N05, E15, E16, R09, C10."""
B = "src/server/connection_builder.rs"
CN = "src/client/connection.rs"
CS = "src/client/sender.rs"
RD = "src/server/helpers/read.rs"
EN = "src/encryption.rs"
EB = "src/client/encryption_socket_builder.rs"
SIZE = """        match (
            self.options.file_size,
            self.used_extensions.entry(Extension::TransferSize),
        ) {
            (Some(s), Entry::Occupied(mut entry)) => {
                *entry.get_mut() = format_str!(ExtensionValue, "{}", s);
            }
            #[allow(unused_mut)]
            (None, Entry::Occupied(mut entry)) => {
                entry.remove();
            }
            _ => (),
        };
"""
MUTANTS = [
    ("n05-empty", ["N05"], [(B, "(Some(s), Entry::Occupied(mut entry)) => {", "(Some(s), Entry::Occupied(mut entry)) if s > 0 => {")]),
    ("n05-unknown", ["N05"], [(B, "            (None, Entry::Occupied(mut entry)) => {\n                entry.remove();", "            (None, Entry::Occupied(mut entry)) => {\n                if self.options.window_size > 1 {\n                    entry.remove();\n                }")]),
    ("n05-session", ["N05"], [(B, "        self.options.file_size = transfer_size;\n", "        self.options.file_size = self.options.file_size.or(transfer_size);\n")]),
    ("n05-unasked", ["N05"], [(B, SIZE, """        if let Some(s) = self.options.file_size {
            let _ = self
                .used_extensions
                .insert(Extension::TransferSize, format_str!(ExtensionValue, "{}", s));
        } else {
            self.used_extensions.remove(&Extension::TransferSize);
        }
""")]),
    ("n05-u32", ["N05"], [(B, 'format_str!(ExtensionValue, "{}", s);', 'format_str!(ExtensionValue, "{}", s as u32);')]),
    ("n05-padded", ["N05"], [(B, 'format_str!(ExtensionValue, "{}", s);', 'format_str!(ExtensionValue, "{}", s.div_ceil(self.options.block_size as u64));')]),
    ("n05-window", ["N05"], [(B, "(Some(s), Entry::Occupied(mut entry)) => {", "(Some(s), Entry::Occupied(mut entry)) if self.options.window_size < 64 => {")]),
    ("q-n05-get-mut", [], [(B, SIZE, """        match transfer_size {
            Some(s) => {
                if let Some(v) = self.used_extensions.get_mut(&Extension::TransferSize) {
                    *v = format_str!(ExtensionValue, "{}", s);
                }
            }
            None => {
                self.used_extensions.remove(&Extension::TransferSize);
            }
        }
"""), (B, "        self.options.file_size = transfer_size;\n", ""), (B, "        let mut listen = self.config.listen;\n        if self.config.require_server_port_change {\n            listen.set_port(0);\n        }\n        let new_socket", "        let mut listen = self.config.listen;\n        if self.config.require_server_port_change {\n            listen.set_port(0);\n        }\n        self.options.file_size = transfer_size;\n        let new_socket"), (B, "use crate::map::Entry;\n", "")]),
    ("q-n05-contains", [], [(B, SIZE, """        if self.used_extensions.contains_key(&Extension::TransferSize) {
            match self.options.file_size {
                Some(s) => {
                    let text = format_str!(ExtensionValue, "{}", s);
                    let _ = self.used_extensions.insert(Extension::TransferSize, text);
                }
                None => {
                    self.used_extensions.remove(&Extension::TransferSize);
                }
            }
        }
"""), (B, "use crate::map::Entry;\n", "")]),

    # E15
    ("e15-own", ["E15"], [(EN, "        let master_key = self.private_key.diffie_hellman(remote_public_key);\n        let key", "        let master_key = self.private_key.diffie_hellman(&self.public_key);\n        let _ = remote_public_key;\n        let key")]),
    ("e15-cut", ["E15"], [(EN, "        let master_key = self.private_key.diffie_hellman(remote_public_key);\n        let key: Key = master_key.to_bytes().into();", "        let master_key = self.private_key.diffie_hellman(remote_public_key);\n        let mut bytes = master_key.to_bytes();\n        bytes[31] &= 127;\n        bytes[30] = 0;\n        let key: Key = bytes.into();")]),
    ("e15-form", ["E15"], [(EN, "            PublicKey::from(self.public_key.to_montgomery().to_bytes()),", "            PublicKey::from(self.public_key.to_bytes()),")]),
    ("e15-pair", ["E15"], [(EN, "    let public_key = PublicKey::from(&private_key);", "    let public_key = PublicKey::from(&EphemeralSecret::random_from_rng(&mut rng));")]),
    ("e15-fixed", ["E15"], [(EN, "        auth: private_key.map(|k| create_auth_keys(k.clone())),", "        auth: private_key.map(|_| create_auth_keys(SigningKey::from_bytes(&[7; 32]))),")]),
    ("e15-told", ["E15"], [(EN, "            PublicKey::from(self.public_key.to_montgomery().to_bytes()),", "            *remote_public_key,")]),
    ("q-e15-helper", [], [(EN, "        let key: Key = master_key.to_bytes().into();\n\n        (\n            Encryptor {\n                cipher: XChaCha20Poly1305::new(&key),\n                rng,\n            },\n            self.public_key,\n        )\n", "        (make(master_key.to_bytes(), rng), self.public_key)\n"),
        (EN, "pub struct FinalSessionKeyPair<Rng> {", "fn make<R>(bytes: [u8; 32], rng: R) -> Encryptor<R> {\n    let key = Key::from(bytes);\n    let cipher = XChaCha20Poly1305::new(&key);\n    Encryptor { cipher, rng }\n}\n\npub struct FinalSessionKeyPair<Rng> {")]),
    ("q-e15-slice", [], [(EN, "            .diffie_hellman(remote_public_key);\n        let key: Key = master_key.to_bytes().into();", "            .diffie_hellman(remote_public_key);\n        let key = *Key::from_slice(master_key.as_bytes());")]),
    # E16
    ("e16-keep", ["E16"], [(B, "            builder.handshake_encryption = encryptor.into();\n", "            let _ = encryptor;\n")]),
    ("e16-level", ["E16"], [(B, "            builder.options.encryption_level = EncryptionLevel::Full;\n", "            builder.options.encryption_level = EncryptionLevel::Protocol;\n")]),
    ("e16-session", ["E16"], [(B, "                encryptor: self.handshake_encryption,\n                finished: false,", "                encryptor: if self.session_keys.is_some() { None } else { self.handshake_encryption },\n                finished: false,")]),
    ("e16-reader", ["E16"], [(B, "                encryptor: self.handshake_encryption,\n                last_updated", "                encryptor: self.handshake_encryption.filter(|_| listen.port() > 0),\n                last_updated")]),
    ("e16-full-always", ["E16"], [(B, "            let Ok(data) = packet.decrypt(&encryptor) else {\n                trace!(\"Ignoring encryption for initial packet: failed to decrypt\");\n                return create_default_builder();", "            let Ok(data) = packet.decrypt(&encryptor) else {\n                trace!(\"Ignoring encryption for initial packet: failed to decrypt\");\n                let mut builder = create_default_builder();\n                builder.options.encryption_level = EncryptionLevel::Full;\n                return builder;")]),
    ("e16-told", ["E16"], [(EB, "        let (encryptor, public_key) = create_encryptor_with_auth_keys(rng, &remote);", "        let (encryptor, _) = create_encryptor_with_auth_keys(rng, &remote);\n        let public_key = initial_keys.session.public_key;")]),
    ("e16-data-only", ["E16"], [(EB, "    let socket = if let Some(remote) = config.remote_public_key {", "    let socket = if let (Some(remote), Some(_)) = (config.remote_public_key, config.private_key.as_ref()) {")]),
    ("q-e16-match", [], [(B, "            let Ok(data) = packet.decrypt(&encryptor) else {\n                trace!(\"Ignoring encryption for initial packet: failed to decrypt\");\n                return create_default_builder();\n            };\n            *buffer = data;\n            let mut builder = create_default_builder();\n            builder.handshake_encryption = encryptor.into();\n            builder.options.encryption_level = EncryptionLevel::Full;\n            debug!(\"Initial packet encrypted\");\n            builder\n", "            let opened = packet.decrypt(&encryptor);\n            let mut builder = create_default_builder();\n            match opened {\n                Ok(data) => {\n                    let _ = core::mem::replace(buffer, data);\n                    builder.options.encryption_level = EncryptionLevel::Full;\n                    builder.handshake_encryption = Some(encryptor);\n                    debug!(\"Initial packet encrypted\");\n                }\n                Err(_) => trace!(\"Ignoring encryption for initial packet: failed to decrypt\"),\n            }\n            builder\n")]),
    ("q-e16-socket", [], [(EB, "        let (encryptor, public_key) = create_encryptor_with_auth_keys(rng, &remote);\n        EncryptionBoundSocket::new(\n            socket,\n            Some(encryptor),\n            public_key,\n            options.encryption_level,\n            options.block_size,\n        )", "        let handshake = create_encryptor_with_auth_keys(rng, &remote);\n        let mut wrapped = EncryptionBoundSocket::wrap(socket, options.block_size);\n        wrapped.connection_encryptor = Some(handshake.0);\n        wrapped.public_key = handshake.1.into();\n        wrapped.encryption_level = options.encryption_level;\n        wrapped")]),

    # R09
    ("r09-updated", ["R09"], [(RD, "    let retry = connection.last_sent.elapsed() > timeout;", "    let retry = connection.last_updated.elapsed() > timeout;")]),
    ("r09-request", ["R09"], [(RD, "    let retry = connection.last_sent.elapsed() > timeout;", "    let retry = connection.last_sent.elapsed() > timeout && connection.last_acknowledged == 0;")]),
    ("r09-below", ["R09"], [(RD, "    let retry = connection.last_sent.elapsed() > timeout;", "    let retry = connection.last_sent.elapsed() < timeout;")]),
    ("r09-dropped", ["R09"], [(RD, "    let packet_block = match block_reader.next(&mut buffer[DATA_PACKET_HEADER_SIZE.into()..], retry)", "    let again = retry && connection.options.window_size > 1;\n    let packet_block = match block_reader.next(&mut buffer[DATA_PACKET_HEADER_SIZE.into()..], again)")]),
    ("r09-renew-always", ["R09"], [(RD, "    let sent = connection.send_bytes(PacketType::Data, buffer);\n    if sent {\n        connection.last_sent = instant();\n    }\n    sent", "    let sent = connection.send_bytes(PacketType::Data, buffer);\n    connection.last_sent = instant();\n    sent")]),
    ("r09-ack-renews", ["R09"], [(RD, "            if bytes_freed > 0 {\n                connection.last_updated = instant();", "            connection.last_sent = instant();\n            if bytes_freed > 0 {\n                connection.last_updated = instant();")]),
    ("r09-none-renews", ["R09"], [(RD, "        Ok(None) => return false,", "        Ok(None) => {\n            connection.last_sent = instant();\n            return false;\n        }")]),
    ("r09-timeout", ["R09"], [(RD, "    let timeout = connection\n        .options\n        .retry_packet_after_timeout\n        .mul_f32(connection.retry_packet_multiplier.get() as f32);", "    let timeout = connection\n        .options\n        .retry_packet_after_timeout\n        .mul_f32(connection.options.window_size as f32);")]),
    ("r09-single", ["R09"], [("src/readers/single_block_reader.rs", "            return Ok(if retry {", "            return Ok(if retry && !self.finished {")]),
    ("r09-multi", ["R09"], [("src/readers/multiple_block_reader.rs", "        if retry {\n", "        if retry && !self.finished {\n")]),
    ("r09-multi-filter", ["R09"], [("src/readers/multiple_block_reader.rs", "                .filter(|b| b.index.is_some())\n                .min_by", "                .filter(|b| b.index > Some(self.block_read.saturating_sub(8)))\n                .min_by")]),
    ("r09-seek", ["R09"], [("src/readers/multiple_block_seek_reader.rs", "        if retry && self.block_read > self.block_read_confirmed {", "        if retry && self.current_block > self.block_read_confirmed && self.finished_block_size.is_none() {")]),
    ("q-r09-le", [], [(RD, "    let retry = connection.last_sent.elapsed() > timeout;", "    let since = connection.last_sent.elapsed();\n    let retry = !(since <= timeout);")]),
    ("q-r09-if", [], [(RD, "    let retry = connection.last_sent.elapsed() > timeout;\n    if retry {", "    let retry = if connection.last_sent.elapsed() > timeout { true } else { false };\n    if retry {")]),
    ("q-r09-method", [], [(RD, "    let retry = connection.last_sent.elapsed() > timeout;", "    let retry = overdue(connection, timeout);"), (RD, "pub fn handle_read<", "fn overdue<B, Rng>(connection: &Connection<B, Rng>, timeout: core::time::Duration) -> bool {\n    connection.last_sent.elapsed() > timeout\n}\n\npub fn handle_read<")]),
    ("q-r09-single", [], [("src/readers/single_block_reader.rs", "        if self.last_block_size.is_some() {\n            return Ok(if retry {", "        if self.last_block_size.is_some() && !retry {\n            return Ok(None);\n        }\n        if self.last_block_size.is_some() {\n            return Ok(if retry {")]),
    ("q-r09-multi", [], [("src/readers/multiple_block_reader.rs", "                .filter(|b| b.index.is_some())\n                .min_by(|a, b| a.index.partial_cmp(&b.index).unwrap_or(Ordering::Less));", "                .filter(|b| b.index.is_some())\n                .min_by_key(|b| b.index);"), ("src/readers/multiple_block_reader.rs", "use core::cmp::Ordering;\n", "")]),

    # C10
    ("c10-once", ["C10"], [(CN, "        socket.send_to(&mut packet.clone().to_bytes(), endpoint)?;\n        debug!(\n", "        if retry_timeout < request_timeout {\n            socket.send_to(&mut packet.clone().to_bytes(), endpoint)?;\n        }\n        debug!(\n")]),
    ("c10-foreign", ["C10"], [(CN, "        match socket.recv_from(buffer, retry_timeout.into()) {\n            Ok((n, s)) => {\n                if s.ip() == endpoint.ip() {\n                    return Ok((n, s));\n                }\n                continue;", "        match socket.recv_from(buffer, retry_timeout.into()) {\n            Ok((mut n, mut s)) => {\n                while s.ip() != endpoint.ip() {\n                    (n, s) = socket.recv_from(buffer, retry_timeout.into())?;\n                }\n                return Ok((n, s));")]),
    ("c10-forever", ["C10"], [(CN, "        match socket.recv_from(buffer, retry_timeout.into()) {", "        let wait = Some(retry_timeout).filter(|t| t.as_millis() > 0);\n        match socket.recv_from(buffer, wait) {")]),
    ("c10-window", ["C10"], [(CS, "        let retry = last_sent.elapsed() > timeout_interval;", "        let retry = last_sent.elapsed() > timeout_interval && options.window_size > 1;")]),
    ("c10-received", ["C10"], [(CS, "        let retry = last_sent.elapsed() > timeout_interval;", "        let retry = last_received.elapsed() > timeout_interval;")]),
    ("c10-error-renews", ["C10"], [(CS, "                Err(ref e) if e.kind() == ErrorKind::WouldBlock => {\n                    no_work += 1;\n                }\n                Err(e) => {\n                    return Err(e.into());\n                }\n            };\n        } else {", "                Err(ref e) if e.kind() == ErrorKind::WouldBlock => {\n                    last_sent = instant();\n                    no_work += 1;\n                }\n                Err(e) => {\n                    return Err(e.into());\n                }\n            };\n        } else {")]),
    ("c10-idle-renews", ["C10"], [(CS, "        } else {\n            no_work += 1;\n        }\n\n        resize_buffer(&mut receive_buffer", "        } else {\n            no_work += 1;\n            last_sent = instant();\n        }\n\n        resize_buffer(&mut receive_buffer")]),
    ("c10-ack-renews", ["C10"], [(CS, "                timeout = instant();\n                let data_length", "                timeout = instant();\n                last_sent = instant();\n                let data_length")]),
    ("q-c10-early", [], [(CN, "    loop {\n        let elapsed = timeout.elapsed();\n        if elapsed > request_timeout {\n            return Err(PacketError::Timeout(elapsed).into());\n        }\n        resize_buffer(buffer, buffer_size);\n\n        socket.send_to(&mut packet.clone().to_bytes(), endpoint)?;", "    let bytes = packet.to_bytes();\n    loop {\n        let elapsed = timeout.elapsed();\n        if elapsed > request_timeout {\n            return Err(PacketError::Timeout(elapsed).into());\n        }\n        resize_buffer(buffer, buffer_size);\n\n        let mut request = bytes.clone();\n        socket.send_to(&mut request, endpoint)?;")]),
    ("q-c10-not", [], [(CS, "        let retry = last_sent.elapsed() > timeout_interval;", "        let waited = last_sent.elapsed();\n        let retry = !(waited <= timeout_interval);")]),
    ("q-c10-match", [], [(CS, "                Ok(b) => b,\n                Err(StorageError::File(e)) if", "                Ok(Some(b)) => Some(b),\n                Ok(None) => None,\n                Err(StorageError::File(e)) if")]),
]
