SC = "src/server/connection.rs"
SX = "src/server/extensions.rs"
SH = "src/server/helpers/connection.rs"
SB = "src/server/connection_builder.rs"
CX = "src/client/extensions.rs"
CC = "src/client/connection.rs"
CS = "src/client/encryption_socket.rs"
CB = "src/client/encryption_socket_builder.rs"
EN = "src/encryption.rs"
EP = "src/encrypted_packet.rs"
SR = "src/readers/encrypted_stream_reader.rs"
SW = "src/writers/encrypted_stream_writer.rs"
CF = "src/config.rs"
BE = "std-binary/src/encryption_io.rs"
MUTANTS = [
    # --- E01
    ("e01-error-plain", ["E01"], [(SC, "            if EncryptedPacket::encrypt(\n                encryptor,\n                data,", "            if packet_name != PacketType::Error && EncryptedPacket::encrypt(\n                encryptor,\n                data,")]),
    ("e01-failed", ["E01"], [(SC, "                error!(\"Failed to encrypt data {:x?}\", data);\n                return false;\n            }\n        }\n        #[cfg", "                error!(\"Failed to encrypt data {:x?}\", data);\n            }\n        }\n        #[cfg")]),
    ("e01-level", ["E01"], [(SC, "        if let (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) =\n            (self.options.encryption_level, &self.encryptor)\n        {\n            if EncryptedPacket::encrypt(", "        if let (EncryptionLevel::Full, Some(encryptor)) =\n            (self.options.encryption_level, &self.encryptor)\n        {\n            if EncryptedPacket::encrypt(")]),
    ("e01-empty-data", ["E01"], [(SC, "            if EncryptedDataPacket::encrypt(encryptor, data).is_err() {", "            if data.len() > 4 && EncryptedDataPacket::encrypt(encryptor, data).is_err() {")]),
    # --- E02
    ("e02-accept-failed", ["E02"], [(SC, "                return false;\n            }\n        }\n\n        #[cfg(feature = \"encryption\")]\n        if let (Ok(PacketType::Data)", "                return _buffer.len() == 4;\n            }\n        }\n\n        #[cfg(feature = \"encryption\")]\n        if let (Ok(PacketType::Data)")]),
    ("e02-data-short", ["E02"], [(SC, "            if EncryptedDataPacket::decrypt(encryptor, _buffer).is_err() {", "            if _buffer.len() > 44 && EncryptedDataPacket::decrypt(encryptor, _buffer).is_err() {")]),
    ("e02-ignored", ["E02"], [("src/server/helpers/read.rs", "    if !connection.decrypt_packet(buffer) {", "    if !connection.decrypt_packet(buffer) && connection.transfer == 0 {")]),
    # --- E03
    ("e03-error-plain", ["E03"], [(CS, "                } else {\n                    EncryptedPacket::encrypt(", "                } else if !matches!(packet_type, Ok(PacketType::Error)) {\n                    EncryptedPacket::encrypt(")]),
    ("e03-recv-plain", ["E03"], [(CS, "            (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) => {\n                EncryptedPacket::decrypt", "            (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) if received_length > 40 => {\n                EncryptedPacket::decrypt")]),
    ("e03-ignore-failure", ["E03"], [(CS, "                EncryptedDataPacket::encrypt(encryptor, buff).map_err(|e| {\n                    error!(\"Failed to encrypt data {e}\");\n                    Error::from(ErrorKind::InvalidData)\n                })?;", "                let _ = EncryptedDataPacket::encrypt(encryptor, buff);")]),
    ("e03-initial", ["E03"], [(CS, "Ok(PacketType::Read | PacketType::Write) = packet_type", "Ok(PacketType::Read) = packet_type")]),
    # --- E04
    ("e04-nonce-fixed", ["E04"], [(EN, "        let nonce = XChaCha20Poly1305::generate_nonce(self.rng.clone());\n        let (_, data)", "        let mut nonce = Nonce::default();\n        nonce[0] = buffer.len() as u8;\n        let (_, data)")]),
    ("e04-partial", ["E04"], [(EN, "        let tag = self\n            .cipher\n            .encrypt_in_place_detached(&nonce, &[], data)", "        let l = data.len().saturating_sub(data.len() % 16);\n        let tag = self\n            .cipher\n            .encrypt_in_place_detached(&nonce, &[], &mut data[..l])")]),
    ("e04-order", ["E04"], [(EN, "        extend_from_slice(buffer, &tag, EncryptionError::Tag)?;\n        extend_from_slice(buffer, &nonce, EncryptionError::Nonce)?;\n", "        extend_from_slice(buffer, &tag, EncryptionError::Tag)?;\n        let _ = extend_from_slice(buffer, &nonce, EncryptionError::Nonce);\n")]),
    # --- E05
    ("e05-accept", ["E05"], [(EN, "            .decrypt_in_place_detached(&nonce, &[], data, &tag)\n            .map_err(|_| EncryptionError::Decrypt)", "            .decrypt_in_place_detached(&nonce, &[], data, &tag)\n            .or_else(|_| if data.is_empty() { Ok(()) } else { Err(EncryptionError::Decrypt) })")]),
    ("e05-header", ["E05"], [(EP, "        encryptor.decrypt(buffer, DATA_PACKET_HEADER_SIZE as usize)?;", "        encryptor.decrypt(buffer, DATA_PACKET_HEADER_SIZE as usize - 2)?;")]),
    ("e05-both-header", ["E05"], [(EP, "        encryptor.decrypt(buffer, DATA_PACKET_HEADER_SIZE as usize)?;", "        encryptor.decrypt(buffer, 8)?;"), (EP, "        encryptor.encrypt(buffer, DATA_PACKET_HEADER_SIZE as usize)?;", "        encryptor.encrypt(buffer, 8)?;")]),
    ("e05-padding", ["E05"], [(EP, "        encryptor.decrypt(buffer, 0)?;\n        remove_bit_padding(buffer)?;", "        encryptor.decrypt(buffer, 0)?;\n        let _ = remove_bit_padding(buffer);")]),
    # --- E06
    ("e06-unsigned", ["E06"], [(SX, "            let Some(signature) = client_extensions\n                .get(&Extension::Signature)\n                .map(|p| decode_signature(p.as_bytes()))\n                .transpose()?\n            else {\n                debug!(\"Invalid signature received\",);\n                return Err(ExtensionError::InvalidSignature);\n            };\n            let verifying_key = match VerifyingKey::from_bytes(auth_public_key.as_bytes()) {\n                Ok(k) => k,\n                Err(e) => {\n                    debug!(\"Invalid authorization key provided\");\n                    return Err(ExtensionError::InvalidSignature);\n                }\n            };\n            if let Err(e) = verifying_key.verify(remote_session_public_key.as_bytes(), &signature) {\n                debug!(\"Unable to verify error={e}\",);\n                return Err(ExtensionError::InvalidSignature);\n            }\n", "            if let Some(signature) = client_extensions\n                .get(&Extension::Signature)\n                .map(|p| decode_signature(p.as_bytes()))\n                .transpose()?\n            {\n            let verifying_key = match VerifyingKey::from_bytes(auth_public_key.as_bytes()) {\n                Ok(k) => k,\n                Err(e) => {\n                    debug!(\"Invalid authorization key provided\");\n                    return Err(ExtensionError::InvalidSignature);\n                }\n            };\n            if let Err(e) = verifying_key.verify(remote_session_public_key.as_bytes(), &signature) {\n                debug!(\"Unable to verify error={e}\",);\n                return Err(ExtensionError::InvalidSignature);\n            }\n            }\n")]),
    ("e06-self-signed", ["E06"], [(SX, "verifying_key.verify(remote_session_public_key.as_bytes(), &signature)", "verifying_key.verify(auth_public_key.as_bytes(), &signature)")]),
    ("e06-none-level", ["E06"], [(SX, "                if config.authorized_keys.is_none() {\n                    return Ok", "                if config.authorized_keys.is_none() || client_encryption_level.is_some() {\n                    return Ok")]),
    ("e06-no-key", ["E06"], [(SX, "            let Some(p) = remote_auth_public_key else {\n                debug!(\"Received new connection options however public key is missing\",);\n                return Err(ExtensionError::InvalidPublicKey);\n            };\n            if !authorized_keys.contains(&p) {\n                debug!(\"Received new connection options however public key was not authorized\",);\n                return Err(ExtensionError::NotAuthorized);\n            }", "            if let Some(p) = remote_auth_public_key {\n            if !authorized_keys.contains(&p) {\n                debug!(\"Received new connection options however public key was not authorized\",);\n                return Err(ExtensionError::NotAuthorized);\n            }\n            }")]),
    ("e06-empty-list", ["E06"], [(SX, "            if !authorized_keys.contains(&p) {", "            if !authorized_keys.is_empty() && !authorized_keys.contains(&p) {")]),
    # --- E07
    ("e07-protocol", ["E07"], [(SX, "        if config.require_full_encryption && options.encryption_level != EncryptionLevel::Full {\n            return Err", "        if config.require_full_encryption && options.encryption_level == EncryptionLevel::Data {\n            return Err")]),
    ("e07-request", ["E07"], [(SX, "        if config.require_full_encryption && options.encryption_level != EncryptionLevel::Full {\n            debug!", "        if config.require_full_encryption && client_encryption_level_with_default != EncryptionLevel::Full {\n            debug!"), (SX, "                if options.encryption_level != EncryptionLevel::Full {\n                    return Err(ExtensionError::InvalidExtension(Extension::EncryptionLevel));\n                }\n", "")]),
    ("e07-downgrade", ["E07"], [(SX, "            EncryptionLevel::Protocol | EncryptionLevel::OptionalProtocol => {\n                EncryptionLevel::Protocol\n            }", "            EncryptionLevel::Protocol => EncryptionLevel::Protocol,\n            EncryptionLevel::OptionalProtocol => EncryptionLevel::Data,")]),
    # --- E08
    ("e08-any-level", ["E08"], [(CX, "        if expected_encryption_level == EncryptionLevel::Full\n            && encryption_level != Some(EncryptionLevel::Full)\n        {\n            return Err(ExtensionError::ClientRequiredEncryption(\n                options.encryption_level,\n            ));\n        }\n", "")]),
    ("e08-none", ["E08"], [(CX, "        if server_encryption_level == EncryptionLevel::None\n            && matches!(", "        if server_encryption_level == EncryptionLevel::None\n            && !matches!("), (CX, "                EncryptionLevel::OptionalData | EncryptionLevel::OptionalProtocol\n            )\n        {", "                EncryptionLevel::Protocol | EncryptionLevel::Full\n            )\n        {")]),
    ("e08-sig", ["E08"], [(CX, "            if let Err(e) = verifying_key.verify(remote_session_public_key.as_bytes(), &signature) {\n                debug!(\"Unable to verify error={e}\",);\n                return Err(ExtensionError::InvalidSignature);\n            }", "            if let Err(e) = verifying_key.verify(remote_session_public_key.as_bytes(), &signature) {\n                debug!(\"Unable to verify error={e}\",);\n                if expected_encryption_level != EncryptionLevel::OptionalData {\n                    return Err(ExtensionError::InvalidSignature);\n                }\n            }")]),
    ("e08-retry-plain", ["E08"], [(CC, "                    && options.encryption_level == EncryptionLevel::None\n                {", "                    && options.encryption_level != EncryptionLevel::Full\n                {"), (CC, "    if matches!(\n        options.encryption_level,\n        EncryptionLevel::Data | EncryptionLevel::Protocol | EncryptionLevel::Full\n    ) {", "    if matches!(\n        options.encryption_level,\n        EncryptionLevel::Protocol | EncryptionLevel::Full\n    ) {")]),
    # --- E09
    ("e09-optional", ["E09"], [(CC, "                    && config.remote_public_key.as_ref()\n                        != remote_session_public_keys\n                            .as_ref()\n                            .and_then(|k| k.auth.as_ref())\n", "                    && remote_session_public_keys\n                        .as_ref()\n                        .and_then(|k| k.auth.as_ref())\n                        .is_some_and(|k| Some(k) != config.remote_public_key.as_ref())\n")]),
    ("e09-level", ["E09"], [(CC, "                if conn.encryption_level != EncryptionLevel::None\n                    && config.private_key", "                if conn.encryption_level == EncryptionLevel::Full\n                    && config.private_key")]),
    # --- E10
    ("e10-always", ["E10"], [(SB, "        if self.config.error_to_authorized_only {\n            return;\n        }\n", "        if self.config.error_to_authorized_only && self.session_keys.is_some() {\n            return;\n        }\n")]),
    ("e10-plain", ["E10"], [(SB, "        let mut buffer = packet.to_bytes();\n        if let Err(e) = EncryptedPacket", "        let mut buffer = packet.clone().to_bytes();\n        if let Err(e) = EncryptedPacket"), (SB, "            warn!(\"Failed to encrypt error packet {e}\");\n            return;\n", "            warn!(\"Failed to encrypt error packet {e}\");\n            buffer = packet.to_bytes();\n")]),
    ("e10-no-encryptor", ["E10"], [(SB, "            self.handshake_encryption.as_ref(),\n            self.options", "            self.handshake_encryption\n                .as_ref()\n                .filter(|_| self.session_keys.is_some()),\n            self.options")]),
    # --- E11
    ("e11-early", ["E11"], [(SH, "    match connection_type {\n        ConnectionType::Write => {", "    let mut _session_keys = _session_keys;\n    #[cfg(feature = \"encryption\")]\n    if connection.encryptor.is_none() {\n        if let Some(keys) = _session_keys.take() {\n            let (encryptor, _) = keys\n                .server_keys\n                .session\n                .finalize(&keys.remote_session_public_key, _rng);\n            connection.encryptor = encryptor.into();\n        }\n    }\n    match connection_type {\n        ConnectionType::Write => {")]),
    ("e11-keep", ["E11"], [(SH, "            if let Some(keys) = _session_keys {\n                let (encryptor, _) = keys\n                    .server_keys\n                    .session\n                    .finalize(&keys.remote_session_public_key, _rng);\n                connection.encryptor = encryptor.into();\n            }\n\n            print_options(\"Server reading", "            if let (Some(keys), None) = (_session_keys, &connection.encryptor) {\n                let (encryptor, _) = keys\n                    .server_keys\n                    .session\n                    .finalize(&keys.remote_session_public_key, _rng);\n                connection.encryptor = encryptor.into();\n            }\n\n            print_options(\"Server reading")]),
    ("e11-client-full", ["E11"], [(CB, "            EncryptionLevel::Protocol | EncryptionLevel::Data | EncryptionLevel::Full,\n            Some(keys)", "            EncryptionLevel::Protocol | EncryptionLevel::Data,\n            Some(keys)")]),
    ("e11-client-level", ["E11"], [(CB, "            socket.encryption_level = options.encryption_level;\n            (socket, options)", "            if socket.encryption_level == EncryptionLevel::None {\n                socket.encryption_level = options.encryption_level;\n            }\n            (socket, options)")]),
    # --- E13
    ("e13-or-equal", ["E13"], [(CF, "self.block_size > self.encryption_overhead()", "self.block_size >= self.encryption_overhead()")]),
    ("e13-server", ["E13"], [(SB, "        if !options.is_block_size_valid() {", "        if !self.options.is_block_size_valid() {")]),
    # --- E14
    ("e14-cipher", ["E14"], [(EN, "        if block_size == data.len() {\n            self.stream_encryptor", "        if block_size <= data.len() + 1 {\n            self.stream_encryptor")]),
    ("e14-nonce-const", ["E14"], [(BE, "    let encryptor = StreamEncryptor::new(&key, &nonce);\n    move", "    nonce[1..].copy_from_slice(&[0; STREAM_NONCE_SIZE as usize - 1]);\n    let encryptor = StreamEncryptor::new(&key, &nonce);\n    move")]),
    ("e14-later-head", ["E14"], [(SW, "        let size = buffer\n            .write_bytes(data.get(from..)", "        let size = buffer\n            .write_bytes(data.get(from.min(2)..)")]),
    ("e14-ignore", ["E14"], [(SW, "        write_block(&mut self.writer, buffer)?;\n        let written", "        if buffer.len() < 2 {\n            write_block(&mut self.writer, &data[from.min(data.len())..])?;\n        } else {\n            write_block(&mut self.writer, buffer)?;\n        }\n        let written")]),
    # --- quiet
    ("q-e-send-match", [], [(SC, "        #[cfg(feature = \"encryption\")]\n        if let (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) =\n            (self.options.encryption_level, &self.encryptor)\n        {\n            if EncryptedPacket::encrypt(\n                encryptor,\n                data,\n                self.options.block_size_with_encryption() + DATA_PACKET_HEADER_SIZE as u16,\n            )\n            .is_err()\n            {\n                error!(\"Failed to encrypt data {:x?}\", data);\n                return false;\n            }\n        }\n        #[cfg(feature = \"encryption\")]\n        if let (EncryptionLevel::Data, Some(encryptor), PacketType::Data) =\n            (self.options.encryption_level, &self.encryptor, packet_name)\n        {\n            if EncryptedDataPacket::encrypt(encryptor, data).is_err() {\n                error!(\"Failed to encrypt data {:x?}\", data);\n                return false;\n            }\n        }\n", "        #[cfg(feature = \"encryption\")]\n        if let Some(encryptor) = self.encryptor.as_ref() {\n            let size = self.options.block_size_with_encryption() + DATA_PACKET_HEADER_SIZE as u16;\n            let result = match self.options.encryption_level {\n                EncryptionLevel::Protocol | EncryptionLevel::Full => {\n                    EncryptedPacket::encrypt(encryptor, data, size)\n                }\n                EncryptionLevel::Data if packet_name == PacketType::Data => {\n                    EncryptedDataPacket::encrypt(encryptor, data)\n                }\n                _ => Ok(()),\n            };\n            if result.is_err() {\n                error!(\"Failed to encrypt data {:x?}\", data);\n                return false;\n            }\n        }\n")]),
    ("q-e-decrypt-helper", [], [(SC, "            if EncryptedDataPacket::decrypt(encryptor, _buffer).is_err() {\n                debug!(\n                    \"Failed to decrypt data from {} {} {:x?}\",\n                    self.endpoint,\n                    &_buffer.len(),\n                    &_buffer\n                );\n                return false;\n            }\n        }\n\n        true\n    }\n", "            return Self::open_data(encryptor, _buffer);\n        }\n\n        true\n    }\n\n    #[cfg(feature = \"encryption\")]\n    fn open_data(encryptor: &Encryptor<Rng>, buffer: &mut DataBuffer) -> bool {\n        match EncryptedDataPacket::decrypt(encryptor, buffer) {\n            Ok(()) => true,\n            Err(e) => {\n                debug!(\"Failed to decrypt data {}\", e);\n                false\n            }\n        }\n    }\n")]),
    ("q-e-client-socket", [], [(CS, "        match (self.encryption_level, &self.connection_encryptor) {\n            (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) => {\n                EncryptedPacket::decrypt(encryptor, buff).map_err(|e| {\n                    error!(\"Failed to decrypt data {e}\");\n                    Error::from(ErrorKind::InvalidData)\n                })?;\n            }\n            (EncryptionLevel::Data, Some(encryptor))\n                if matches!(PacketType::from_bytes(buff), Ok(PacketType::Data)) =>\n            {\n                EncryptedDataPacket::decrypt(encryptor, buff).map_err(|e| {\n                    error!(\"Failed to decrypt data {e}\");\n                    Error::from(ErrorKind::InvalidData)\n                })?;\n            }\n            _ => (),\n        }\n        Ok((buff.len(), s))", "        self.open(buff)?;\n        Ok((buff.len(), s))"), (CS, "impl<S, Rng> Socket for EncryptionBoundSocket<S, Rng>\n", "impl<S, Rng: CryptoRng + RngCore + Copy> EncryptionBoundSocket<S, Rng> {\n    fn open(&self, buff: &mut DataBuffer) -> Result<()> {\n        let Some(encryptor) = &self.connection_encryptor else {\n            return Ok(());\n        };\n        let opened = match self.encryption_level {\n            EncryptionLevel::Protocol | EncryptionLevel::Full => {\n                EncryptedPacket::decrypt(encryptor, buff)\n            }\n            EncryptionLevel::Data => match PacketType::from_bytes(buff) {\n                Ok(PacketType::Data) => EncryptedDataPacket::decrypt(encryptor, buff),\n                _ => return Ok(()),\n            },\n            _ => return Ok(()),\n        };\n        opened.map_err(|e| {\n            error!(\"Failed to decrypt data {e}\");\n            Error::from(ErrorKind::InvalidData)\n        })\n    }\n}\n\nimpl<S, Rng> Socket for EncryptionBoundSocket<S, Rng>\n")]),
    ("q-e-encrypt-order", [], [(EN, "        let nonce = XChaCha20Poly1305::generate_nonce(self.rng.clone());\n        let (_, data) = buffer.split_at_mut(from_position);\n\n        let tag = self\n            .cipher\n            .encrypt_in_place_detached(&nonce, &[], data)\n            .map_err(|_| EncryptionError::Encrypt)?;\n", "        let data = &mut buffer[from_position..];\n        let nonce = XChaCha20Poly1305::generate_nonce(self.rng.clone());\n        let Ok(tag) = self.cipher.encrypt_in_place_detached(&nonce, &[], data) else {\n            return Err(EncryptionError::Encrypt);\n        };\n")]),
    ("q-e-decrypt-order", [], [(EN, "        if buffer.len() < nonce.len() + tag.len() + from_position {\n            return Err(EncryptionError::Decrypt);\n        }\n        buffer.truncate(buffer.len() - nonce.len() - tag.len());\n        let (_, data) = buffer.split_at_mut(from_position);\n        self.cipher\n            .decrypt_in_place_detached(&nonce, &[], data, &tag)\n            .map_err(|_| EncryptionError::Decrypt)", "        let overhead = nonce.len() + tag.len();\n        if buffer.len() < overhead + from_position {\n            return Err(EncryptionError::Decrypt);\n        }\n        let end = buffer.len() - overhead;\n        buffer.truncate(end);\n        let (_, data) = buffer.split_at_mut(from_position);\n        if self.cipher.decrypt_in_place_detached(&nonce, &[], data, &tag).is_err() {\n            return Err(EncryptionError::Decrypt);\n        }\n        Ok(())")]),
    ("q-e-authorized", [], [(SX, "        if let Some(authorized_keys) = &config.authorized_keys {\n            let Some(p) = remote_auth_public_key else {\n                debug!(\"Received new connection options however public key is missing\",);\n                return Err(ExtensionError::InvalidPublicKey);\n            };\n            if !authorized_keys.contains(&p) {\n                debug!(\"Received new connection options however public key was not authorized\",);\n                return Err(ExtensionError::NotAuthorized);\n            }\n        }\n", "        check_authorized(config, remote_auth_public_key.as_ref())?;\n"), (SX, "#[allow(unused_variables)]\npub fn parse_extensions", "#[cfg(feature = \"encryption\")]\nfn check_authorized(config: &ServerConfig, key: Option<&VerifyingKey>) -> Result<(), ExtensionError> {\n    match (&config.authorized_keys, key) {\n        (None, _) => Ok(()),\n        (Some(_), None) => Err(ExtensionError::InvalidPublicKey),\n        (Some(keys), Some(k)) if keys.contains(k) => Ok(()),\n        _ => Err(ExtensionError::NotAuthorized),\n    }\n}\n\n#[allow(unused_variables)]\npub fn parse_extensions")]),
    ("q-e-accept", [], [(SH, "            // new encryption starts only here\n            #[cfg(feature = \"encryption\")]\n            if let Some(keys) = _session_keys {\n                let (encryptor, _) = keys\n                    .server_keys\n                    .session\n                    .finalize(&keys.remote_session_public_key, _rng);\n                connection.encryptor = encryptor.into();\n            }\n\n            print_options(\"Server reading using\", &connection.options);\n\n            Some(())\n", "            print_options(\"Server reading using\", &connection.options);\n            #[cfg(feature = \"encryption\")]\n            if let Some(SessionKeys { server_keys, remote_session_public_key }) = _session_keys {\n                let made = server_keys.session.finalize(&remote_session_public_key, _rng);\n                connection.encryptor = Some(made.0);\n            }\n            Some(())\n")]),
    ("q-e-client-levels", [], [(CX, "        if expected_encryption_level == EncryptionLevel::Full\n            && encryption_level != Some(EncryptionLevel::Full)\n        {\n            return Err(ExtensionError::ClientRequiredEncryption(\n                options.encryption_level,\n            ));\n        }\n\n        options.encryption_level =\n            encryption_level.ok_or(ExtensionError::InvalidExtension(Extension::EncryptionLevel))?;\n", "        let Some(level) = encryption_level else {\n            return Err(ExtensionError::InvalidExtension(Extension::EncryptionLevel));\n        };\n        match (expected_encryption_level, level) {\n            (EncryptionLevel::Full, EncryptionLevel::Full) => (),\n            (EncryptionLevel::Full, _) => {\n                return Err(ExtensionError::ClientRequiredEncryption(\n                    options.encryption_level,\n                ));\n            }\n            _ => (),\n        }\n        options.encryption_level = level;\n")]),
    ("q-e-pin", [], [(CC, "                if conn.encryption_level != EncryptionLevel::None\n                    && config.private_key.is_some()\n                    && config.remote_public_key.is_some()\n                    && config.remote_public_key.as_ref()\n                        != remote_session_public_keys\n                            .as_ref()\n                            .and_then(|k| k.auth.as_ref())\n                {\n", "                let auth = remote_session_public_keys\n                    .as_ref()\n                    .and_then(|k| k.auth.as_ref());\n                let pinned = config.private_key.is_some() && config.remote_public_key.is_some();\n                if conn.encryption_level != EncryptionLevel::None\n                    && pinned\n                    && auth != config.remote_public_key.as_ref()\n                {\n")]),
    ("q-e-reply", [], [(SB, "    let mut bytes = if let Some(encryptor) = _encryptor {\n        let mut buffer = packet.to_bytes();\n        if let Err(e) = EncryptedPacket::encrypt(encryptor, &mut buffer, _expected_block_size) {\n            warn!(\"Failed to encrypt error packet {e}\");\n            return;\n        }\n        buffer\n    } else {\n        packet.to_bytes()\n    };\n", "    let mut bytes = {\n        let mut buffer = packet.to_bytes();\n        match _encryptor {\n            Some(encryptor) => match EncryptedPacket::encrypt(encryptor, &mut buffer, _expected_block_size) {\n                Ok(()) => buffer,\n                Err(e) => {\n                    warn!(\"Failed to encrypt error packet {e}\");\n                    return;\n                }\n            },\n            None => buffer,\n        }\n    };\n")]),
    ("q-e-stream", [], [(EN, "        if block_size == data.len() {\n            self.stream_encryptor\n                .as_mut()\n                .ok_or(EncryptionError::NoStream)?\n                .encrypt_next_in_place(&[], data)\n                .map_err(|_| EncryptionError::Encrypt)\n        } else {\n            self.stream_encryptor\n                .take()\n                .ok_or(EncryptionError::NoStream)?\n                .encrypt_last_in_place(&[], data)\n                .map_err(|_| EncryptionError::Encrypt)\n        }\n", "        let last = data.len() != block_size;\n        if last {\n            let Some(stream) = self.stream_encryptor.take() else {\n                return Err(EncryptionError::NoStream);\n            };\n            return stream.encrypt_last_in_place(&[], data).map_err(|_| EncryptionError::Encrypt);\n        }\n        match self.stream_encryptor.as_mut() {\n            Some(stream) => stream.encrypt_next_in_place(&[], data).map_err(|_| EncryptionError::Encrypt),\n            None => Err(EncryptionError::NoStream),\n        }\n")]),
]
