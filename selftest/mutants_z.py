"""Round two for encryption, packets, options, program files: quiet edits and bugs written from the statements."""
SC = "src/server/connection.rs"
SX = "src/server/extensions.rs"
SH = "src/server/helpers/connection.rs"
SB = "src/server/connection_builder.rs"
CX = "src/client/extensions.rs"
CC = "src/client/connection.rs"
CS = "src/client/encryption_socket.rs"
CB = "src/client/encryption_socket_builder.rs"
EN = "src/encryption.rs"
EP = "src/encrypted_packet.rs"
SR = "src/readers/encrypted_stream_reader.rs"
SW = "src/writers/encrypted_stream_writer.rs"
CF = "src/config.rs"
BE = "std-binary/src/encryption_io.rs"
IO = "std-binary/src/io.rs"
KM = "src/key_management.rs"
PK = "src/packet.rs"
BU = "src/buffer.rs"
MUTANTS = [
    # ---------------- quiet
    ("q-z-client-send", [], [(CS, """                // encrypt initial packet
                if let Ok(PacketType::Read | PacketType::Write) = packet_type {
                    InitialPacket::encrypt(
                        encryptor,
                        buff,
                        self.block_size + DATA_PACKET_HEADER_SIZE as u16,
                        &self
                            .public_key
                            .expect("Public key must be set for initial packet"),
                    )
                    .map_err(|e| {
                        error!("Failed to encrypt data {e}");
                        Error::from(ErrorKind::InvalidData)
                    })?;
                } else {
                    EncryptedPacket::encrypt(
                        encryptor,
                        buff,
                        self.block_size + DATA_PACKET_HEADER_SIZE as u16,
                    )
                    .map_err(|e| {
                        error!("Failed to encrypt data {e}");
                        Error::from(ErrorKind::InvalidData)
                    })?;
                }
""", """                let size = self.block_size + DATA_PACKET_HEADER_SIZE as u16;
                let initial = matches!(packet_type, Ok(PacketType::Read | PacketType::Write));
                let sealed = if !initial {
                    EncryptedPacket::encrypt(encryptor, buff, size)
                } else {
                    let key = self
                        .public_key
                        .as_ref()
                        .expect("Public key must be set for initial packet");
                    InitialPacket::encrypt(encryptor, buff, size, key)
                };
                if let Err(e) = sealed {
                    error!("Failed to encrypt data {e}");
                    return Err(ErrorKind::InvalidData.into());
                }
""")]),
    ("q-z-client-recv-early", [], [(CS, """        let (received_length, s) = self.socket.recv_from(buff, wait_for)?;
        buff.truncate(received_length);

        match (""", """        let (received_length, s) = match self.socket.recv_from(buff, wait_for) {
            Ok(r) => r,
            Err(e) => return Err(e),
        };
        buff.truncate(received_length);
        if self.connection_encryptor.is_none() {
            return Ok((received_length, s));
        }

        match (""")]),
    ("q-z-configure-if", [], [(CB, """    let (mut socket, options) = match (
        options.encryption_level,
        initial_keys,
        remote_public_key_pair,
    ) {
        (
            EncryptionLevel::Protocol | EncryptionLevel::Data | EncryptionLevel::Full,
            Some(keys),
            Some(remote_public_key_pair),
        ) => {
            let (encryptor, public_key) =
                keys.session.finalize(&remote_public_key_pair.session, rng);
            socket.connection_encryptor = encryptor.into();
            socket.public_key = public_key.into();
            socket.encryption_level = options.encryption_level;
            (socket, options)
        }
        _ => (socket, options),
    };

    socket.block_size""", """    let sealed = matches!(
        options.encryption_level,
        EncryptionLevel::Protocol | EncryptionLevel::Data | EncryptionLevel::Full
    );
    if let (true, Some(keys), Some(pair)) = (sealed, initial_keys, remote_public_key_pair) {
        let (encryptor, public_key) = keys.session.finalize(&pair.session, rng);
        socket.encryption_level = options.encryption_level;
        socket.public_key = Some(public_key);
        socket.connection_encryptor = Some(encryptor);
    }

    socket.block_size""")]),
    ("q-z-create-socket-match", [], [(CB, """    if options.encryption_level == EncryptionLevel::None {
        return Ok((
            EncryptionBoundSocket::wrap(socket, options.block_size),
            None,
        ));
    }
""", """    if !options.is_encrypting() {
        let plain = EncryptionBoundSocket::wrap(socket, options.block_size);
        return Ok((plain, None));
    }
""")]),
    ("q-z-initial-decrypt", [], [(EP, """        let mut buffer = DataBuffer::new();
        extend_from_slice(
            &mut buffer,
            self.cipher_text.as_bytes(),
            EncryptedPacketError::InvalidData,
        )?;
        extend_from_slice(&mut buffer, self.nonce, EncryptedPacketError::Nonce)?;
        encryptor.decrypt(&mut buffer, 0)?;
        remove_bit_padding(&mut buffer)?;
        Ok(buffer)""", """        let mut buffer = DataBuffer::new();
        let cipher_text = self.cipher_text.as_bytes();
        extend_from_slice(&mut buffer, cipher_text, EncryptedPacketError::InvalidData)?;
        extend_from_slice(&mut buffer, self.nonce, EncryptedPacketError::Nonce)?;
        EncryptedPacket::decrypt(encryptor, &mut buffer)?;
        Ok(buffer)""")]),
    ("q-z-encrypt-helper", [], [(EN, """        let tag = self
            .cipher
            .encrypt_in_place_detached(&nonce, &[], data)
            .map_err(|_| EncryptionError::Encrypt)?;
        extend_from_slice(buffer, &tag, EncryptionError::Tag)?;
        extend_from_slice(buffer, &nonce, EncryptionError::Nonce)?;
        Ok(())
    }
""", """        let tag = self
            .cipher
            .encrypt_in_place_detached(&nonce, &[], data)
            .map_err(|_| EncryptionError::Encrypt)?;
        Self::append(buffer, &tag, &nonce)
    }

    fn append(buffer: &mut DataBuffer, tag: &Tag, nonce: &Nonce) -> Result<(), EncryptionError> {
        extend_from_slice(buffer, tag, EncryptionError::Tag)?;
        extend_from_slice(buffer, nonce, EncryptionError::Nonce)
    }
""")]),
    ("q-z-padding-match", [], [(EN, """    let ones = last_byte.trailing_ones();
    let byte = if ones > 0 { 0 } else { 255 };
    for _ in 0..number_of_bytes + ENCRYPTION_PADDING_SIZE as usize {""", """    let byte = match last_byte & 1 {
        1 => 0,
        _ => 255,
    };
    let count = number_of_bytes + ENCRYPTION_PADDING_SIZE as usize;
    for _ in 0..count {""")]),
    ("q-z-unpadding-count", [], [(EN, """    let mut number_of_bytes = 0;
    for b in buf.iter().rev() {
        if *b != byte {
            break;
        }
        number_of_bytes += 1;
    }
    buf.truncate(buf.len() - number_of_bytes);""", """    let number_of_bytes = buf.iter().rev().take_while(|b| **b == byte).count();
    let len = buf.len() - number_of_bytes;
    buf.truncate(len);""")]),
    ("q-z-unpadding-byte", [], [(EN, """    let byte: u8 = if last_byte.trailing_ones() == 8 {
        255
    } else if last_byte.trailing_zeros() == 8 {
        0
    } else {
        return Err(PaddingError::MissingPaddingByte);
    };
""", """    let byte = *last_byte;
    if byte != 0 && byte != 255 {
        return Err(PaddingError::MissingPaddingByte);
    }
""")]),
    ("q-z-initial-keys", [], [(EN, """    InitialKeys {
        session: create_session_keys(rng),
        auth: private_key.map(|k| create_auth_keys(k.clone())),
    }""", """    let auth = match private_key {
        Some(k) => Some(create_auth_keys(k.clone())),
        None => None,
    };
    let session = create_session_keys(rng);
    InitialKeys { session, auth }""")]),
    ("q-z-finalize-cipher", [], [(EN, """        let master_key = self.private_key.diffie_hellman(remote_public_key);
        let key: Key = master_key.to_bytes().into();

        (
            Encryptor {
                cipher: XChaCha20Poly1305::new(&key),
                rng,
            },
            self.public_key,
        )""", """        let InitialSessionKeyPair {
            private_key,
            public_key,
        } = self;
        let key = Key::from(private_key.diffie_hellman(remote_public_key).to_bytes());
        let cipher = XChaCha20Poly1305::new(&key);
        (Encryptor { cipher, rng }, public_key)""")]),
    ("q-z-server-sig", [], [(SX, """            let verifying_key = match VerifyingKey::from_bytes(auth_public_key.as_bytes()) {
                Ok(k) => k,
                Err(e) => {
                    debug!("Invalid authorization key provided");
                    return Err(ExtensionError::InvalidSignature);
                }
            };
            if let Err(e) = verifying_key.verify(remote_session_public_key.as_bytes(), &signature) {
                debug!("Unable to verify error={e}",);
                return Err(ExtensionError::InvalidSignature);
            }
""", """            auth_public_key
                .verify(remote_session_public_key.as_bytes(), &signature)
                .map_err(|e| {
                    debug!("Unable to verify error={e}",);
                    ExtensionError::InvalidSignature
                })?;
""")]),
    ("q-z-server-level", [], [(SX, """            EncryptionLevel::Data | EncryptionLevel::OptionalData => EncryptionLevel::Data,
            EncryptionLevel::Protocol | EncryptionLevel::OptionalProtocol => {
                EncryptionLevel::Protocol
            }
            EncryptionLevel::None => {
                if config.authorized_keys.is_none() {
                    return Ok((used_extensions, options, None));
                } else {
                    return Err(ExtensionError::ServerRequiredEncryption(
                        EncryptionLevel::Data,
                    ));
                }
            }
        };
""", """            EncryptionLevel::None if config.authorized_keys.is_some() => {
                return Err(ExtensionError::ServerRequiredEncryption(
                    EncryptionLevel::Data,
                ));
            }
            EncryptionLevel::None => return Ok((used_extensions, options, None)),
            EncryptionLevel::OptionalData | EncryptionLevel::Data => EncryptionLevel::Data,
            EncryptionLevel::OptionalProtocol | EncryptionLevel::Protocol => {
                EncryptionLevel::Protocol
            }
        };
""")]),
    ("q-z-server-keys-struct", [], [(SX, """        Ok((
            used_extensions,
            options,
            SessionKeys {
                server_keys,
                remote_session_public_key,
            }
            .into(),
        ))""", """        let session_keys = SessionKeys {
            server_keys,
            remote_session_public_key,
        };
        Ok((used_extensions, options, Some(session_keys)))""")]),
    ("q-z-accept-switch-fn", [], [(SH, """            // new encryption starts only here
            #[cfg(feature = "encryption")]
            if let Some(keys) = _session_keys {
                let (encryptor, _) = keys
                    .server_keys
                    .session
                    .finalize(&keys.remote_session_public_key, _rng);
                connection.encryptor = encryptor.into();
            }

            print_options("Server writing using", &connection.options);
""", """            #[cfg(feature = "encryption")]
            switch_keys(connection, _session_keys, _rng);

            print_options("Server writing using", &connection.options);
"""), (SH, "pub fn timeout_client<", """#[cfg(feature = "encryption")]
fn switch_keys<B: BoundSocket, Rng: CryptoRng + RngCore + Copy>(
    connection: &mut Connection<B, Rng>,
    keys: Option<SessionKeys>,
    rng: Rng,
) {
    let Some(keys) = keys else {
        return;
    };
    let session = keys.server_keys.session;
    let (encryptor, _) = session.finalize(&keys.remote_session_public_key, rng);
    connection.encryptor = Some(encryptor);
}

pub fn timeout_client<""")]),
    ("q-z-overhead", [], [(CF, """        self.block_size > self.encryption_overhead()
""", """        match self.block_size.checked_sub(self.encryption_overhead()) {
            Some(rest) => rest > 0,
            None => false,
        }
""")]),
    ("q-z-overhead-order", [], [(CF, """            EncryptionLevel::Data => ENCRYPTION_TAG_SIZE as u16 + ENCRYPTION_NONCE_SIZE as u16,
            EncryptionLevel::Full | EncryptionLevel::Protocol => {
                ENCRYPTION_TAG_SIZE as u16
                    + ENCRYPTION_PADDING_SIZE as u16
                    + ENCRYPTION_NONCE_SIZE as u16
            }
""", """            EncryptionLevel::Data => Self::seal_overhead(),
            EncryptionLevel::Full | EncryptionLevel::Protocol => {
                Self::seal_overhead() + u16::from(ENCRYPTION_PADDING_SIZE)
            }
"""), (CF, "    fn encryption_overhead(&self)", """    const fn seal_overhead() -> u16 {
        ENCRYPTION_TAG_SIZE as u16 + ENCRYPTION_NONCE_SIZE as u16
    }

    fn encryption_overhead(&self)""")]),
    ("q-z-stream-reader-head", [], [(SR, """        let from = if let Some(nonce) = self.nonce.as_ref() {
            let block_size = data.len() as u16;
            let s = data
                .write_bytes(block_size.to_be_bytes(), 0_usize)
                .ok_or(ErrorKind::InvalidData)?;

            // we do not expect the buffer size to change
            if self.buffer.is_none() {
                self.buffer = new_data_block_07(block_size).into();
            }

            data.write_bytes(nonce, s).ok_or(ErrorKind::InvalidData)?
        } else {
            0
        };
""", """        let from = match self.nonce.as_ref() {
            None => 0,
            Some(nonce) => {
                let block_size = data.len() as u16;
                if self.buffer.is_none() {
                    self.buffer = Some(new_data_block_07(block_size));
                }
                let Some(s) = data.write_bytes(block_size.to_be_bytes(), 0_usize) else {
                    return Err(ErrorKind::InvalidData.into());
                };
                data.write_bytes(nonce, s).ok_or(ErrorKind::InvalidData)?
            }
        };
""")]),
    ("q-z-stream-writer-helper", [], [(SW, """        write_block(&mut self.writer, buffer)?;
        let written = buffer.len() + from + ENCRYPTION_TAG_SIZE as usize;

        self.key.take();

        Ok(written)
    }
""", """        let written = buffer.len() + from + ENCRYPTION_TAG_SIZE as usize;
        if let Err(e) = write_block(&mut self.writer, buffer) {
            return Err(e);
        }
        self.key = None;
        Ok(written)
    }
""")]),
    ("q-z-reader-nonce", [], [(BE, """    let mut nonce = [0_u8; STREAM_NONCE_SIZE as usize];
    rng.fill_bytes(&mut nonce);
    let encryptor = StreamEncryptor::new(&key, &nonce);
    move |path: &FilePath| {
        // TODO file size adjusted for the block size
        let (_, r) = create_reader(path)?;
        Ok((None, StreamReader::new(encryptor, r, nonce)))
    }""", """    let nonce = random_nonce(&mut rng);
    move |path: &FilePath| {
        let encryptor = StreamEncryptor::new(&key, &nonce);
        // TODO file size adjusted for the block size
        create_reader(path).map(|(_, r)| (None, StreamReader::new(encryptor, r, nonce)))
    }"""), (BE, "pub fn read_private_value_or_file", """fn random_nonce(rng: &mut (impl CryptoRng + RngCore)) -> [u8; STREAM_NONCE_SIZE as usize] {
    let mut nonce = [0_u8; STREAM_NONCE_SIZE as usize];
    rng.fill_bytes(&mut nonce);
    nonce
}

pub fn read_private_value_or_file""")]),
    ("q-z-known-match", [], [(KM, """        match line.split_once(' ') {
            Some((remote_endpoint, encoded_key)) if remote_endpoint == endpoint => {
                return Ok(decode_verifying_key(encoded_key.as_bytes())?.into())
            }
            _ => continue,
        }
""", """        let Some((remote_endpoint, encoded_key)) = line.split_once(' ') else {
            continue;
        };
        if remote_endpoint != endpoint {
            continue;
        }
        let key = decode_verifying_key(encoded_key.as_bytes())?;
        return Ok(Some(key));
""")]),
    ("q-z-hosts-flat", [], [(BE, """    match known_hosts_file
        .zip(remote_key)
        .map(|(f, k)| {
            if let Ok(r) = create_buff_reader(f) {
                if let Ok(Some(_)) = get_from_known_hosts(r, endpoint) {
                    return Ok(());
                }
            };

            let file: File = StdFile::options()
                .create(true)
                .append(true)
                .open(f)
                .map_err(from_io_err)?
                .into();
            append_to_known_hosts(file, endpoint, &k)
        })
        .transpose()
    {
        Ok(_) => (),
        Err(e) => warn!("Failed to append to known hosts {}", e),
    };
}""", """    let (Some(f), Some(k)) = (known_hosts_file, remote_key) else {
        return;
    };
    if let Err(e) = record_host(f, &k, endpoint) {
        warn!("Failed to append to known hosts {}", e);
    }
}

fn record_host(f: &str, k: &VerifyingKey, endpoint: &str) -> BoxedResult<()> {
    let known = match create_buff_reader(f) {
        Ok(r) => matches!(get_from_known_hosts(r, endpoint), Ok(Some(_))),
        Err(_) => false,
    };
    if known {
        return Ok(());
    }
    let file: File = StdFile::options()
        .create(true)
        .append(true)
        .open(f)
        .map_err(from_io_err)?
        .into();
    append_to_known_hosts(file, endpoint, k)
}""")]),
    ("q-z-server-reader-early", [], [(IO, """    if let (Ok(d), Ok(p)) = (real_dir, real_path) {
        if p.starts_with(&d) {
            return if list_dir {
                list_directory(&d, &p).map(|(s, l)| (s, ReaderCreator::from_list(l)))
            } else {
                let file_path = p
                    .to_str()
                    .and_then(|s| s.parse().ok())
                    .ok_or(FileError::InvalidFileName)?;
                create_reader(&file_path).map(|(s, f)| (s, ReaderCreator::from_file(f)))
            };
        }
    }
    Err(FileError::InvalidFileName.into())
}

pub fn create_server_writer""", """    let (Ok(d), Ok(p)) = (real_dir, real_path) else {
        return Err(FileError::InvalidFileName.into());
    };
    if !p.starts_with(&d) {
        return Err(FileError::InvalidFileName.into());
    }
    if list_dir {
        let (size, list) = list_directory(&d, &p)?;
        return Ok((size, ReaderCreator::from_list(list)));
    }
    let Some(file_path) = p.to_str().and_then(|s| s.parse().ok()) else {
        return Err(FileError::InvalidFileName.into());
    };
    let (size, file) = create_reader(&file_path)?;
    Ok((size, ReaderCreator::from_file(file)))
}

pub fn create_server_writer""")]),
    ("q-z-server-writer-open", [], [(IO, """    let file = if config.allow_overwrite {
        let mut options = OpenOptions::new();
        // while path is not resolved do not truncate, but create if it does not exist
        options.write(true).create(true);
        options.open(&path).map_err(from_io_err)?
    } else {
        let mut options = OpenOptions::new();
        options.write(true).create_new(true);
        options.open(&path).map_err(from_io_err)?
    };
""", """    let mut options = OpenOptions::new();
    options.write(true);
    // while path is not resolved do not truncate, but create if it does not exist
    match config.allow_overwrite {
        true => options.create(true),
        false => options.create_new(true),
    };
    let file = options.open(&path).map_err(from_io_err)?;
""")]),
    ("q-z-writer-within-fn", [], [(IO, """    let root = canonicalize(&dir).map_err(from_io_err)?;
    let existing = path
        .ancestors()
        .skip(1)
        .find(|p| p.exists())
        .ok_or(FileError::InvalidFileName)?;
    if !canonicalize(existing)
        .map_err(from_io_err)?
        .starts_with(&root)
    {
        return Err(FileError::InvalidFileName.into());
    }
""", """    ensure_within(&dir, &path)?;
"""), (IO, "// TODO alloc in stack Vec\nfn list_directory", """fn ensure_within(dir: &Path, path: &Path) -> BoxedResult<()> {
    let root = canonicalize(dir).map_err(from_io_err)?;
    let existing = path
        .ancestors()
        .skip(1)
        .find(|p| p.exists())
        .ok_or(FileError::InvalidFileName)?;
    let existing = canonicalize(existing).map_err(from_io_err)?;
    if existing.starts_with(&root) {
        Ok(())
    } else {
        Err(FileError::InvalidFileName.into())
    }
}

// TODO alloc in stack Vec
fn list_directory""")]),
    ("q-z-depth", [], [(IO, """    let component_count = Path::new(requested_path.as_str())
        .components()
        .filter(|c| {
            matches!(
                c,
                Component::Normal(_) | Component::ParentDir | Component::CurDir
            )
        })
        .count();
    if component_count.saturating_sub(1) <= max_depth {
        return Ok(());
    }
    Err(FileError::InvalidFileName)""", """    let component_count = Path::new(requested_path.as_str())
        .components()
        .filter(|c| !matches!(c, Component::Prefix(_) | Component::RootDir))
        .count();
    let depth = component_count.saturating_sub(1);
    if depth > max_depth {
        Err(FileError::InvalidFileName)
    } else {
        Ok(())
    }""")]),
    ("q-z-oack-helper", [], [(PK, """            let (next, name) = match rest.iter().position(|&c| c == b'\\0') {
                Some(n) => (rest.get(n + 1..), from_utf8(&rest[0..n])?),
                _ => return Err(PacketError::Invalid),
            };

            let Some(next) = next else {
                return Err(PacketError::Invalid);
            };

            let (next, value) = match next.iter().position(|&c| c == b'\\0') {
                Some(n) => (next.get(n + 1..), from_utf8(&next[0..n])?),
                _ => return Err(PacketError::Invalid),
            };
""", """            let (name, next) = take_text(rest)?;
            let (value, next) = take_text(next)?;
            let next = Some(next);
"""), (PK, "fn try_from(bytes: &[u8])", """fn take_text(bytes: &[u8]) -> Result<(&str, &[u8]), PacketError> {
    let end = bytes
        .iter()
        .position(|&c| c == b'\\0')
        .ok_or(PacketError::Invalid)?;
    let rest = bytes.get(end + 1..).ok_or(PacketError::Invalid)?;
    Ok((from_utf8(&bytes[..end])?, rest))
}

fn try_from(bytes: &[u8])""")]),
    ("q-z-write-bytes", [], [(BU, """        let s = data.as_ref().len();
        let index = from_index.into();
        self.get_mut(index..index + s)?
            .copy_from_slice(data.as_ref());
        Some(index + s)""", """        let data = data.as_ref();
        let index = from_index.into();
        let end = index + data.len();
        let target = self.get_mut(index..end)?;
        target.copy_from_slice(data);
        Some(end)""")]),
    ("q-z-rslice", [], [(BU, """    fn rslice_to_array<const N: usize>(&self, to_position: impl Into<usize>) -> Option<[u8; N]> {
        let index = to_position.into();
        let from = self
            .len()
            .checked_sub(N)
            .and_then(|s| s.checked_sub(index))?;
        self.get(from..from + N).and_then(|v| v.try_into().ok())""", """    fn rslice_to_array<const N: usize>(&self, to_position: impl Into<usize>) -> Option<[u8; N]> {
        let end = self.len().checked_sub(to_position.into())?;
        let from = end.checked_sub(N)?;
        self.get(from..end)?.try_into().ok()""")]),
    ("q-z-n-block-match", [], [(SX, """        let client_block_size: u16 = size.parse().unwrap_or(0);
        if (EXTENSION_BLOCK_SIZE_MIN..=config.max_block_size).contains(&client_block_size) {
            options.block_size = client_block_size;
            let _ = used_extensions.insert(
                Extension::BlockSize,
                format_str!(ExtensionValue, "{}", options.block_size),
            );
        } else if client_block_size > config.max_block_size {
            options.block_size = config.max_block_size;
            let _ = used_extensions.insert(
                Extension::BlockSize,
                format_str!(ExtensionValue, "{}", options.block_size),
            );
        } else {
            warn!("Invalid block size received {} skipping", size);
        }
""", """        let client_block_size = match size.parse::<u16>() {
            Ok(s) => s,
            Err(_) => 0,
        };
        let accepted = if client_block_size > config.max_block_size {
            Some(config.max_block_size)
        } else if client_block_size >= EXTENSION_BLOCK_SIZE_MIN {
            Some(client_block_size)
        } else {
            None
        };
        match accepted {
            Some(block_size) => {
                options.block_size = block_size;
                let value = format_str!(ExtensionValue, "{}", block_size);
                let _ = used_extensions.insert(Extension::BlockSize, value);
            }
            None => warn!("Invalid block size received {} skipping", size),
        }
""")]),
    ("q-z-n-client-window", [], [(CX, """    if let Some(window_size) = server_extensions.get(&Extension::WindowSize) {
        let server_window_size: u16 = window_size.parse().unwrap_or(0);
        if (EXTENSION_WINDOW_SIZE_MIN..=options.window_size).contains(&server_window_size) {
            options.window_size = server_window_size;
        } else {
            return Err(ExtensionError::InvalidExtension(Extension::WindowSize));
        }
    } else {
        options.window_size = EXTENSION_WINDOW_SIZE_MIN;
    }
""", """    options.window_size = match server_extensions.get(&Extension::WindowSize) {
        None => EXTENSION_WINDOW_SIZE_MIN,
        Some(window_size) => match window_size.parse::<u16>() {
            Ok(w) if w >= EXTENSION_WINDOW_SIZE_MIN && w <= options.window_size => w,
            _ => return Err(ExtensionError::InvalidExtension(Extension::WindowSize)),
        },
    };
""")]),
    ("q-z-n-create", [], [(CX, """    if options.window_size != EXTENSION_WINDOW_SIZE_MIN {
        let _ = used_extensions.insert(
            Extension::WindowSize,
            format_str!(ExtensionValue, "{}", options.window_size),
        );
    }
""", """    match options.window_size {
        EXTENSION_WINDOW_SIZE_MIN => (),
        size => {
            let value = format_str!(ExtensionValue, "{}", size);
            let _ = used_extensions.insert(Extension::WindowSize, value);
        }
    }
""")]),
    # ---------------- bugs
    ("z-recv-short-plain", ["E03"], [(CS, """            (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) => {
                EncryptedPacket::decrypt(encryptor, buff).map_err(|e| {""", """            (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) if buff.len() > 4 => {
                EncryptedPacket::decrypt(encryptor, buff).map_err(|e| {""")]),
    ("z-send-full-only", ["E03"], [(CS, """            (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) => {
                // encrypt initial packet""", """            (EncryptionLevel::Full, Some(encryptor)) => {
                // encrypt initial packet""")]),
    ("z-send-optional-data", ["E03"], [(CS, """            (EncryptionLevel::Data, Some(encryptor))
                if matches!(packet_type, Ok(PacketType::Data)) =>""", """            (EncryptionLevel::Data, Some(encryptor))
                if matches!(packet_type, Ok(PacketType::Data)) && buff.len() >= self.block_size as usize =>""")]),
    ("z-server-open-protocol", ["E02"], [(SC, """        if let (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) =
            (self.options.encryption_level, &self.encryptor)
        {
            if EncryptedPacket::decrypt""", """        if let (EncryptionLevel::Full, Some(encryptor)) =
            (self.options.encryption_level, &self.encryptor)
        {
            if EncryptedPacket::decrypt""")]),
    ("z-server-seal-acks", ["E01"], [(SC, """        if let (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) =
            (self.options.encryption_level, &self.encryptor)
        {
            if EncryptedPacket::encrypt""", """        if let (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor), PacketType::Data | PacketType::OptionalAck | PacketType::Error) =
            (self.options.encryption_level, &self.encryptor, packet_name)
        {
            if EncryptedPacket::encrypt""")]),
    ("z-nonce-xor", ["E04"], [(EN, """        let nonce = XChaCha20Poly1305::generate_nonce(self.rng.clone());
        let (_, data)""", """        let mut nonce = XChaCha20Poly1305::generate_nonce(self.rng.clone());
        if buffer.len() < 512 {
            nonce[..23].fill(0);
        }
        let (_, data)""")]),
    ("z-empty-decrypt", ["E05"], [(EN, """        let (_, data) = buffer.split_at_mut(from_position);
        self.cipher
            .decrypt_in_place_detached""", """        let (_, data) = buffer.split_at_mut(from_position);
        if data.is_empty() {
            return Ok(());
        }
        self.cipher
            .decrypt_in_place_detached""")]),
    ("z-encrypt-empty", ["E04"], [(EN, """        let (_, data) = buffer.split_at_mut(from_position);

        let tag = self""", """        if buffer.len() == from_position {
            return Ok(());
        }
        let (_, data) = buffer.split_at_mut(from_position);

        let tag = self""")]),
    ("z-header-5", ["E05"], [(EP, """        encryptor.encrypt(buffer, DATA_PACKET_HEADER_SIZE as usize)?;""", """        encryptor.encrypt(buffer, core::mem::size_of::<PacketType>())?;""")]),
    ("z-authorized-prefix", ["E06"], [(SX, """            if !authorized_keys.contains(&p) {""", """            if !authorized_keys.iter().any(|k| k.as_bytes()[..16] == p.as_bytes()[..16]) {""")]),
    ("z-authorized-only-signed", ["E06"], [(SX, """            let Some(p) = remote_auth_public_key else {
                debug!("Received new connection options however public key is missing",);
                return Err(ExtensionError::InvalidPublicKey);
            };
            if !authorized_keys.contains(&p) {""", """            let p = remote_auth_public_key;
            if p.map(|p| !authorized_keys.contains(&p)).unwrap_or_default() {""")]),
    ("z-sig-when-authorized", ["E06"], [(SX, """        if let Some(auth_public_key) = remote_auth_public_key {
            let Some(signature)""", """        if let Some(auth_public_key) = remote_auth_public_key.filter(|_| config.authorized_keys.is_none()) {
            let Some(signature)""")]),
    ("z-level-upgrade", ["E07"], [(SX, """            EncryptionLevel::Data | EncryptionLevel::OptionalData => EncryptionLevel::Data,
            EncryptionLevel::Protocol | EncryptionLevel::OptionalProtocol => {
                EncryptionLevel::Protocol
            }
            EncryptionLevel::None => {""", """            EncryptionLevel::Data | EncryptionLevel::OptionalData => EncryptionLevel::Data,
            EncryptionLevel::Protocol => EncryptionLevel::Protocol,
            EncryptionLevel::OptionalProtocol => EncryptionLevel::Data,
            EncryptionLevel::None => {""")]),
    ("z-client-downgrade-protocol", ["E08"], [(CX, """        ) && !matches!(
            encryption_level,
            Some(EncryptionLevel::Data | EncryptionLevel::Protocol)
        ) {""", """        ) && matches!(
            encryption_level,
            None | Some(EncryptionLevel::Full)
        ) {""")]),
    ("z-client-full-accepts-protocol", ["E08"], [(CX, """        if expected_encryption_level == EncryptionLevel::Full
            && encryption_level != Some(EncryptionLevel::Full)
        {""", """        if expected_encryption_level == EncryptionLevel::Full
            && !matches!(encryption_level, Some(EncryptionLevel::Full | EncryptionLevel::Protocol))
        {""")]),
    ("z-client-sig-optional", ["E08"], [(CX, """            else {
                debug!("Invalid signature received",);
                return Err(ExtensionError::InvalidSignature);
            };
            let verifying_key = match VerifyingKey::from_bytes(auth_public_key.as_bytes()) {
                Ok(k) => k,
                Err(e) => {
                    debug!("Invalid authorization key provided {e}");""", """            else {
                debug!("No signature received",);
                return Ok((
                    options,
                    PublicKeyPair {
                        auth: remote_auth_public_key,
                        session: remote_session_public_key,
                    }
                    .into(),
                ));
            };
            let verifying_key = match VerifyingKey::from_bytes(auth_public_key.as_bytes()) {
                Ok(k) => k,
                Err(e) => {
                    debug!("Invalid authorization key provided {e}");""")]),
    ("z-pin-missing-auth", ["E09"], [(CC, """                    && config.remote_public_key.as_ref()
                        != remote_session_public_keys
                            .as_ref()
                            .and_then(|k| k.auth.as_ref())
""", """                    && remote_session_public_keys
                        .as_ref()
                        .and_then(|k| k.auth.as_ref())
                        .is_some_and(|k| config.remote_public_key.as_ref() != Some(k))
""")]),
    ("z-reply-encrypt-fail", ["E10"], [(SB, """            warn!("Failed to encrypt error packet {e}");
            return;
        }
        buffer""", """            warn!("Failed to encrypt error packet {e}");
        }
        buffer""")]),
    ("z-auth-only-writer", ["E10"], [(SB, """        if self.config.error_to_authorized_only {
            return;
        }""", """        if self.config.error_to_authorized_only && self.config.authorized_keys.is_some() {
            return;
        }""")]),
    ("z-switch-data-only", ["E11"], [(SH, """            // new encryption starts only here
            #[cfg(feature = "encryption")]
            if let Some(keys) = _session_keys {
                let (encryptor, _) = keys
                    .server_keys
                    .session
                    .finalize(&keys.remote_session_public_key, _rng);
                connection.encryptor = encryptor.into();
            }

            print_options("Server reading using", &connection.options);""", """            #[cfg(feature = "encryption")]
            if let Some(keys) = _session_keys {
                let (encryptor, _) = keys
                    .server_keys
                    .session
                    .finalize(&keys.remote_session_public_key, _rng);
                connection.encryptor.get_or_insert(encryptor);
            }

            print_options("Server reading using", &connection.options);""")]),
    ("z-client-key-auth", ["E11"], [(CB, """            let (encryptor, public_key) =
                keys.session.finalize(&remote_public_key_pair.session, rng);
            socket.connection_encryptor = encryptor.into();""", """            let (encryptor, public_key) =
                keys.session.finalize(&remote_public_key_pair.session, rng);
            socket.connection_encryptor.get_or_insert(encryptor);""")]),
    ("z-finalize-own", ["E15"], [(EN, """        let master_key = self.private_key.diffie_hellman(remote_public_key);""", """        let master_key = self.private_key.diffie_hellman(&self.public_key);
        let _ = remote_public_key;""")]),
    ("z-overhead-data", ["E13"], [(CF, """            EncryptionLevel::Data => ENCRYPTION_TAG_SIZE as u16 + ENCRYPTION_NONCE_SIZE as u16,
            EncryptionLevel::Full""", """            EncryptionLevel::Data => ENCRYPTION_TAG_SIZE as u16,
            EncryptionLevel::Full""")]),
    ("z-valid-server-old", ["E13"], [(SB, """        if !options.is_block_size_valid() {
            return""", """        if !options.is_block_size_valid() && !used_extensions.contains_key(&Extension::BlockSize) {
            return""")]),
    ("z-stream-nonce-offset", ["E14"], [(SW, """                .slice_to_array(block_size_bytes.len())""", """                .slice_to_array(core::mem::size_of::<u8>())""")]),
    ("z-stream-last", ["E14"], [(EN, """        if block_size == data.len() {
            self.stream_encryptor""", """        if data.len() > 0 {
            self.stream_encryptor""")]),
    ("z-stream-rng", ["E14"], [(BE, """    rng.fill_bytes(&mut nonce);
    let encryptor = StreamEncryptor::new(&key, &nonce);""", """    rng.fill_bytes(&mut nonce);
    let encryptor = StreamEncryptor::new(&key, &nonce);
    rng.fill_bytes(&mut nonce);""")]),
    ("z-host-case", ["L02"], [(KM, "if remote_endpoint == endpoint => {", "if remote_endpoint.eq_ignore_ascii_case(endpoint) => {")]),
    ("z-host-comment", ["L02"], [(KM, """            Some((remote_endpoint, encoded_key)) if remote_endpoint == endpoint => {""", """            Some((remote_endpoint, encoded_key)) if remote_endpoint.trim_start_matches('[') == endpoint => {""")]),
    ("z-hosts-write", ["L03"], [(BE, """                .create(true)
                .append(true)
                .open(f)""", """                .create(true)
                .write(true)
                .open(f)""")]),
    ("z-hosts-error-replace", ["L03"], [(BE, """                if let Ok(Some(_)) = get_from_known_hosts(r, endpoint) {""", """                if let Ok(Some(_)) = get_from_known_hosts(r, endpoint.split(':').next().unwrap_or(endpoint)) {""")]),
    ("z-reader-parent-list", ["F01"], [(IO, """        Some(d) if path.ends_with(d.as_str()) => (
            canonicalize(path.parent().ok_or(FileError::InvalidFileName)?),
            true,
        ),
        _ => (canonicalize(path), false),""", """        Some(d) if path.ends_with(d.as_str()) => (Ok(dir_of(&path)), true),
        _ => (canonicalize(path), false),"""), (IO, "// TODO alloc in stack Vec\nfn list_directory", """fn dir_of(path: &Path) -> PathBuf {
    path.parent().map(|p| p.to_path_buf()).unwrap_or_default()
}

// TODO alloc in stack Vec
fn list_directory""")]),
    ("z-writer-symlink", ["F02"], [(IO, """    if path.is_symlink() && !path.exists() {""", """    if path.is_symlink() && !path.exists() && !config.allow_overwrite {""")]),
    ("z-writer-depth", ["F04"], [(IO, """    validate_path(requested_path, config.max_directory_depth as usize)?;
    // TODO alloc in stack PathBuf""", """    validate_path(requested_path, config.max_directory_depth as usize + 1)?;
    // TODO alloc in stack PathBuf""")]),
    ("z-oack-name-value", ["P03"], [(PK, """            if let (Ok(extension), Ok(value)) = (name.parse(), value.parse()) {
                let _ = extensions.insert(extension, value);
            };""", """            if let (Ok(extension), Ok(value)) = (name.parse(), value.trim().parse()) {
                let _ = extensions.insert(extension, value);
            };""")]),
    ("z-error-message", ["P03"], [(PK, """        let message = match message_bytes.iter().position(|&c| c == b'\\0') {
            Some(n) => from_utf8(&message_bytes[..n])?,""", """        let message = match message_bytes.iter().rposition(|&c| c == b'\\0') {
            Some(n) => from_utf8(&message_bytes[..n])?,""")]),
    ("z-data-skip", ["P03"], [(PK, """        let block = try_from(bytes)?;
        Ok(Self {
            block,
            data: bytes
                .get(size_of_val(&block)..)""", """        let block = try_from(bytes)?;
        Ok(Self {
            block,
            data: bytes
                .get(size_of::<u32>().min(bytes.len())..)""")]),
    ("z-n-timeout-millis", ["N01"], [(SX, """            options.retry_packet_after_timeout = Duration::from_secs(client_retry_seconds as u64);
            let _ = used""", """            options.retry_packet_after_timeout = Duration::from_millis(client_retry_seconds as u64);
            let _ = used""")]),
    ("z-n-window-cap", ["N01"], [(SX, """            options.window_size = max_window_size;""", """            options.window_size = max_window_size.max(config.max_window_size);""")]),
    ("z-n-confirm-requested", ["N02"], [(SX, """            options.window_size = max_window_size;
            let _ = used_extensions.insert(
                Extension::WindowSize,
                format_str!(ExtensionValue, "{}", options.window_size),""", """            options.window_size = max_window_size;
            let _ = used_extensions.insert(
                Extension::WindowSize,
                format_str!(ExtensionValue, "{}", client_window_size),""")]),
    ("z-n-client-grow", ["N03"], [(CX, """        if (EXTENSION_BLOCK_SIZE_MIN..=options.block_size).contains(&server_block_size) {""", """        if (EXTENSION_BLOCK_SIZE_MIN..=options.block_size.max(DEFAULT_DATA_BLOCK_SIZE)).contains(&server_block_size) {""")]),
]
