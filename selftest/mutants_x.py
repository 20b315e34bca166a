"""A second round, written from the statements and the code only."""
V = "src/server/validation.rs"
HR = "src/server/helpers/read.rs"
HW = "src/server/helpers/write.rs"
HC = "src/server/helpers/connection.rs"
CN = "src/server/connection.rs"
CB = "src/server/connection_builder.rs"
MT = "src/server/multi_thread.rs"
ST = "src/server/single_thread.rs"

MUTANTS = [
    # ------------------------------------------------------------------------------ quiet: server
    ("q-x-normalize-loop", [], [(V, """    #[allow(unused_must_use)]
    let result = file_path
        .as_str()
        .trim_start_matches('/')
        .split('/')
        .filter(|c| !matches!(c.trim(), "." | ".." | "/" | ""))
        .fold(FilePath::new(), |mut f, c| {
            if !f.as_str().is_empty() {
                f.push('/');
            }
            f.push_str(c);
            f
        });
""", """    let mut result = FilePath::new();
    for part in file_path.as_str().split('/') {
        let name = part.trim();
        if name.is_empty() || name == "." || name == ".." {
            continue;
        }
        if !result.as_str().is_empty() {
            #[allow(unused_must_use)]
            {
                result.push('/');
            }
        }
        #[allow(unused_must_use)]
        {
            result.push_str(part);
        }
    }
""")]),
    ("q-x-validate-file-name", [], [(V, """    let local_file_path = match normalize_remote_name(file_name) {
        Ok(p) => p,
        Err(e) => {
            error!("Invalid file name received {} {}", file_name.as_str(), e);
            return Err(ErrorPacket::new(
                ErrorCode::AccessViolation,
                format_str!(
                    DefaultString,
                    "Invalid file name received {}",
                    ensure_size(file_name, 100)
                ),
            ));
        }
    };
    Ok(local_file_path)""", """    normalize_remote_name(file_name).map_err(|e| {
        error!("Invalid file name received {} {}", file_name.as_str(), e);
        let message = format_str!(
            DefaultString,
            "Invalid file name received {}",
            ensure_size(file_name, 100)
        );
        ErrorPacket::new(ErrorCode::AccessViolation, message)
    })""")]),
    ("q-x-file-size-order", [], [(V, """    if received_size > max_file_size {
        error!(
            "Invalid file size received {} expected {}",
            received_size, max_file_size,
        );
        let message = format_str!(
            DefaultString,
            "Invalid file size received {}",
            received_size,
        );
        return Err(ErrorPacket::new(ErrorCode::DiskFull, message));
    }
    Ok(())""", """    if received_size <= max_file_size {
        return Ok(());
    }
    error!(
        "Invalid file size received {} expected {}",
        received_size, max_file_size,
    );
    let message = format_str!(
        DefaultString,
        "Invalid file size received {}",
        received_size,
    );
    Err(ErrorPacket::new(ErrorCode::DiskFull, message))""")]),
    ("q-x-request-options-q", [], [(V, """    match validate_file_name(file_name) {
        Ok(p) => Ok(p),
        Err(e) => {
            reply_with_error(e);
            Err(FileError::InvalidFileName.into())
        }
    }""", """    let path = validate_file_name(file_name);
    if let Err(e) = path {
        reply_with_error(e);
        return Err(FileError::InvalidFileName.into());
    }
    path.map_err(|_| FileError::InvalidFileName.into())""")]),
    ("q-x-announced-size", [], [(V, """    if let Err(e) = handle_file_size(options.file_size.unwrap_or(0), config.max_file_size) {
        reply_with_error(e);
        return Err(ExtensionError::InvalidExtension(Extension::TransferSize).into());
    }
""", """    if let Some(size) = options.file_size {
        if let Err(e) = handle_file_size(size, config.max_file_size) {
            reply_with_error(e);
            return Err(ExtensionError::InvalidExtension(Extension::TransferSize).into());
        }
    }
""")]),
    ("q-x-read-block-helper", [], [(HR, """    prepend_data_header(packet_block.block, buffer);
    debug!(
        "Send data block {} size {}",
        packet_block.block,
        buffer.len()
    );
    buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + packet_block.size);
    let sent = connection.send_bytes(PacketType::Data, buffer);
    if sent {
        connection.last_sent = instant();
    }
    sent
}
""", """    send_block(connection, packet_block.block, packet_block.size, buffer, instant)
}

fn send_block<B: BoundSocket, Rng: CryptoRng + RngCore + Copy>(
    connection: &mut Connection<B, Rng>,
    block: u16,
    size: usize,
    buffer: &mut DataBuffer,
    instant: InstantCallback,
) -> bool {
    buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + size);
    prepend_data_header(block, buffer);
    if !connection.send_bytes(PacketType::Data, buffer) {
        return false;
    }
    connection.last_sent = instant();
    true
}
""")]),
    ("q-x-read-storage-error", [], [(HR, """    let packet_block = match block_reader.next(&mut buffer[DATA_PACKET_HEADER_SIZE.into()..], retry)
    {
        Ok(Some(b)) => b,
        Ok(None) => return false,
        Err(e) => {
""", """    let next = block_reader.next(&mut buffer[DATA_PACKET_HEADER_SIZE.into()..], retry);
    let packet_block = match next {
        Ok(b) => {
            let Some(b) = b else {
                return false;
            };
            b
        }
        Err(e) => {
""")]),
    ("q-x-read-if-let", [], [(HR, """    match Packet::from_bytes(buffer) {
        Ok(Packet::Ack(p)) => {
            debug!("Ack received {} {}", p.block, connection.endpoint);

            let bytes_freed = block_reader.free_block(p.block);
            if bytes_freed > 0 {
                connection.last_updated = instant();
                connection.transfer += bytes_freed;
                connection.retry_packet_multiplier =
                    if connection.retry_packet_multiplier.get() - 1 > 0 {
                        NonZeroU8::new(connection.retry_packet_multiplier.get() - 1)
                            .expect("non zero value")
                    } else {
                        NonZeroU8::new(1).expect("non zero integer")
                    };
            }
            if block_reader.is_finished() {
""", """    match Packet::from_bytes(buffer) {
        Ok(Packet::Ack(p)) => {
            let freed = block_reader.free_block(p.block);
            if freed != 0 {
                connection.transfer += freed;
                let less = connection.retry_packet_multiplier.get() - 1;
                connection.retry_packet_multiplier = NonZeroU8::new(less.max(1)).unwrap();
                connection.last_updated = instant();
            }
            let done = block_reader.is_finished();
            if done {
""")]),
    ("q-x-handle-packet-if", [], [(HC, """    Ok(match Packet::from_bytes(buffer) {
        Ok(Packet::Write(p)) => {
            debug!(
                "New client {from_client} writing to file {} in directory {}",
                p.file_name, config.directory
            );

            builder.with_request(p, config.max_window_size, rng)?;
            Some(ConnectionType::Write)
        }
        Ok(Packet::Read(p)) => {
            debug!(
                "New client {from_client} reading file {} in directory {}",
                p.file_name, config.directory
            );
            builder.with_request(p, config.max_window_size, rng)?;
            Some(ConnectionType::Read)
        }
        _ => {
            debug!("Incorrect packet received {:x?}", buffer);
            None
        }
    })
""", """    let (request, connection_type) = match Packet::from_bytes(buffer) {
        Ok(Packet::Write(p)) => (p, ConnectionType::Write),
        Ok(Packet::Read(p)) => (p, ConnectionType::Read),
        _ => {
            debug!("Incorrect packet received {:x?}", buffer);
            return Ok(None);
        }
    };
    debug!(
        "New client {from_client} for file {} in directory {}",
        request.file_name, config.directory
    );
    builder.with_request(request, config.max_window_size, rng)?;
    Ok(Some(connection_type))
""")]),
    ("q-x-accept-merged", [], [(HC, """    match connection_type {
        ConnectionType::Write => {
            if !used_extensions.is_empty() {
                if !connection.send_packet(
                    Packet::OptionalAck(OptionalAck {
                        extensions: used_extensions,
                    }),
                    buffer,
                ) {
                    return None;
                }
            } else if !connection.send_packet(Packet::Ack(AckPacket { block: 0 }), buffer) {
                return None;
            }
            // new encryption starts only here
            #[cfg(feature = "encryption")]
            if let Some(keys) = _session_keys {
                let (encryptor, _) = keys
                    .server_keys
                    .session
                    .finalize(&keys.remote_session_public_key, _rng);
                connection.encryptor = encryptor.into();
            }

            print_options("Server writing using", &connection.options);

            Some(())
        }
        ConnectionType::Read => {
            if !used_extensions.is_empty()
                && !connection.send_packet(
                    Packet::OptionalAck(OptionalAck {
                        extensions: used_extensions,
                    }),
                    buffer,
                )
            {
                return None;
            }

            // new encryption starts only here
            #[cfg(feature = "encryption")]
            if let Some(keys) = _session_keys {
                let (encryptor, _) = keys
                    .server_keys
                    .session
                    .finalize(&keys.remote_session_public_key, _rng);
                connection.encryptor = encryptor.into();
            }

            print_options("Server reading using", &connection.options);

            Some(())
        }
    }
}
""", """    let answer = if !used_extensions.is_empty() {
        Some(Packet::OptionalAck(OptionalAck {
            extensions: used_extensions,
        }))
    } else if matches!(connection_type, ConnectionType::Write) {
        Some(Packet::Ack(AckPacket { block: 0 }))
    } else {
        None
    };
    if let Some(packet) = answer {
        if !connection.send_packet(packet, buffer) {
            return None;
        }
    }
    #[cfg(feature = "encryption")]
    if let Some(keys) = _session_keys {
        let (encryptor, _) = keys
            .server_keys
            .session
            .finalize(&keys.remote_session_public_key, _rng);
        connection.encryptor = Some(encryptor);
    }
    print_options("Server using", &connection.options);
    Some(())
}
""")]),
    ("q-x-timeout-order", [], [(HC, """    if connection.invalid.is_some() || connection.finished {
        return true;
    }
    if connection.last_updated.elapsed() <= request_timeout {
        return false;
    }
""", """    let over = connection.finished || connection.invalid.is_some();
    let idle = connection.last_updated.elapsed();
    if over {
        return true;
    }
    if !(idle > request_timeout) {
        return false;
    }
""")]),
    ("q-x-decrypt-match", [], [(CN, """        #[cfg(feature = "encryption")]
        if let (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) =
            (self.options.encryption_level, &self.encryptor)
        {
            if EncryptedPacket::decrypt(encryptor, _buffer).is_err() {
                debug!(
                    "Failed to decrypt packet from {} {} {:?}",
                    self.endpoint,
                    &_buffer.len(),
                    &_buffer
                );
                return false;
            }
        }

        #[cfg(feature = "encryption")]
        if let (Ok(PacketType::Data), EncryptionLevel::Data, Some(encryptor)) = (
            PacketType::from_bytes(_buffer),
            self.options.encryption_level,
            &self.encryptor,
        ) {
            if EncryptedDataPacket::decrypt(encryptor, _buffer).is_err() {
                debug!(
                    "Failed to decrypt data from {} {} {:x?}",
                    self.endpoint,
                    &_buffer.len(),
                    &_buffer
                );
                return false;
            }
        }

        true
""", """        #[cfg(feature = "encryption")]
        {
            let Some(encryptor) = &self.encryptor else {
                return true;
            };
            let opened = match self.options.encryption_level {
                EncryptionLevel::Protocol | EncryptionLevel::Full => {
                    EncryptedPacket::decrypt(encryptor, _buffer).is_ok()
                }
                EncryptionLevel::Data => match PacketType::from_bytes(_buffer) {
                    Ok(PacketType::Data) => EncryptedDataPacket::decrypt(encryptor, _buffer).is_ok(),
                    _ => true,
                },
                _ => true,
            };
            if !opened {
                debug!("Failed to decrypt from {}", self.endpoint);
            }
            opened
        }
        #[cfg(not(feature = "encryption"))]
        true
""")]),
    ("q-x-send-bytes-helper", [], [(CN, """        #[cfg(feature = "encryption")]
        if let (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) =
            (self.options.encryption_level, &self.encryptor)
        {
            if EncryptedPacket::encrypt(
                encryptor,
                data,
                self.options.block_size_with_encryption() + DATA_PACKET_HEADER_SIZE as u16,
            )
            .is_err()
            {
                error!("Failed to encrypt data {:x?}", data);
                return false;
            }
        }
        #[cfg(feature = "encryption")]
        if let (EncryptionLevel::Data, Some(encryptor), PacketType::Data) =
            (self.options.encryption_level, &self.encryptor, packet_name)
        {
            if EncryptedDataPacket::encrypt(encryptor, data).is_err() {
                error!("Failed to encrypt data {:x?}", data);
                return false;
            }
        }
        if let Err(e) = self.socket.send(data) {
            error!("Failed to send {} to {} {}", packet_name, self.endpoint, e);
            return false;
        }
        true
    }
""", """        if !self.seal(packet_name, data) {
            error!("Failed to encrypt data {:x?}", data);
            return false;
        }
        match self.socket.send(data) {
            Ok(_) => true,
            Err(e) => {
                error!("Failed to send {} to {} {}", packet_name, self.endpoint, e);
                false
            }
        }
    }

    #[allow(unused_variables)]
    fn seal(&self, packet_name: PacketType, data: &mut DataBuffer) -> bool {
        #[cfg(feature = "encryption")]
        if let Some(encryptor) = &self.encryptor {
            return match (self.options.encryption_level, packet_name) {
                (EncryptionLevel::Protocol | EncryptionLevel::Full, _) => {
                    let size =
                        self.options.block_size_with_encryption() + DATA_PACKET_HEADER_SIZE as u16;
                    EncryptedPacket::encrypt(encryptor, data, size).is_ok()
                }
                (EncryptionLevel::Data, PacketType::Data) => {
                    EncryptedDataPacket::encrypt(encryptor, data).is_ok()
                }
                _ => true,
            };
        }
        true
    }
""")]),
    ("q-x-send-packet-let", [], [(CN, """        let Some(s) = packet.to_buffer(buffer) else {
            return false;
        };
        buffer.truncate(s);
        self.send_bytes(packet_name, buffer)""", """        match packet.to_buffer(buffer) {
            Some(size) => {
                buffer.truncate(size);
                self.send_bytes(packet_name, buffer)
            }
            None => false,
        }""")]),
    ("q-x-builder-bound-socket", [], [(CB, """        let mut listen = self.config.listen;
        if self.config.require_server_port_change {
            listen.set_port(0);
        }

        let new_socket = match create_bound_socket(listen, self.socket_id, client) {
            Ok(s) => s,
            Err(e) => {
                error!("Failed to create socket {}", e);
                return Err(e);
            }
        };
""", """        let new_socket = create_bound_socket(session_address(self.config), self.socket_id, client)
            .map_err(|e| {
                error!("Failed to create socket {}", e);
                e
            })?;
"""), (CB, "fn block_writer<W: Write>", """fn session_address(config: &ServerConfig) -> SocketAddr {
    let mut listen = config.listen;
    if config.require_server_port_change {
        listen.set_port(0);
    }
    listen
}

fn block_writer<W: Write>""")]),
    ("q-x-builder-tsize", [], [(CB, """        match (
            self.options.file_size,
            self.used_extensions.entry(Extension::TransferSize),
        ) {
            (Some(s), Entry::Occupied(mut entry)) => {
                *entry.get_mut() = format_str!(ExtensionValue, "{}", s);
            }
            #[allow(unused_mut)]
            (None, Entry::Occupied(mut entry)) => {
                entry.remove();
            }
            _ => (),
        };
""", """        if let Entry::Occupied(mut entry) = self.used_extensions.entry(Extension::TransferSize) {
            match transfer_size {
                Some(s) => {
                    *entry.get_mut() = format_str!(ExtensionValue, "{}", s);
                }
                None => {
                    entry.remove();
                }
            }
        }
""")]),
    ("q-x-block-reader-match", [], [(CB, """    if options.window_size == 1 && readers_available.single_block() {
        return Readers::Single(SingleBlockReader::new(
            reader,
            options.block_size_with_encryption(),
        ))
        .into();
    }

    if readers_available.multi_block() {
        return Readers::Multiple(MultipleBlockReader::new(
            reader,
            options.block_size_with_encryption(),
            options.window_size,
        ))
        .into();
    }
""", """    let block_size = options.block_size_with_encryption();
    let window_size = options.window_size;
    if window_size == 1 && readers_available.single_block() {
        return Some(Readers::Single(SingleBlockReader::new(reader, block_size)));
    } else if readers_available.multi_block() {
        return Some(Readers::Multiple(MultipleBlockReader::new(
            reader,
            block_size,
            window_size,
        )));
    }
""")]),
    ("q-x-reply-match", [], [(CB, """    #[cfg(feature = "encryption")]
    let mut bytes = if let Some(encryptor) = _encryptor {
        let mut buffer = packet.to_bytes();
        if let Err(e) = EncryptedPacket::encrypt(encryptor, &mut buffer, _expected_block_size) {
            warn!("Failed to encrypt error packet {e}");
            return;
        }
        buffer
    } else {
        packet.to_bytes()
    };
    #[cfg(not(feature = "encryption"))]
    let mut bytes = packet.to_bytes();
""", """    let mut bytes = packet.to_bytes();
    #[cfg(feature = "encryption")]
    if let Some(encryptor) = _encryptor {
        if let Err(e) = EncryptedPacket::encrypt(encryptor, &mut bytes, _expected_block_size) {
            warn!("Failed to encrypt error packet {e}");
            return;
        }
    }
""")]),
    ("q-x-new-connection-flat", [], [(CB, """            let Ok(data) = packet.decrypt(&encryptor) else {
                trace!("Ignoring encryption for initial packet: failed to decrypt");
                return create_default_builder();
            };
            *buffer = data;
            let mut builder = create_default_builder();
            builder.handshake_encryption = encryptor.into();
            builder.options.encryption_level = EncryptionLevel::Full;
            debug!("Initial packet encrypted");
            builder
""", """            let mut builder = create_default_builder();
            match packet.decrypt(&encryptor) {
                Ok(data) => {
                    *buffer = data;
                    builder.options.encryption_level = EncryptionLevel::Full;
                    builder.handshake_encryption = Some(encryptor);
                }
                Err(_) => trace!("Ignoring encryption for initial packet: failed to decrypt"),
            }
            builder
""")]),
    ("q-x-write-window-helper", [], [(HW, """            if connection.options.window_size <= 1
                || connection.last_acknowledged + connection.options.window_size as u64 == index
                || written.unwrap_or(0) < connection.options.block_size_with_encryption() as usize
            {
                if !connection.send_packet(Packet::Ack(AckPacket { block }), send_buffer) {
                    error!("Unable to ack block {}", block);
                } else {
                    connection.last_acknowledged = index;
                }
            }
""", """            let window = u64::from(connection.options.window_size);
            let full = usize::from(connection.options.block_size_with_encryption());
            let last = written.is_none() || written.is_some_and(|w| w < full);
            let answer = window <= 1 || last || index == connection.last_acknowledged + window;
            if answer {
                let ack = Packet::Ack(AckPacket { block });
                if connection.send_packet(ack, send_buffer) {
                    connection.last_acknowledged = index;
                } else {
                    error!("Unable to ack block {}", block);
                }
            }
""")]),
    ("q-x-write-early", [], [(HW, """    match result {
        Ok((written, index, block)) => {
            if let Some(w) = written {""", """    let outcome = result;
    match outcome {
        Ok((written, index, block)) => {
            let _started = write_elapsed.elapsed();
            if let Some(w) = written {""")]),
    ("q-x-mt-idle-fn", [], [(MT, """        if handles.contains_key(&from_client) {
            continue;
        }

        counter!""", """        let known = handles.contains_key(&from_client);
        if known {
            continue;
        }

        counter!"""), (MT, """        if handles.len() >= config.max_connections as usize {
            info!(
                "Max connections {} reached. Ignoring connection from {}",
                config.max_connections, from_client
            );
            continue;
        }
""", """        let full = !(handles.len() < usize::from(config.max_connections));
        if full {
            info!("Max connections reached. Ignoring connection from {}", from_client);
            continue;
        }
""")]),
    ("q-x-mt-recv-error", [], [(MT, """                Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
                    handles.retain(|_, t| !t.is_finished());
                    continue;
                }
                Err(e) => return Err(e.into()),
            };
""", """                Err(e) => {
                    if e.kind() != ErrorKind::WouldBlock {
                        return Err(e.into());
                    }
                    handles.retain(|_, t| !t.is_finished());
                    continue;
                }
            };
""")]),
    ("q-x-mt-writer-loop", [], [(MT, """        loop {
            if timeout_client(&mut connection, request_timeout, &mut send_buffer) {
                return;
            }

            resize_buffer(&mut receive_buffer, receive_max_buffer_size);
""", """        while !timeout_client(&mut connection, request_timeout, &mut send_buffer) {
            resize_buffer(&mut receive_buffer, receive_max_buffer_size);
""")]),
    ("q-x-st-full-first", [], [(ST, """                if clients_len >= config.max_connections as usize {
                    info!(
                        "Max connections {} reached. Ignoring connection from {}",
                        config.max_connections, from_client
                    );
                    continue;
                }
""", """                let room = (config.max_connections as usize).saturating_sub(clients_len);
                if room == 0 {
                    info!("Max connections reached. Ignoring connection from {}", from_client);
                    continue;
                }
""")]),
    ("q-x-st-retain-fn", [], [(ST, """        if timeout_duration.elapsed() > execute_timeout_client {
            clients.retain(|_, (c, _)| {
                !timeout_client::<B, Rng>(c, config.request_timeout, &mut send_buffer)
            });
            timeout_duration = instant();
        }
""", """        let look = timeout_duration.elapsed() > execute_timeout_client;
        if look {
            timeout_duration = instant();
            clients.retain(|_, client| {
                let (c, _) = client;
                let ended = timeout_client::<B, Rng>(c, config.request_timeout, &mut send_buffer);
                !ended
            });
        }
""")]),
    # ------------------------------------------------------------------------------ bugs: server
    ("x-normalize-trim", ["F05"], [(V, """.filter(|c| !matches!(c.trim(), "." | ".." | "/" | ""))""", """.filter(|c| !matches!(*c, "." | ".." | "/" | ""))"""), (V, "            f.push_str(c);", "            f.push_str(c.trim());")]),
    ("x-normalize-skip1", ["F05"], [(V, """        .fold(FilePath::new(), |mut f, c| {""", """        .chain(file_path.as_str().rsplit('/').take(1))
        .take_while(|c| !c.is_empty())
        .fold(FilePath::new(), |mut f, c| {""")]),
    ("x-announce-mask", ["W03"], [(V, "handle_file_size(options.file_size.unwrap_or(0), config.max_file_size)", "handle_file_size(options.file_size.unwrap_or(0) as u32 as u64, config.max_file_size)")]),
    ("x-total-u32", ["W03"], [(HW, "handle_file_size((connection.transfer + w) as u64, max_file_size)", "handle_file_size((connection.transfer + w) as u32 as u64, max_file_size)")]),
    ("x-total-only-full", ["W03"], [(HW, "                connection.transfer += w;\n\n                if w <", "                if connection.last_acknowledged == index {\n                    connection.transfer += w;\n                }\n\n                if w <")]),
    ("x-window-u8", ["W06"], [(HW, "connection.last_acknowledged + connection.options.window_size as u64 == index", "connection.last_acknowledged + connection.options.window_size as u8 as u64 == index")]),
    ("x-index-u16", ["W06"], [(HW, "connection.last_acknowledged + connection.options.window_size as u64 == index", "(connection.last_acknowledged as u16).wrapping_add(connection.options.window_size) == index as u16")]),
    ("x-ack-error-ignored", ["W06"], [(HW, """                    error!("Unable to ack block {}", block);
                } else {
                    connection.last_acknowledged = index;
                }""", """                    error!("Unable to ack block {}", block);
                }
                connection.last_acknowledged = index;""")]),
    ("x-finish-block-size", ["W04"], [(HW, "                if w < connection.options.block_size_with_encryption() as usize {", "                if w < connection.options.block_size as usize {")]),
    ("x-finish-empty-only", ["W04"], [(HW, "                if w < connection.options.block_size_with_encryption() as usize {", "                if w < connection.options.block_size_with_encryption() as usize && connection.last_acknowledged == index {")]),
    ("x-renew-repeat", ["S04"], [(HW, """            if let Some(w) = written {
                connection.last_updated = instant();
                connection.transfer += w;
""", """            if written.is_some() || connection.options.window_size > 1 {
                connection.last_updated = instant();
            }
            if let Some(w) = written {
                connection.transfer += w;
""")]),
    ("x-renew-finish-ack", ["S04"], [(HR, "            if bytes_freed > 0 {\n                connection.last_updated = instant();", "            if bytes_freed > 0 || connection.retry_packet_multiplier.get() > 1 {\n                connection.last_updated = instant();")]),
    ("x-read-invalid-not-set", ["R03"], [(HR, "            connection.send_packet(Packet::Error(error_packet), buffer);\n            connection.invalid = instant().into();\n            return false;", "            if connection.send_packet(Packet::Error(error_packet), buffer) {\n                connection.invalid = instant().into();\n            }\n            return false;")]),
    ("x-read-header-after-truncate", ["R02"], [(HR, "    buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + packet_block.size);", "    buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + packet_block.size.max(1));")]),
    ("x-read-finished-any", ["R01"], [(HR, "            if block_reader.is_finished() {", "            if block_reader.is_finished() || connection.options.file_size.is_some_and(|s| s > 0 && connection.transfer as u64 >= s) {")]),
    ("x-timeout-retry", ["S03"], [(HC, "    if connection.last_updated.elapsed() <= request_timeout {", "    if connection.last_updated.elapsed() <= request_timeout.max(connection.options.retry_packet_after_timeout) {")]),
    ("x-timeout-sent", ["S03"], [(HC, "    if connection.last_updated.elapsed() <= request_timeout {", "    if connection.last_updated.elapsed() <= request_timeout || connection.last_sent.elapsed() <= request_timeout {")]),
    ("x-ack-instead-of-oack", ["N02"], [(HC, "            if !used_extensions.is_empty() {\n", "            if used_extensions.len() > 1 {\n")]),
    ("x-send-fail-started", ["N02"], [(HC, """            } else if !connection.send_packet(Packet::Ack(AckPacket { block: 0 }), buffer) {
                return None;
            }""", """            } else {
                connection.send_packet(Packet::Ack(AckPacket { block: 0 }), buffer);
            }""")]),
    ("x-plain-errors", ["E01"], [(CN, """        if let (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) =
            (self.options.encryption_level, &self.encryptor)
        {
            if EncryptedPacket::encrypt(""", """        if let (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor), true) =
            (self.options.encryption_level, &self.encryptor, self.invalid.is_none())
        {
            if EncryptedPacket::encrypt(""")]),
    ("x-decrypt-errors-plain", ["E02"], [(CN, """            if EncryptedPacket::decrypt(encryptor, _buffer).is_err() {""", """            if EncryptedPacket::decrypt(encryptor, _buffer).is_err()
                && !matches!(PacketType::from_bytes(_buffer), Ok(PacketType::Error))
            {""")]),
    ("x-decrypt-after-finished", ["E02"], [(CN, """        if let (Ok(PacketType::Data), EncryptionLevel::Data, Some(encryptor)) = (
            PacketType::from_bytes(_buffer),
            self.options.encryption_level,
            &self.encryptor,
        ) {""", """        if let (Ok(PacketType::Data), EncryptionLevel::Data, Some(encryptor), false) = (
            PacketType::from_bytes(_buffer),
            self.options.encryption_level,
            &self.encryptor,
            _buffer.len() <= DATA_PACKET_HEADER_SIZE as usize,
        ) {""")]),
    ("x-mt-limit-order", ["S01"], [(MT, "        if handles.len() >= config.max_connections as usize {", "        if handles.len() > (config.max_connections as usize).saturating_sub(1).max(1) {")]),
    ("x-mt-limit-u8", ["S01"], [(MT, "        if handles.len() >= config.max_connections as usize {", "        if handles.len() as u8 >= config.max_connections as u8 {")]),
    ("x-st-limit-u16", ["S01"], [(ST, "                if clients_len >= config.max_connections as usize {", "                if clients_len as u16 == config.max_connections {")]),
    ("x-mt-known-ip", ["S02"], [(MT, "        if handles.contains_key(&from_client) {\n            continue;", "        if handles.contains_key(&from_client) && !handles[&from_client].is_finished() && config.require_server_port_change {\n            continue;")]),
    ("x-mt-endpoint", ["S02"], [(MT, "let _ = handles.insert(from_client, handle);", "let _ = handles.insert(SocketAddr::new(from_client.ip(), 0), handle);")]),
    ("x-st-known-dropped", ["S02"], [(ST, "                        if clients.contains_key(&from_client) {\n", "                        if clients.contains_key(&from_client) && received_in.elapsed() < config.request_timeout {\n")]),
    ("x-mt-error-returns", ["S05"], [(MT, "Err(ref e) if e.kind() == ErrorKind::WouldBlock => {\n                    handles", "Err(ref e) if e.kind() == ErrorKind::WouldBlock && !handles.is_empty() => {\n                    handles")]),
    ("x-st-break", ["S05"], [(ST, """                if entry.insert((connection, client_type)).is_err() {
                    error!("Exhausted all connections");""", """                if entry.insert((connection, client_type)).is_err() {
                    error!("Exhausted all connections");
                    return Ok(());""")]),
    ("x-builder-keep-level", ["E16"], [(CB, "            builder.handshake_encryption = encryptor.into();\n            builder.options.encryption_level = EncryptionLevel::Full;", "            builder.options.encryption_level = EncryptionLevel::Full;\n            if builder.config.require_full_encryption {\n                builder.handshake_encryption = encryptor.into();\n            }")]),
    ("x-reply-plain", ["E10"], [(CB, """            warn!("Failed to encrypt error packet {e}");
            return;""", """            warn!("Failed to encrypt error packet {e}");""")]),
    ("x-reply-auth", ["E10"], [(CB, "        if self.config.error_to_authorized_only {\n            return;", "        if self.config.error_to_authorized_only && self.handshake_encryption.is_none() {\n            return;")]),
    ("x-window-reader", ["R05"], [(CB, """        return Readers::Multiple(MultipleBlockReader::new(
            reader,
            options.block_size_with_encryption(),
            options.window_size,
        ))""", """        return Readers::Multiple(MultipleBlockReader::new(
            reader,
            options.block_size_with_encryption(),
            options.window_size.max(2),
        ))""")]),
    ("x-tsize-zero", ["N05"], [(CB, "            (None, Entry::Occupied(mut entry)) => {\n                entry.remove();\n            }", "            (None, Entry::Occupied(mut entry)) if self.options.window_size > 1 => {\n                entry.remove();\n            }")]),
    ("x-block-size-valid", ["E13"], [(CB, "        if !options.is_block_size_valid() {", "        if !options.is_block_size_valid() && !used_extensions.is_empty() {")]),
]
