"""A second round for the client, written from the statements and the code only."""
RX = "src/client/receiver.rs"
TX = "src/client/sender.rs"
QC = "src/client/connection.rs"

MUTANTS = [
    ("q-y-write-block-map", [], [(RX, """    match block_writer.write_block(block, data) {
        Ok((written, index)) => Ok((Some(written), index, block)),
        Err(StorageError::ExpectedBlock(e)) => {
            debug!(
                "Received unexpected block {} expecting block after {}",
                block, e.current
            );
            Ok((None, e.current_index, e.current))
        }
        Err(StorageError::AlreadyWritten(e)) => {
            debug!(
                "Received block that was written before. Ignoring block {}",
                block
            );
            Ok((None, e.current_index, e.current))
        }
        Err(e) => Err(e.into()),
    }
""", """    let refused = match block_writer.write_block(block, data) {
        Ok((written, index)) => return Ok((Some(written), index, block)),
        Err(StorageError::ExpectedBlock(e) | StorageError::AlreadyWritten(e)) => e,
        Err(e) => return Err(e.into()),
    };
    debug!("Ignoring block {} after {}", block, refused.current);
    Ok((None, refused.current_index, refused.current))
""")]),
    ("q-y-recv-ack-fn", [], [(RX, """                    debug!("Ack send {}", block);
                    let packet = Packet::Ack(AckPacket { block });
                    let size = packet.to_buffer(&mut send_buffer).expect("valid buffer");
                    send_buffer.truncate(size);
                    socket.send_to(&mut send_buffer, endpoint)?;
                    last_block_ack = index;
""", """                    send_ack(&socket, endpoint, block)?;
                    last_block_ack = index;
"""), (RX, """    let mut send_buffer = create_max_buffer(options.block_size);

    loop {""", """    loop {"""), (RX, """                        trace!("Ack send {}", block);
                        let packet = Packet::Ack(AckPacket { block });
                        socket.send_to(&mut packet.to_bytes(), endpoint)?;
                        last_block_ack = index;
""", """                        trace!("Ack send {}", block);
                        send_ack(&socket, endpoint, block)?;
                        last_block_ack = index;
"""), (RX, """fn handle_file_size(
""", """fn send_ack(socket: &impl Socket, endpoint: SocketAddr, block: u16) -> DefaultBoxedResult {
    let packet = Packet::Ack(AckPacket { block });
    socket.send_to(&mut packet.to_bytes(), endpoint)?;
    Ok(())
}

fn handle_file_size(
""")]),
    ("q-y-recv-match-source", [], [(RX, """            Ok((n, s)) => {
                if s != endpoint {
                    continue;
                }
                n
            }
""", """            Ok((n, s)) if s == endpoint => n,
            Ok((_, other)) => {
                debug!("Ignoring packet from {other}");
                continue;
            }
""")]),
    ("q-y-recv-elapsed", [], [(RX, """        let elapsed = timeout.elapsed();
        if elapsed > config.request_timeout {
            if let Ok(s) = socket.local_addr() {
                debug!("Received timeout for {}", s);
            }
            return Err(PacketError::Timeout(elapsed).into());
        }
""", """        let elapsed = timeout.elapsed();
        let in_time = elapsed <= config.request_timeout;
        if !in_time {
            return Err(PacketError::Timeout(elapsed).into());
        }
""")]),
    ("q-y-recv-finish", [], [(RX, """                if let Some(w) = written {
                    timeout = instant();
                    total += w;

                    if w < options""", """                if let Some(w) = written {
                    total += w;
                    timeout = instant();
                    let full_size = options.block_size_with_encryption() as usize;
                    trace!("Stored {w} of {full_size}");

                    if w < options""")]),
    ("q-y-recv-total-new", [], [(RX, """                if let Some(w) = written {
                    handle_file_size(&socket, endpoint, total + w, config.max_file_size)?;
                }
                if options.window_size <= 1""", """                let new_total = total + written.unwrap_or(0);
                if written.is_some() {
                    handle_file_size(&socket, endpoint, new_total, config.max_file_size)?;
                }
                if options.window_size <= 1"""), (RX, """                    timeout = instant();
                    total += w;
""", """                    timeout = instant();
                    total = new_total;
""")]),
    ("q-y-file-size-early", [], [(RX, """    if data_length > max_file_size as usize {
        let message = format_str!(
            DefaultString,
            "Invalid file size received {} expected {}",
            data_length,
            max_file_size
        );
        send_error(socket, endpoint, ErrorCode::DiskFull, message)?;
        return Err(PacketError::Invalid.into());
    }
    Ok(())""", """    if data_length <= max_file_size as usize {
        return Ok(());
    }
    let message = format_str!(
        DefaultString,
        "Invalid file size received {} expected {}",
        data_length,
        max_file_size
    );
    send_error(socket, endpoint, ErrorCode::DiskFull, message)?;
    Err(PacketError::Invalid.into())""")]),
    ("q-y-recv-result-inline", [], [(RX, """        match result {
            Ok((written, index, block)) => {
                if let Some(w) = written {
                    handle_file_size""", """        match result {
            Ok(stored) => {
                let (written, index, block) = stored;
                if let Some(w) = written {
                    handle_file_size""")]),
    ("q-y-send-finish-flag", [], [(TX, """                if block_reader.is_finished() {
                    info!(""", """                let finished = block_reader.is_finished();
                if finished {
                    info!("""), (TX, """                timeout = instant();
                let data_length = block_reader.free_block(p.block);
                last_acknowledged""", """                let data_length = block_reader.free_block(p.block);
                timeout = instant();
                last_acknowledged""")]),
    ("q-y-send-type-in-match", [], [(TX, """        if !matches!(
            PacketType::from_bytes(data),
            Ok(PacketType::Ack | PacketType::Error)
        ) {
            debug!("Incorrect packet type received {:x?}", data);
            continue;
        }
""", """        match PacketType::from_bytes(data) {
            Ok(PacketType::Ack) | Ok(PacketType::Error) => (),
            _ => {
                debug!("Incorrect packet type received {:x?}", data);
                continue;
            }
        }
""")]),
    ("q-y-send-next-helper", [], [(TX, """            prepend_data_header(data_block.block, &mut send_buffer);
            send_buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + data_block.size);

            match socket.send_to(&mut send_buffer, endpoint) {""", """            let packet_size = data_block.size + usize::from(DATA_PACKET_HEADER_SIZE);
            send_buffer.truncate(packet_size);
            prepend_data_header(data_block.block, &mut send_buffer);

            let result = socket.send_to(&mut send_buffer, endpoint);
            match result {""")]),
    ("q-y-send-recv-if", [], [(TX, """            Ok((n, s)) => {
                if s != endpoint {
                    continue;
                }
                no_work = Wrapping(1);
                last_received = instant();
                n
            }
            // packets that can not be decrypted are ignored
            Err(ref e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::InvalidData) => {
                no_work += 1;

                continue;
            }
            Err(e) => {
                return Err(e.into());
            }
        };
""", """            Ok((n, s)) => {
                if endpoint == s {
                    last_received = instant();
                    no_work = Wrapping(1);
                    n
                } else {
                    continue;
                }
            }
            Err(e) => {
                let ignored = matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::InvalidData);
                if !ignored {
                    return Err(e.into());
                }
                no_work += 1;
                continue;
            }
        };
""")]),
    ("q-y-send-reader-if", [], [(TX, """    match (options.window_size, prefer_seek) {
        (1, false) => Readers::Single(SingleBlockReader::new(
            reader,
            options.block_size_with_encryption(),
        )),
""", """    let block_size = options.block_size_with_encryption();
    match (options.window_size, prefer_seek) {
        (1, false) => Readers::Single(SingleBlockReader::new(reader, block_size)),
""")]),
    ("q-y-query-port-check", [], [(QC, """        if config.endpoint != endpoint {
            if !config.allow_server_port_change {
                error!("Server is using a new port, however configuration does not allow it. Pass allow-server-port-change");
                return Err(PacketError::Invalid.into());
            } else {
                debug!("Using new endpoint {}", endpoint);
            }
        }
""", """        let moved = endpoint != config.endpoint;
        if moved && !config.allow_server_port_change {
            error!("Server is using a new port, however configuration does not allow it. Pass allow-server-port-change");
            return Err(PacketError::Invalid.into());
        }
        if moved {
            debug!("Using new endpoint {}", endpoint);
        }
""")]),
    ("q-y-query-pin-fn", [], [(QC, """                if conn.encryption_level != EncryptionLevel::None
                    && config.private_key.is_some()
                    && config.remote_public_key.is_some()
                    && config.remote_public_key.as_ref()
                        != remote_session_public_keys
                            .as_ref()
                            .and_then(|k| k.auth.as_ref())
                {
""", """                let known = config.remote_public_key.as_ref();
                let received = remote_session_public_keys.as_ref().and_then(|k| k.auth.as_ref());
                let encrypted = conn.encryption_level != EncryptionLevel::None;
                if encrypted && config.private_key.is_some() && known.is_some() && known != received {
""")]),
    ("q-y-query-result-merged", [], [(QC, """            (PacketType::Write, Ok(Packet::Ack(_))) => {
                // server disregards extensions
                return Ok(QueryResult {
                    received_length: None,
                    acknowledge: false,
                    options: options_without_extensions(options)?,
                    endpoint,
                    remote_session_public_keys: None,
                });
            }
            (PacketType::Read, Ok(Packet::Data(_))) => {
                // server disregards extensions
                return Ok(QueryResult {
                    received_length: Some(length),
                    acknowledge: false,
                    options: options_without_extensions(options)?,
                    endpoint,
                    remote_session_public_keys: None,
                });
            }
""", """            (PacketType::Write, Ok(Packet::Ack(_))) | (PacketType::Read, Ok(Packet::Data(_))) => {
                // server disregards extensions
                let received_length = matches!(packet_type, PacketType::Read).then_some(length);
                let options = options_without_extensions(options)?;
                return Ok(QueryResult {
                    received_length,
                    acknowledge: false,
                    options,
                    endpoint,
                    remote_session_public_keys: None,
                });
            }
""")]),
    ("q-y-wait-match", [], [(QC, """            Ok((n, s)) => {
                if s.ip() == endpoint.ip() {
                    return Ok((n, s));
                }
                continue;
            }
""", """            Ok(received) => {
                let (_, from) = received;
                if from.ip() != endpoint.ip() {
                    continue;
                }
                return Ok(received);
            }
""")]),
    ("q-y-wait-retry", [], [(QC, """                retry_timeout = min(
                    request_timeout.saturating_sub(timeout.elapsed()),
                    retry_timeout.saturating_mul(2),
                );
                continue;
""", """                let left = request_timeout.saturating_sub(timeout.elapsed());
                let doubled = retry_timeout.saturating_mul(2);
                retry_timeout = if doubled < left { doubled } else { left };
""")]),
    ("q-y-without-extensions", [], [(QC, """    if matches!(
        options.encryption_level,
        EncryptionLevel::Data | EncryptionLevel::Protocol | EncryptionLevel::Full
    ) {
        return Err(ExtensionError::ClientRequiredEncryption(
            options.encryption_level,
        ));
    }
    let mut options = options.with_block_size(DEFAULT_DATA_BLOCK_SIZE);
    options.window_size = EXTENSION_WINDOW_SIZE_MIN;
    Ok(options)
""", """    match options.encryption_level {
        level @ (EncryptionLevel::Data | EncryptionLevel::Protocol | EncryptionLevel::Full) => {
            Err(ExtensionError::ClientRequiredEncryption(level))
        }
        _ => {
            let mut plain = options;
            plain.window_size = EXTENSION_WINDOW_SIZE_MIN;
            Ok(plain.with_block_size(DEFAULT_DATA_BLOCK_SIZE))
        }
    }
""")]),
    # ------------------------------------------------------------------------------ bugs
    ("y-source-ip", ["C01"], [(RX, "                if s != endpoint {\n                    continue;", "                if s.ip() != endpoint.ip() {\n                    continue;")]),
    ("y-source-ip-port", ["C01"], [(TX, "                if s != endpoint {\n                    continue;", "                if s != endpoint && s != config.endpoint {\n                    continue;")]),
    ("y-source-renews", ["C01", "C05"], [(RX, "                if s != endpoint {\n                    continue;", "                if s != endpoint {\n                    timeout = instant();\n                    continue;")]),
    ("y-answer-anyone", ["C01"], [(QC, "                if s.ip() == endpoint.ip() {", "                if s.ip() == endpoint.ip() || s.port() == endpoint.port() {")]),
    ("y-port-any-download", ["C01"], [(QC, "            if !config.allow_server_port_change {", "            if !config.allow_server_port_change && packet_type == PacketType::Write {")]),
    ("y-finish-by-announced", ["C02"], [(RX, "                    if w < options.block_size_with_encryption() as usize {\n                        info!(\"Client finished receiving {local_file_path} {total} bytes\");\n                        histogram!(\"tftp.client.connection.duration\", \"connection_type\" => \"read\")\n                            .record(started.elapsed());\n                        counter", "                    if w < options.block_size_with_encryption() as usize\n                        || options.file_size.is_some_and(|s| s > 0 && total as u64 == s)\n                    {\n                        info!(\"Client finished receiving {local_file_path} {total} bytes\");\n                        histogram!(\"tftp.client.connection.duration\", \"connection_type\" => \"read\")\n                            .record(started.elapsed());\n                        counter")]),
    ("y-first-finished", ["C02"], [(RX, "                        finished = w < options.block_size_with_encryption() as usize;", "                        finished = w <= options.block_size_with_encryption() as usize && w < receive_max_buffer_size - 600;")]),
    ("y-total-first-lost", ["C02", "C06"], [(RX, "                    if let Some(w) = written {\n                        total += w;\n                        finished", "                    if let Some(w) = written {\n                        total = 0;\n                        finished")]),
    ("y-success-last-ack", ["C03"], [(TX, "                if block_reader.is_finished() {", "                if block_reader.is_finished() || options.file_size == Some(total_confirmed as u64) {")]),
    ("y-success-empty", ["C03"], [(TX, "                if block_reader.is_finished() {", "                if block_reader.is_finished() || (data_length > 0 && data_length < options.block_size as usize && options.window_size > 1) {")]),
    ("y-free-last", ["C03"], [(TX, "                let data_length = block_reader.free_block(p.block);\n                last_acknowledged = block_mapper.index(p.block);", "                last_acknowledged = block_mapper.index(p.block);\n                let data_length = block_reader.free_block(block_mapper.block(last_acknowledged.max(1)));")]),
    ("y-error-after-ack", ["C04"], [(TX, "            Ok(Packet::Error(p)) => {\n                return Err(PacketError::RemoteError(p.message).into());\n            }\n            _ => {\n                debug!(\"Incorrect packet received {:x?}\", data);\n                continue;", "            Ok(Packet::Error(p)) => {\n                if total_confirmed == 0 || p.code != ErrorCode::Undefined {\n                    return Err(PacketError::RemoteError(p.message).into());\n                }\n                continue;\n            }\n            _ => {\n                debug!(\"Incorrect packet received {:x?}\", data);\n                continue;"), (TX, "use crate::packet::ByteConverter;", "use crate::packet::ByteConverter;\nuse crate::packet::ErrorCode;")]),
    ("y-retry-forever", ["C04"], [(QC, "                    initial = false;\n                    continue;", "                    initial = used_extensions.is_empty();\n                    used_extensions = Default::default();\n                    continue;"), (QC, "                    used_extensions = Default::default();\n                    initial", "                    initial")]),
    ("y-retry-encrypted", ["C04", "E08"], [(QC, "                    && options.encryption_level == EncryptionLevel::None\n                {", "                    && options.encryption_level != EncryptionLevel::Full\n                {")]),
    ("y-timeout-sent", ["C05"], [(TX, "                    last_sent = instant();\n                    no_work", "                    last_sent = instant();\n                    if data_block.retry {\n                        timeout = instant();\n                    }\n                    no_work")]),
    ("y-timeout-blocked", ["C05"], [(RX, "                continue;\n            }\n            Err(e) => {\n                return Err(e.into());\n            }\n        };\n        receive_buffer.truncate(received);", "                if e.kind() == ErrorKind::InvalidData {\n                    timeout = instant();\n                }\n                continue;\n            }\n            Err(e) => {\n                return Err(e.into());\n            }\n        };\n        receive_buffer.truncate(received);")]),
    ("y-initial-restart", ["C05"], [(QC, "    let timeout = instant();\n    let buffer_size = buffer.len();\n    loop {\n        let elapsed", "    let mut timeout = instant();\n    let buffer_size = buffer.len();\n    loop {\n        let elapsed"), (QC, "                    return Ok((n, s));\n                }\n                continue;", "                    return Ok((n, s));\n                }\n                timeout = instant();\n                continue;")]),
    ("y-limit-u32", ["C06"], [(RX, "    if data_length > max_file_size as usize {", "    if data_length > max_file_size as u32 as usize {")]),
    ("y-limit-block", ["C06"], [(RX, "                    handle_file_size(&socket, endpoint, total + w, config.max_file_size)?;", "                    handle_file_size(&socket, endpoint, total, config.max_file_size)?;\n                    let _ = w;")]),
    ("y-limit-unless-announced", ["C06"], [(RX, "                if let Some(w) = written {\n                    handle_file_size", "                if let (Some(w), None) = (written, options.file_size) {\n                    handle_file_size")]),
    ("y-announced-unchecked", ["C06"], [(RX, "    if let Some(file_size) = options.file_size {\n        handle", "    if let (Some(file_size), true) = (options.file_size, acknowledge && total > 0) {\n        handle")]),
    ("y-ack-received", ["C07"], [(RX, "            Ok((None, e.current_index, e.current))\n        }\n        Err(StorageError::AlreadyWritten(e)) => {", "            Ok((None, e.current_index, if e.current == 0 { e.current } else { block }))\n        }\n        Err(StorageError::AlreadyWritten(e)) => {")]),
    ("y-ack-zero", ["C07"], [(RX, "    if acknowledge {\n", "    if acknowledge || total == 0 {\n")]),
    ("y-block-off", ["C08"], [(TX, "            send_buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + data_block.size);", "            send_buffer.truncate((DATA_PACKET_HEADER_SIZE as usize + data_block.size).max(5));")]),
    ("y-resend-number", ["C08"], [(TX, "            prepend_data_header(data_block.block, &mut send_buffer);", "            prepend_data_header(block_mapper.block(block_index.max(last_acknowledged)), &mut send_buffer);")]),
    ("y-ack-window-off", ["C09"], [(RX, "                    || last_block_ack + options.window_size as u64 == index\n                    || written.unwrap_or(0) < options.block_size_with_encryption() as usize\n                {\n                    debug!", "                    || last_block_ack + options.window_size as u64 + 1 == index\n                    || written.unwrap_or(0) < options.block_size_with_encryption() as usize\n                {\n                    debug!")]),
    ("y-ack-last-lost", ["C09"], [(RX, "                    || written.unwrap_or(0) < options.block_size_with_encryption() as usize\n                {\n                    debug!", "                    || written.unwrap_or(0) < options.block_size as usize / 2\n                {\n                    debug!")]),
    ("y-ack-index-before", ["C09"], [(RX, "                if options.window_size <= 1\n                    || last_block_ack + options.window_size as u64 == index\n                    || written.unwrap_or(0) < options.block_size_with_encryption() as usize\n                {\n                    debug!", "                if index > last_block_ack + options.window_size as u64 {\n                    last_block_ack = index;\n                }\n                if options.window_size <= 1\n                    || last_block_ack + options.window_size as u64 == index\n                    || written.unwrap_or(0) < options.block_size_with_encryption() as usize\n                {\n                    debug!")]),
    ("y-default-window", ["N03"], [(QC, "    options.window_size = EXTENSION_WINDOW_SIZE_MIN;\n    Ok(options)", "    if options.window_size > 64 {\n        options.window_size = EXTENSION_WINDOW_SIZE_MIN;\n    }\n    Ok(options)")]),
    ("y-default-block", ["N03"], [(QC, "options.with_block_size(DEFAULT_DATA_BLOCK_SIZE)", "options.clone().with_block_size(DEFAULT_DATA_BLOCK_SIZE.max(options.block_size.min(1024)))")]),
    ("y-pin-level", ["E09"], [(QC, "                if conn.encryption_level != EncryptionLevel::None\n", "                if matches!(conn.encryption_level, EncryptionLevel::Protocol | EncryptionLevel::Full)\n")]),
    ("y-pin-missing", ["E09"], [(QC, "                    && config.remote_public_key.is_some()\n", "                    && config.remote_public_key.is_some()\n                    && remote_session_public_keys.as_ref().is_some_and(|k| k.auth.is_some())\n")]),
    ("y-level-data", ["E08"], [(QC, "        EncryptionLevel::Data | EncryptionLevel::Protocol | EncryptionLevel::Full\n    ) {", "        EncryptionLevel::Protocol | EncryptionLevel::Full\n    ) {")]),
]
