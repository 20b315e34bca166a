RC = "src/client/receiver.rs"
SN = "src/client/sender.rs"
CN = "src/client/connection.rs"
ES = "src/client/encryption_socket.rs"

SRC_R = """                if s != endpoint {
                    continue;
                }
                n
            }
            // packets that can not be decrypted are ignored
            Err(ref e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::InvalidData) => {
                continue;
            }"""
SRC_S = """                if s != endpoint {
                    continue;
                }
                no_work = Wrapping(1);"""
TIME_R = """        let elapsed = timeout.elapsed();
        if elapsed > config.request_timeout {
            if let Ok(s) = socket.local_addr() {
                debug!("Received timeout for {}", s);
            }
            return Err(PacketError::Timeout(elapsed).into());
        }
"""
ACKCOND = """                if options.window_size <= 1
                    || last_block_ack + options.window_size as u64 == index
                    || written.unwrap_or(0) < options.block_size_with_encryption() as usize
                {
                    debug!("Ack send {}", block);"""
SIZE_R = """                if let Some(w) = written {
                    handle_file_size(&socket, endpoint, total + w, config.max_file_size)?;
                }
                if options.window_size <= 1"""
DONE_R = """                    if w < options.block_size_with_encryption() as usize {
                        info!("Client finished receiving {local_file_path} {total} bytes");"""
ERR_R = """            Ok(Packet::Error(p)) => {
                return Err(PacketError::RemoteError(p.message).into());
            }
            _ => {
                debug!("Incorrect packet received {:x?}", &receive_buffer);"""
ERR_S = """            Ok(Packet::Error(p)) => {
                return Err(PacketError::RemoteError(p.message).into());
            }
            _ => {
                debug!("Incorrect packet received {:x?}", data);"""

MUTANTS = [
    # --- C01
    ("c01-ip-only-r", ["C01"], [(RC, "                if s != endpoint {", "                if s.ip() != endpoint.ip() {")]),
    ("c01-port-only-s", ["C01"], [(SN, "                if s != endpoint {", "                if s.port() != endpoint.port() {")]),
    ("c01-not-for-errors", ["C01"], [(SN, "                if s != endpoint {", "                if s != endpoint && !matches!(PacketType::from_bytes(&receive_buffer), Ok(PacketType::Error)) {")]),
    ("c01-only-established", ["C01"], [(RC, "                if s != endpoint {", "                if s != endpoint && total > 0 {")]),
    ("c01-config-endpoint", ["C01"], [(RC, "                if s != endpoint {", "                if s != config.endpoint {")]),
    ("c01-foreign-prolongs", ["C01", "C05"], [(RC, "                if s != endpoint {\n", "                if s != endpoint {\n                    timeout = instant();\n")]),
    ("c01-foreign-ends", ["C01"], [(SN, "                if s != endpoint {\n                    continue;", "                if s != endpoint {\n                    return Err(PacketError::Invalid.into());")]),
    ("c01-query-ip", ["C01"], [(CN, "                if s.ip() == endpoint.ip() {", "                if s.is_ipv4() == endpoint.is_ipv4() {")]),
    ("c01-query-port", ["C01"], [(CN, "            if !config.allow_server_port_change {", "            if !config.allow_server_port_change && endpoint.port() < 1024 {")]),
    ("c01-query-answer", ["C01"], [(CN, "                    received_length: Some(length),\n                    acknowledge: false,\n                    options: options_without_extensions(options)?,\n                    endpoint,", "                    received_length: Some(length),\n                    acknowledge: false,\n                    options: options_without_extensions(options)?,\n                    endpoint: config.endpoint,")]),
    # --- C02
    ("c02-le", ["C02"], [(RC, "                    if w < options.block_size_with_encryption() as usize {", "                    if w <= options.block_size_with_encryption() as usize {")]),
    ("c02-announced", ["C02"], [(RC, "                    if w < options.block_size_with_encryption() as usize {", "                    if w < options.block_size_with_encryption() as usize || options.file_size == Some(total as u64) {")]),
    ("c02-plain-size", ["C02"], [(RC, "                    if w < options.block_size_with_encryption() as usize {", "                    if w < options.block_size as usize {")]),
    ("c02-first", ["C02"], [(RC, "                        finished = w < options.block_size_with_encryption() as usize;", "                        finished = w < options.block_size_with_encryption() as usize || options.window_size <= 1 && p.block > 1;")]),
    ("c02-timeout-ok", ["C02"], [(RC, "            return Err(PacketError::Timeout(elapsed).into());", "            if total > 0 && options.file_size == Some(total as u64) {\n                return Ok((total, None));\n            }\n            return Err(PacketError::Timeout(elapsed).into());")]),
    ("c02-goes-on", ["C02"], [(RC, "                    if w < options.block_size_with_encryption() as usize {", "                    if w < options.block_size_with_encryption() as usize && (w > 0 || total == 0) {")]),
    ("c02-total", ["C02"], [(RC, "                    total += w;\n\n", "                    total += p_len(w, options.block_size);\n\n"), (RC, "fn handle_file_size(", "fn p_len(w: usize, b: u16) -> usize {\n    w.max(b as usize / 512)\n}\n\nfn handle_file_size(")]),
    # --- C03
    ("c03-confirmed", ["C03"], [(SN, "                if block_reader.is_finished() {", "                if block_reader.is_finished() || file_size.is_some_and(|s| s > 0 && total_confirmed as u64 >= s) {")]),
    ("c03-before", ["C03"], [(SN, "                let data_length = block_reader.free_block(p.block);", "                let done = block_reader.is_finished();\n                let data_length = block_reader.free_block(p.block);"), (SN, "                if block_reader.is_finished() {", "                if done {")]),
    ("c03-not-last", ["C03"], [(SN, "                if block_reader.is_finished() {", "                if data_length > 0 && block_reader.is_finished() {")]),
    ("c03-number", ["C03"], [(SN, "block_reader.free_block(p.block);", "block_reader.free_block(p.block.max(1));")]),
    # --- C04
    ("c04-r-disk", ["C04"], [(RC, ERR_R, ERR_R.replace("Ok(Packet::Error(p)) =>", "Ok(Packet::Error(p)) if p.code != ErrorCode::Undefined =>"))]),
    ("c04-s-ignored", ["C04"], [(SN, ERR_S, ERR_S.replace("                return", "                if p.message.is_empty() {\n                    continue;\n                }\n                return"))]),
    ("c04-s-success", ["C04"], [(SN, ERR_S, ERR_S.replace("                return Err", "                if block_reader.is_finished() {\n                    return Ok((total_confirmed, None));\n                }\n                return Err"))]),
    ("c04-retry-any", ["C04"], [(CN, "ErrorCode::IllegalOperation | ErrorCode::Undefined)", "ErrorCode::IllegalOperation | ErrorCode::Undefined | ErrorCode::DiskFull)")]),
    ("c04-retry-again", ["C04"], [(CN, "                    initial = false;\n", "                    initial = p.code == ErrorCode::Undefined && p.message.is_empty();\n")]),
    ("c04-retry-encrypted", ["C04", "E08"], [(CN, "                    && options.encryption_level == EncryptionLevel::None\n", "                    && options.encryption_level != EncryptionLevel::Full\n")]),
    # --- C05
    ("c05-r-any", ["C05"], [(RC, "                if let Some(w) = written {\n                    timeout = instant();", "                timeout = instant();\n                if let Some(w) = written {")]),
    ("c05-r-received", ["C05"], [(RC, "        receive_buffer.truncate(received);", "        timeout = instant();\n        receive_buffer.truncate(received);")]),
    ("c05-s-any", ["C05"], [(SN, "                last_received = instant();\n", "                last_received = instant();\n                timeout = instant();\n")]),
    ("c05-s-sent", ["C05"], [(SN, "                    last_sent = instant();\n                    no_work", "                    last_sent = instant();\n                    timeout = instant();\n                    no_work")]),
    ("c05-s-skip", ["C05"], [(SN, "        if elapsed > config.request_timeout {", "        if elapsed > config.request_timeout && no_work.0 > 2 {")]),
    ("c05-query", ["C05"], [(CN, "    let timeout = instant();\n    let buffer_size", "    let mut timeout = instant();\n    let buffer_size"), (CN, "                retry_timeout = min(", "                timeout = instant();\n                retry_timeout = min(")]),
    ("c05-query-skip", ["C05"], [(CN, "        if elapsed > request_timeout {", "        if elapsed > request_timeout && retry_timeout > request_timeout {")]),
    # --- C06
    ("c06-block", ["C06"], [(RC, "                    handle_file_size(&socket, endpoint, total + w, config.max_file_size)?;", "                    handle_file_size(&socket, endpoint, w, config.max_file_size)?;")]),
    ("c06-before", ["C06"], [(RC, "                    handle_file_size(&socket, endpoint, total + w, config.max_file_size)?;", "                    handle_file_size(&socket, endpoint, total, config.max_file_size)?;")]),
    ("c06-late", ["C06"], [(RC, "                if let Some(w) = written {\n                    handle_file_size(&socket, endpoint, total + w, config.max_file_size)?;\n                }\n", ""), (RC, "                    timeout = instant();\n                    total += w;", "                    timeout = instant();\n                    total += w;\n                    handle_file_size(&socket, endpoint, total, config.max_file_size)?;")]),
    ("c06-count", ["C06"], [(RC, "                    timeout = instant();\n                    total += w;\n", "                    timeout = instant();\n                    if options.window_size > 1 || w > 512 {\n                        total += w;\n                    }\n")]),
    ("c06-double", ["C06"], [(RC, "    if data_length > max_file_size as usize {", "    if data_length / 2 > max_file_size as usize {")]),
    ("c06-first", ["C06"], [(RC, "            handle_file_size(&socket, endpoint, p.data.len(), config.max_file_size)?;\n", "")]),
    ("c06-announced", ["C06"], [(RC, "    if let Some(file_size) = options.file_size {", "    if let Some(file_size) = options.file_size.filter(|_| acknowledge && options.window_size > 1) {")]),
    # --- C07
    ("c07-dup", ["C07"], [(RC, """            debug!(
                "Received block that was written before. Ignoring block {}",
                block
            );
            Ok((None, e.current_index, e.current))""", "            Ok((None, e.current_index, block))")]),
    ("c07-gap", ["C07"], [(RC, """                block, e.current
            );
            Ok((None, e.current_index, e.current))""", """                block, e.current
            );
            Ok((None, e.current_index, block))""")]),
    ("c07-number", ["C07"], [(RC, "                    let packet = Packet::Ack(AckPacket { block });\n                    let size", "                    let packet = Packet::Ack(AckPacket { block: index as u16 });\n                    let size")]),
    ("c07-oack", ["C07"], [(CN, "                    received_length: None,\n                    acknowledge: false,", "                    received_length: None,\n                    acknowledge: options.window_size > 1,")]),
    ("c07-data", ["C07"], [(RC, "                write_block(&mut block_writer, p.block, p.data)", "                write_block(&mut block_writer, p.block, &p.data[..p.data.len().min(options.block_size as usize)])")]),
    # --- C08
    ("c08-block", ["C08"], [(SN, "            prepend_data_header(data_block.block, &mut send_buffer);", "            prepend_data_header(block_index as u16, &mut send_buffer);")]),
    ("c08-size", ["C08"], [(SN, "            send_buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + data_block.size);", "            send_buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + options.block_size as usize);")]),
    ("c08-size-retry", ["C08"], [(SN, "            send_buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + data_block.size);", "            if !data_block.retry {\n                send_buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + data_block.size);\n            }")]),
    # --- C09
    ("c09-short", ["C09"], [(RC, ACKCOND, ACKCOND.replace("\n                    || written.unwrap_or(0) < options.block_size_with_encryption() as usize", "\n                    || written.is_some_and(|w| w > 0 && w < options.block_size_with_encryption() as usize)"))]),
    ("c09-dup", ["C09"], [(RC, ACKCOND, ACKCOND.replace("written.unwrap_or(0) <", "written.unwrap_or(options.block_size_with_encryption() as usize) <"))]),
    ("c09-window", ["C09"], [(RC, ACKCOND, ACKCOND.replace("last_block_ack + options.window_size as u64 == index", "last_block_ack + options.window_size as u64 + 1 == index"))]),
    ("c09-last", ["C09"], [(RC, "                    last_block_ack = index;\n                }\n                if let", "                }\n                last_block_ack = index;\n                if let")]),
    ("c09-w2", ["C09"], [(RC, ACKCOND, ACKCOND.replace("options.window_size <= 1", "options.window_size == 0"))]),
    # --- quiet
    ("q-c-source-eq", [], [(RC, "                if s != endpoint {\n                    continue;\n                }\n                n\n", "                if s == endpoint {\n                    n\n                } else {\n                    debug!(\"Packet from {} ignored\", s);\n                    continue;\n                }\n")]),
    ("q-c-source-helper", [], [(SN, "                if s != endpoint {", "                if !is_server(&s, &endpoint) {"), (SN, "fn block_reader<", "fn is_server(s: &core::net::SocketAddr, endpoint: &core::net::SocketAddr) -> bool {\n    s.ip() == endpoint.ip() && s == endpoint\n}\n\nfn block_reader<")]),
    ("q-c-source-guard", [], [(RC, "            Ok((n, s)) => {\n                if s != endpoint {\n                    continue;\n                }\n                n\n            }\n", "            Ok((_, s)) if s != endpoint => continue,\n            Ok((n, _)) => n,\n")]),
    ("q-c-expired", [], [(RC, TIME_R, """        if is_expired(&timeout, &config) {
            return Err(PacketError::Timeout(timeout.elapsed()).into());
        }
"""), (RC, "fn handle_file_size(", "fn is_expired(since: &crate::std_compat::time::Instant, config: &ClientConfig) -> bool {\n    since.elapsed() > config.request_timeout\n}\n\nfn handle_file_size(")]),
    ("q-c-expired-order", [], [(RC, TIME_R, TIME_R.replace("if elapsed > config.request_timeout", "if config.request_timeout < elapsed"))]),
    ("q-c-new-total", [], [(RC, SIZE_R, """                let new_total = total + written.unwrap_or(0);
                handle_file_size(&socket, endpoint, new_total, config.max_file_size)?;
                if options.window_size <= 1"""), (RC, "                    timeout = instant();\n                    total += w;\n", "                    timeout = instant();\n                    total = new_total;\n")]),
    ("q-c-total-first", [], [(RC, SIZE_R, """                if let Some(w) = written {
                    total += w;
                    handle_file_size(&socket, endpoint, total, config.max_file_size)?;
                }
                if options.window_size <= 1"""), (RC, "                    timeout = instant();\n                    total += w;\n", "                    timeout = instant();\n")]),
    ("q-c-ack-helper", [], [(RC, """                    let packet = Packet::Ack(AckPacket { block });
                    let size = packet.to_buffer(&mut send_buffer).expect("valid buffer");
                    send_buffer.truncate(size);
                    socket.send_to(&mut send_buffer, endpoint)?;
""", "                    send_ack(&socket, block, endpoint)?;\n"), (RC, "    let mut send_buffer = create_max_buffer(options.block_size);\n", ""), (RC, "fn handle_file_size(", "fn send_ack(socket: &impl Socket, block: u16, endpoint: SocketAddr) -> BoxedResult<()> {\n    let packet = Packet::Ack(AckPacket { block });\n    socket.send_to(&mut packet.to_bytes(), endpoint)?;\n    Ok(())\n}\n\nfn handle_file_size(")]),
    ("q-c-should-ack", [], [(RC, ACKCOND, """                let is_last = written.unwrap_or(0) < options.block_size_with_encryption() as usize;
                let window_end = index == last_block_ack + options.window_size as u64;
                let should_ack = is_last || window_end || options.window_size < 2;
                if should_ack {
                    debug!("Ack send {}", block);""")]),
    ("q-c-finished-flag", [], [(RC, "                if let Some(w) = written {\n                    timeout = instant();\n                    total += w;\n\n                    if w < options.block_size_with_encryption() as usize {", "                let finished = matches!(written, Some(w) if w < options.block_size_with_encryption() as usize);\n                if let Some(w) = written {\n                    timeout = instant();\n                    total += w;\n\n                    if finished {")]),
    ("q-c-one-parse", [], [(RC, """        if !matches!(
            PacketType::from_bytes(&receive_buffer),
            Ok(PacketType::Data | PacketType::Error)
        ) {
            debug!("Incorrect packet received {:x?}", &receive_buffer);
            continue;
        }

""", "")]),
    ("q-c-if-let", [], [(SN, """            Ok(Packet::Error(p)) => {
                return Err(PacketError::RemoteError(p.message).into());
            }
            _ => {
                debug!("Incorrect packet received {:x?}", data);
                continue;
            }
        };
    }""", """            Ok(Packet::Error(p)) => {
                return Err(PacketError::RemoteError(p.message).into());
            }
            _ => debug!("Incorrect packet received {:x?}", data),
        }
    }""")]),
    ("q-c-refresh-order", [], [(SN, "                timeout = instant();\n                let data_length = block_reader.free_block(p.block);", "                let data_length = block_reader.free_block(p.block);\n                timeout = instant();")]),
    ("q-c-remaining", [], [(CN, "        if elapsed > request_timeout {\n            return Err(PacketError::Timeout(elapsed).into());\n        }\n        resize", "        if request_timeout < elapsed {\n            return Err(PacketError::Timeout(elapsed).into());\n        }\n        resize")]),
    ("q-c-query-source", [], [(CN, "                if s.ip() == endpoint.ip() {\n                    return Ok((n, s));\n                }\n                continue;", "                if endpoint.ip() != s.ip() {\n                    continue;\n                }\n                return Ok((n, s));")]),
    ("q-c-query-port", [], [(CN, """        if config.endpoint != endpoint {
            if !config.allow_server_port_change {
                error!("Server is using a new port, however configuration does not allow it. Pass allow-server-port-change");
                return Err(PacketError::Invalid.into());
            } else {
                debug!("Using new endpoint {}", endpoint);
            }
        }
""", """        if config.endpoint != endpoint && !config.allow_server_port_change {
            error!("Server is using a new port, however configuration does not allow it. Pass allow-server-port-change");
            return Err(PacketError::Invalid.into());
        }
""")]),
    ("q-c-retry", [], [(CN, """                if matches!(p.code, ErrorCode::IllegalOperation | ErrorCode::Undefined)
                    && initial
                    && options.encryption_level == EncryptionLevel::None
                {""", """                let unsupported = match p.code {
                    ErrorCode::IllegalOperation | ErrorCode::Undefined => true,
                    _ => false,
                };
                if initial && unsupported && options.encryption_level == EncryptionLevel::None {""")]),
    ("q-c-data-send", [], [(SN, "            prepend_data_header(data_block.block, &mut send_buffer);\n            send_buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + data_block.size);\n", "            let length = DATA_PACKET_HEADER_SIZE as usize + last_read_length;\n            send_buffer.truncate(length);\n            prepend_data_header(data_block.block, &mut send_buffer);\n")]),
    ("q-c-write-inline", [], [(RC, """    match block_writer.write_block(block, data) {
        Ok((written, index)) => Ok((Some(written), index, block)),
        Err(StorageError::ExpectedBlock(e)) => {""", """    let result = block_writer.write_block(block, data);
    let (written, index) = match result {
        Ok(r) => r,
        Err(e) => return repeated(block, e),
    };
    Ok((Some(written), index, block))
}

fn repeated(block: u16, e: StorageError) -> BoxedResult<(Option<usize>, u64, u16)> {
    match e {
        StorageError::ExpectedBlock(e) => {"""), (RC, "        Err(StorageError::AlreadyWritten(e)) => {", "        StorageError::AlreadyWritten(e) => {"), (RC, "        Err(e) => Err(e.into()),\n    }\n}\n\nfn handle", "        e => Err(e.into()),\n    }\n}\n\nfn handle")]),
]
