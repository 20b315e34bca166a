"""Second thoughts on the properties with the fewest edits."""
IO = "std-binary/src/io.rs"
VAL = "src/server/validation.rs"
WR = "src/server/helpers/write.rs"
RD = "src/server/helpers/read.rs"
SC = "src/server/connection.rs"
SX = "src/server/extensions.rs"
CX = "src/client/extensions.rs"
CC = "src/client/connection.rs"
EN = "src/encryption.rs"
CB = "src/server/connection_builder.rs"

MUTANTS = [
    ("f02-skip-parent", ["F02"], [(IO, "        .skip(1)\n", "        .skip(2)\n")]),
    ("f02-mkdir-first", ["F02"], [(IO, """    let root = canonicalize(&dir).map_err(from_io_err)?;
""", """    if let Some(parent) = path.parent() {
        if !parent.is_dir() {
            create_dir_all(parent).map_err(from_io_err)?
        }
    }
    let root = canonicalize(&dir).map_err(from_io_err)?;
""")]),
    ("f02-dangling-new-only", ["F02"], [(IO, "    if path.is_symlink() && !path.exists() {", "    if !config.allow_overwrite && path.is_symlink() && !path.exists() {")]),
    ("f02-root-of-path", ["F02"], [(IO, "    let root = canonicalize(&dir).map_err(from_io_err)?;", "    let root = canonicalize(dir.parent().filter(|p| p.exists()).unwrap_or(&dir)).map_err(from_io_err)?;")]),
    ("f01-parent-of-dir", ["F01"], [(IO, "    let real_dir = canonicalize(dir);\n\n    let (real_path, list_dir)", "    let real_dir = canonicalize(match dir.parent() {\n        Some(p) if dir.is_symlink() => p.to_path_buf(),\n        _ => dir.clone(),\n    });\n\n    let (real_path, list_dir)")]),
    ("f01-reopen-requested", ["F01"], [(IO, "                create_reader(&file_path).map(|(s, f)| (s, ReaderCreator::from_file(f)))", "                create_reader(&file_path)\n                    .or_else(|_| create_reader(requested_path))\n                    .map(|(s, f)| (s, ReaderCreator::from_file(f)))")]),
    ("f03-new-if-file", ["F03"], [(IO, "        options.write(true).create_new(true);", "        options.write(true).create(true).create_new(path.is_file());")]),
    ("f03-second-open", ["F03"], [(IO, "            if config.allow_overwrite {\n                drop(file);", "            if config.allow_overwrite || p.metadata().map(|m| m.len() > 0).unwrap_or(true) {\n                drop(file);")]),
    ("f03-empty-ok", ["F03"], [(IO, "    let file = if config.allow_overwrite {", "    let file = if config.allow_overwrite || path.metadata().map(|m| m.len() == 0).unwrap_or(false) {")]),
    ("f04-list", ["F04"], [(IO, "    validate_path(requested_path, config.max_directory_depth as usize)?;\n\n    let dir: PathBuf = config.directory.as_str().parse()?;\n\n    let path", "    if config.directory_list.is_none() {\n        validate_path(requested_path, config.max_directory_depth as usize)?;\n    }\n    let dir: PathBuf = config.directory.as_str().parse()?;\n\n    let path")]),
    ("f04-plus-one", ["F04"], [(IO, "    validate_path(requested_path, config.max_directory_depth as usize)?;\n    // TODO", "    validate_path(requested_path, config.max_directory_depth as usize + 1)?;\n    // TODO")]),
    ("f04-late", ["F04"], [(IO, "    validate_path(requested_path, config.max_directory_depth as usize)?;\n    // TODO alloc in stack PathBuf\n", "    // TODO alloc in stack PathBuf\n"), (IO, "    let file = if config.allow_overwrite {", "    validate_path(requested_path, config.max_directory_depth as usize)?;\n    let file = if config.allow_overwrite {")]),
    ("f04-ignored", ["F04"], [(IO, "    validate_path(requested_path, config.max_directory_depth as usize)?;\n    // TODO", "    if let Err(e) = validate_path(requested_path, config.max_directory_depth as usize) {\n        error!(\"{e}\");\n        if !config.allow_overwrite {\n            return Err(e.into());\n        }\n    }\n    // TODO")]),
    ("f05-trim-late", ["F05"], [(VAL, "        .filter(|c| !matches!(c.trim(), \".\" | \"..\" | \"/\" | \"\"))", "        .filter(|c| !matches!(*c, \".\" | \"..\" | \"/\" | \"\"))\n        .map(|c| c.trim())")]),
    ("f05-escape", ["F05"], [(VAL, "        .fold(FilePath::new(), |mut f, c| {\n            if !f.as_str().is_empty() {", "        .map(|c| c.trim_start_matches('~'))\n        .fold(FilePath::new(), |mut f, c| {\n            if !f.as_str().is_empty() {")]),
    ("f05-first-last", ["F05"], [(VAL, "        .split('/')\n        .filter", "        .split('/')\n        .take(64)\n        .filter"), (VAL, "    #[allow(clippy::redundant_as_str)]\n    if result.as_str().is_empty() {", "    if file_path.as_str().matches('/').count() > 64 {\n        return Ok(file_path.clone());\n    }\n    #[allow(clippy::redundant_as_str)]\n    if result.as_str().is_empty() {")]),
    ("w01-size-mismatch", ["W01"], [(WR, "            (None, e.current_index)\n        }\n        Err(StorageError::AlreadyWritten(e)) => {\n            debug!(\"Received block that was written before {}\", block);\n            block = e.current;", "            (None, e.current_index)\n        }\n        Err(StorageError::AlreadyWritten(e)) => {\n            debug!(\"Received block that was written before {}\", block);\n            if e.current_index > 0 {\n                block = block.max(e.current);\n            }")]),
    ("w01-full-error", ["W01"], [(WR, "        Err(e) => {\n            error!(\"Failed to write block {} {}\", block, e);", "        Err(StorageError::InvalidBuffer { .. }) => (None, 0),\n        Err(e) => {\n            error!(\"Failed to write block {} {}\", block, e);")]),
    ("w04-announced", ["W04"], [(WR, "                if w < connection.options.block_size_with_encryption() as usize {", "                if w < connection.options.block_size_with_encryption() as usize\n                    || Some(connection.transfer as u64) == connection.options.file_size\n                {")]),
    ("w04-announced-more", ["W04"], [(WR, "                if w < connection.options.block_size_with_encryption() as usize {", "                if w < connection.options.block_size_with_encryption() as usize\n                    && connection.options.file_size.unwrap_or(0) <= connection.transfer as u64\n                {")]),
    ("w04-min-window", ["W04"], [(WR, "                if w < connection.options.block_size_with_encryption() as usize {", "                if w + (connection.options.window_size > 1) as usize\n                    <= connection.options.block_size_with_encryption() as usize - (connection.options.window_size <= 1) as usize\n                {")]),
    ("w05-limit-finished", ["W05"], [(WR, "                    connection.send_packet(Packet::Error(e), send_buffer);\n                    connection.invalid", "                    connection.send_packet(Packet::Error(e), send_buffer);\n                    connection.finished = true;\n                    connection.invalid")]),
    ("w05-revive", ["W05"], [(WR, "    if connection.invalid.is_some() {\n        return None;\n    }", "    if connection.invalid.is_some() && connection.invalid.take().is_some_and(|i| i.elapsed() < connection.options.retry_packet_after_timeout) {\n        return None;\n    }")]),
    ("w05-wrapped", ["W05"], [(WR, "            connection.send_packet(Packet::Error(e), send_buffer);\n            connection.invalid = instant().into();\n            return None;\n        }\n    }", "            if connection.send_packet(Packet::Error(e), send_buffer) {\n                connection.invalid = instant().into();\n            }\n            return None;\n        }\n    }")]),
    ("r02-min-size", ["R02"], [(RD, "    buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + packet_block.size);", "    buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + packet_block.size.max(1));")]),
    ("r02-again-header", ["R02"], [(RD, "    prepend_data_header(packet_block.block, buffer);", "    if !retry {\n        prepend_data_header(packet_block.block, buffer);\n    }")]),
    ("r02-after", ["R02"], [(RD, "    let sent = connection.send_bytes(PacketType::Data, buffer);\n    if sent {", "    let mut sent = connection.send_bytes(PacketType::Data, buffer);\n    if !sent {\n        sent = connection.send_bytes(PacketType::Data, buffer);\n    }\n    if sent {")]),
    ("r03-busy", ["R03"], [(RD, "        Err(e) => {\n            error!(\"Failed to read {} from {}\", e, connection.endpoint);\n", "        Err(StorageError::File(ref f)) if connection.transfer == 0 => {\n            error!(\"Failed to read {f:?}\");\n            return false;\n        }\n        Err(e) => {\n            error!(\"Failed to read {} from {}\", e, connection.endpoint);\n")]),
    ("r03-peer-code", ["R03"], [(RD, "        Ok(Packet::Error(p)) => {\n            error!(\"Error received {:?} {}\", p.code, p.message);\n            connection.invalid = instant().into();\n", "        Ok(Packet::Error(p)) => {\n            error!(\"Error received {:?} {}\", p.code, p.message);\n            if p.code != ErrorCode::Undefined {\n                connection.invalid = instant().into();\n            }\n")]),
    ("s04-again", ["S04"], [(WR, "            if let Some(w) = written {\n                connection.last_updated = instant();", "            if written.is_some() || connection.last_acknowledged == index {\n                connection.last_updated = instant();\n            }\n            if let Some(w) = written {")]),
    ("s04-resent", ["S04"], [(RD, "    if sent {\n        connection.last_sent = instant();", "    if sent {\n        if retry {\n            connection.last_updated = instant();\n        }\n        connection.last_sent = instant();")]),
    ("e04-reuse", ["E04"], [(EN, "        let nonce = XChaCha20Poly1305::generate_nonce(self.rng.clone());", "        let nonce: Nonce = match buffer.as_slice().rslice_to_array(0_usize) {\n            Some(n) if from_position == 0 => <[u8; 24]>::into(n),\n            _ => XChaCha20Poly1305::generate_nonce(self.rng.clone()),\n        };")]),
    ("e04-aad", ["E04"], [(EN, "        let (_, data) = buffer.split_at_mut(from_position);\n\n        let tag", "        let (_, data) = buffer.split_at_mut(from_position);\n        let end = data.len().saturating_sub(1).max(1).min(data.len());\n        let (data, _) = data.split_at_mut(end);\n\n        let tag")]),
    ("e04-ignored-tag", ["E04"], [(EN, "        extend_from_slice(buffer, &tag, EncryptionError::Tag)?;", "        let _ = extend_from_slice(buffer, &tag, EncryptionError::Tag);")]),
    ("e07-second-check", ["E07"], [(SX, "        if config.require_full_encryption && options.encryption_level != EncryptionLevel::Full {\n            return Err(ExtensionError::ServerRequiredEncryption(\n                EncryptionLevel::Full,\n            ));\n        }\n\n        if client", "        if config.require_full_encryption && options.encryption_level == EncryptionLevel::Data {\n            return Err(ExtensionError::ServerRequiredEncryption(\n                EncryptionLevel::Full,\n            ));\n        }\n\n        if client")]),
    ("e07-optional-protocol", ["E07"], [(SX, "            EncryptionLevel::Data | EncryptionLevel::OptionalData => EncryptionLevel::Data,\n            EncryptionLevel::Protocol | EncryptionLevel::OptionalProtocol => {", "            EncryptionLevel::Data\n            | EncryptionLevel::OptionalData\n            | EncryptionLevel::OptionalProtocol => EncryptionLevel::Data,\n            EncryptionLevel::Protocol => {")]),
    ("e09-session", ["E09"], [(CC, "                if conn.encryption_level != EncryptionLevel::None\n                    && config.private_key.is_some()", "                if conn.encryption_level != EncryptionLevel::None\n                    && config.private_key.is_some()\n                    && remote_session_public_keys.as_ref().is_some_and(|k| k.auth.is_some())")]),
    ("e09-after-first", ["E09"], [(CC, "                if conn.encryption_level != EncryptionLevel::None\n                    && config.private_key.is_some()", "                if conn.encryption_level != EncryptionLevel::None\n                    && endpoint == config.endpoint\n                    && config.private_key.is_some()")]),
    ("e13-window", ["E13"], [(CC, "                if !conn.is_block_size_valid() {", "                if conn.window_size == 1 && !conn.is_block_size_valid() {")]),
    ("n04-no-file", ["N04"], [(CX, "    if let Some(file_size) = options.file_size {\n        let _", "    if let Some(file_size) = options.file_size.filter(|s| *s <= u32::MAX as u64) {\n        let _")]),
    ("n04-window-if-block", ["N04"], [(CX, "    if options.window_size != EXTENSION_WINDOW_SIZE_MIN {", "    if options.window_size > EXTENSION_WINDOW_SIZE_MIN * 2 {")]),
    ("n04-millis", ["N04"], [(CX, "                options.retry_packet_after_timeout.as_secs()\n            ),", "                options.retry_packet_after_timeout.as_secs().min(60)\n            ),")]),
    ("e10-other-error", ["E10"], [(CB, "        if self.config.error_to_authorized_only {\n            return;", "        if self.config.error_to_authorized_only && error_packet.code == ErrorCode::AccessViolation {\n            return;")]),
    ("e01-finished-plain", ["E01"], [(SC, "        if let (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) =\n            (self.options.encryption_level, &self.encryptor)\n        {\n            if EncryptedPacket::encrypt(", "        if let (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor), None) =\n            (self.options.encryption_level, &self.encryptor, &self.invalid)\n        {\n            if EncryptedPacket::encrypt(")]),
    ("e02-small", ["E02"], [(SC, "            if EncryptedPacket::decrypt(encryptor, _buffer).is_err() {", "            if _buffer.len() > DATA_PACKET_HEADER_SIZE as usize && EncryptedPacket::decrypt(encryptor, _buffer).is_err() {")]),
    # no change of behaviour
    ("q-t-f02-new-link", [], [(IO, "    if path.is_symlink() && !path.exists() {\n        return Err(FileError::InvalidFileName.into());\n    }", "    let dangling = path.is_symlink() && !path.exists();\n    if dangling {\n        error!(\"Dangling link {}\", path.display());\n        return Err(FileError::InvalidFileName.into());\n    }")]),
    ("q-t-f05-notrim", [], [(VAL, "            if !f.as_str().is_empty() {\n                f.push('/');\n            }\n            f.push_str(c);\n            f\n", "            let first = f.as_str().is_empty();\n            if !first {\n                f.push('/');\n            }\n            f.push_str(c);\n            f\n")]),
    ("q-t-f04-helper", [], [(IO, "    if component_count.saturating_sub(1) <= max_depth {\n        return Ok(());\n    }\n    Err(FileError::InvalidFileName)", "    let directories = component_count.saturating_sub(1);\n    match directories > max_depth {\n        true => Err(FileError::InvalidFileName),\n        false => Ok(()),\n    }")]),
    ("q-t-e09-match", [], [(CC, """                if conn.encryption_level != EncryptionLevel::None
                    && config.private_key.is_some()
                    && config.remote_public_key.is_some()
                    && config.remote_public_key.as_ref()
                        != remote_session_public_keys
                            .as_ref()
                            .and_then(|k| k.auth.as_ref())
                {
                    return""", """                let received_key = remote_session_public_keys
                    .as_ref()
                    .and_then(|k| k.auth.as_ref());
                let unexpected = match (&config.private_key, &config.remote_public_key) {
                    (Some(_), Some(k)) => received_key != Some(k),
                    _ => false,
                };
                if unexpected && conn.encryption_level != EncryptionLevel::None {
                    return""")]),
    ("q-t-e07-once", [], [(SX, """        if config.require_full_encryption && options.encryption_level != EncryptionLevel::Full {
            return Err(ExtensionError::ServerRequiredEncryption(
                EncryptionLevel::Full,
            ));
        }

        if client""", """        let full = options.encryption_level == EncryptionLevel::Full;
        if !full && config.require_full_encryption {
            return Err(ExtensionError::ServerRequiredEncryption(
                EncryptionLevel::Full,
            ));
        }

        if client""")]),
    ("q-t-n04-option", [], [(CX, """    if let Some(file_size) = options.file_size {
        let _ = used_extensions.insert(
            Extension::TransferSize,
            format_str!(ExtensionValue, "{}", file_size),
        );
    }
""", """    match options.file_size {
        Some(size) => {
            let value = format_str!(ExtensionValue, "{}", size);
            let _ = used_extensions.insert(Extension::TransferSize, value);
        }
        None => (),
    }
""")]),
    ("q-t-e04-named", [], [(EN, """        let (_, data) = buffer.split_at_mut(from_position);

        let tag = self
            .cipher
            .encrypt_in_place_detached(&nonce, &[], data)
            .map_err(|_| EncryptionError::Encrypt)?;
        extend_from_slice(buffer, &tag, EncryptionError::Tag)?;
        extend_from_slice(buffer, &nonce, EncryptionError::Nonce)?;
        Ok(())""", """        let data = &mut buffer[from_position..];
        let Ok(tag) = self.cipher.encrypt_in_place_detached(&nonce, &[], data) else {
            return Err(EncryptionError::Encrypt);
        };
        extend_from_slice(buffer, &tag, EncryptionError::Tag)?;
        extend_from_slice(buffer, &nonce, EncryptionError::Nonce)""")]),
    ("q-t-f02-for", [], [(IO, """    let existing = path
        .ancestors()
        .skip(1)
        .find(|p| p.exists())
        .ok_or(FileError::InvalidFileName)?;
""", """    let mut existing = None;
    for ancestor in path.ancestors().skip(1) {
        if ancestor.exists() {
            existing = Some(ancestor);
            break;
        }
    }
    let existing = existing.ok_or(FileError::InvalidFileName)?;
""")]),
    ("q-t-f02-while", [], [(IO, """    let existing = path
        .ancestors()
        .skip(1)
        .find(|p| p.exists())
        .ok_or(FileError::InvalidFileName)?;
""", """    let mut existing = path.parent().ok_or(FileError::InvalidFileName)?;
    while !existing.exists() {
        existing = existing.parent().ok_or(FileError::InvalidFileName)?;
    }
""")]),
    ("f02-while-link", ["F02"], [(IO, """    let existing = path
        .ancestors()
        .skip(1)
        .find(|p| p.exists())
        .ok_or(FileError::InvalidFileName)?;
""", """    let mut existing = path.parent().ok_or(FileError::InvalidFileName)?;
    while !existing.exists() {
        existing = existing.parent().ok_or(FileError::InvalidFileName)?;
    }
"""), (IO, "path.is_symlink() && !path.exists()", "existing.is_symlink() && !existing.exists()")]),
    ("q-t-f02-skipwhile", [], [(IO, """    let existing = path
        .ancestors()
        .skip(1)
        .find(|p| p.exists())
        .ok_or(FileError::InvalidFileName)?;
""", """    let mut above = path.ancestors().skip(1).skip_while(|p| !p.exists());
    let existing = above.next().ok_or(FileError::InvalidFileName)?;
""")]),
    ("q-t-f02-filter", [], [(IO, """    let existing = path
        .ancestors()
        .skip(1)
        .find(|p| p.exists())
        .ok_or(FileError::InvalidFileName)?;
""", """    let existing = path
        .ancestors()
        .skip(1)
        .filter(|p| p.exists())
        .next()
        .ok_or(FileError::InvalidFileName)?;
""")]),
    ("q-t-f02-loop", [], [(IO, """    let existing = path
        .ancestors()
        .skip(1)
        .find(|p| p.exists())
        .ok_or(FileError::InvalidFileName)?;
""", """    let mut above = path.ancestors();
    above.next();
    let existing = loop {
        match above.next() {
            Some(p) if p.exists() => break p,
            Some(_) => (),
            None => return Err(FileError::InvalidFileName.into()),
        }
    };
""")]),
    ("f02-last", ["F02"], [(IO, """    let existing = path
        .ancestors()
        .skip(1)
        .find(|p| p.exists())
        .ok_or(FileError::InvalidFileName)?;
""", """    let existing = path
        .ancestors()
        .skip(1)
        .filter(|p| p.exists())
        .nth(1)
        .ok_or(FileError::InvalidFileName)?;
""")]),
    ("f02-dir-nearest", ["F02"], [(IO, """    let existing = path
        .ancestors()
        .skip(1)
        .find(|p| p.exists())
        .ok_or(FileError::InvalidFileName)?;
""", """    let existing = dir
        .ancestors()
        .find(|p| p.exists())
        .ok_or(FileError::InvalidFileName)?;
""")]),
    ("f02-not-link", ["F02"], [(IO, """    let existing = path
        .ancestors()
        .skip(1)
        .find(|p| p.exists())
        .ok_or(FileError::InvalidFileName)?;
""", """    let existing = path
        .ancestors()
        .skip(1)
        .find(|p| p.exists() && !p.is_symlink())
        .ok_or(FileError::InvalidFileName)?;
""")]),
    ("f02-while-twice", ["F02"], [(IO, """    let existing = path
        .ancestors()
        .skip(1)
        .find(|p| p.exists())
        .ok_or(FileError::InvalidFileName)?;
""", """    let mut existing = path.parent().ok_or(FileError::InvalidFileName)?;
    while !existing.exists() || existing.is_symlink() {
        existing = existing.parent().ok_or(FileError::InvalidFileName)?;
    }
""")]),
    ("f02-parent-parent", ["F02"], [(IO, """    let existing = path
        .ancestors()
        .skip(1)
        .find(|p| p.exists())
        .ok_or(FileError::InvalidFileName)?;
""", """    let mut existing = path.parent().and_then(|p| p.parent()).ok_or(FileError::InvalidFileName)?;
    while !existing.exists() {
        existing = existing.parent().ok_or(FileError::InvalidFileName)?;
    }
""")]),
]
