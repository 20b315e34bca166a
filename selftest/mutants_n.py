SE = "src/server/extensions.rs"
CE = "src/client/extensions.rs"
CO = "src/client/connection.rs"
HC = "src/server/helpers/connection.rs"
CB = "src/server/connection_builder.rs"

BLOCK = """        if (EXTENSION_BLOCK_SIZE_MIN..=config.max_block_size).contains(&client_block_size) {
            options.block_size = client_block_size;
            let _ = used_extensions.insert(
                Extension::BlockSize,
                format_str!(ExtensionValue, "{}", options.block_size),
            );
        } else if client_block_size > config.max_block_size {
            options.block_size = config.max_block_size;
            let _ = used_extensions.insert(
                Extension::BlockSize,
                format_str!(ExtensionValue, "{}", options.block_size),
            );
        } else {"""
VALID = """    #[allow(unused_must_use)]
    let remaining = new_extensions
        .iter()
        .filter(|(e, _)| !used_extensions.contains_key(e))
        .fold(DefaultString::new(), |mut s, (k, _)| {
            s.push_str(k.as_str());
            s.push(',');
            s
        });
    let names = remaining.as_str().trim_end_matches(',');
    if !names.is_empty() {
        let message = format_str!(
            DefaultString,
            "Server sent options {} not initialized by client",
            names
        );
        return Err(ErrorPacket::new(ErrorCode::IllegalOperation, message));
    }
    Ok(())
"""
ERR = """return Err(ErrorPacket::new(
                ErrorCode::IllegalOperation,
                format_str!(DefaultString, "Server sent option {} not initialized by client", k.as_str()),
            ));"""

MUTANTS = [
    ("n01-min", ["N01"], [(SE, "(EXTENSION_BLOCK_SIZE_MIN..=config.max_block_size).contains(&client_block_size)", "(1..=config.max_block_size).contains(&client_block_size)")]),
    ("n01-nomax", ["N01"], [(SE, "(EXTENSION_BLOCK_SIZE_MIN..=config.max_block_size).contains(&client_block_size)", "client_block_size >= EXTENSION_BLOCK_SIZE_MIN")]),
    ("n01-wmin", ["N01"], [(SE, "(EXTENSION_WINDOW_SIZE_MIN..=max_window_size).contains(&client_window_size)", "(0..=max_window_size).contains(&client_window_size)")]),
    ("n01-wmax", ["N01"], [(SE, "(EXTENSION_WINDOW_SIZE_MIN..=max_window_size).contains(&client_window_size)", "(EXTENSION_WINDOW_SIZE_MIN..=max_window_size.max(8)).contains(&client_window_size)")]),
    ("n01-callermax", ["N01"], [(HC, "builder.with_request(p, config.max_window_size, rng)?;", "builder.with_request(p, config.max_window_size.max(1) * 2, rng)?;")]),
    ("n01-timeout", ["N01"], [(SE, "(EXTENSION_TIMEOUT_SIZE_MIN as u64..=config.request_timeout.as_secs())\n            .contains(&(client_retry_seconds as u64))", "client_retry_seconds >= EXTENSION_TIMEOUT_SIZE_MIN")]),
    ("n01-timeout0", ["N01"], [(SE, "(EXTENSION_TIMEOUT_SIZE_MIN as u64..=config", "(0..=config")]),
    ("n01-else", ["N01"], [(SE, "        } else if client_block_size > config.max_block_size {", "        } else if !size.is_empty() {")]),
    ("n01-ignored", ["N01"], [(SE, "(EXTENSION_WINDOW_SIZE_MIN..=max_window_size).contains(&client_window_size)", "(EXTENSION_WINDOW_SIZE_MIN..max_window_size).contains(&client_window_size)"), (SE, "        } else if client_window_size > max_window_size {", "        } else if client_window_size > max_window_size && max_window_size > 1 {")]),
    ("n01-hex", ["N01"], [(SE, "let client_block_size: u16 = size.parse().unwrap_or(0);", "let client_block_size: u16 = u16::from_str_radix(size.as_str(), 16).unwrap_or(0);")]),
    ("n02-echo", ["N02"], [(SE, "            options.block_size = config.max_block_size;\n            let _ = used_extensions.insert(\n                Extension::BlockSize,\n                format_str!(ExtensionValue, \"{}\", options.block_size),", "            options.block_size = config.max_block_size;\n            let _ = used_extensions.insert(\n                Extension::BlockSize,\n                format_str!(ExtensionValue, \"{}\", client_block_size),")]),
    ("n02-order", ["N02"], [(SE, "            options.window_size = max_window_size;\n            let _ = used_extensions.insert(\n                Extension::WindowSize,\n                format_str!(ExtensionValue, \"{}\", options.window_size),\n            );", "            let _ = used_extensions.insert(\n                Extension::WindowSize,\n                format_str!(ExtensionValue, \"{}\", options.window_size),\n            );\n            options.window_size = max_window_size;")]),
    ("n02-silent", ["N02"], [(SE, "            options.block_size = config.max_block_size;\n            let _ = used_extensions.insert(\n                Extension::BlockSize,\n                format_str!(ExtensionValue, \"{}\", options.block_size),\n            );", "            options.block_size = config.max_block_size;")]),
    ("n02-unused", ["N02"], [(SE, "            warn!(\"Invalid block size received {} skipping\", size);", "            warn!(\"Invalid block size received {} skipping\", size);\n            let _ = used_extensions.insert(Extension::BlockSize, size.clone());")]),
    ("n02-key", ["N02"], [(SE, "            options.retry_packet_after_timeout = Duration::from_secs(client_retry_seconds as u64);\n            let _ = used_extensions.insert(\n                Extension::Timeout,", "            options.retry_packet_after_timeout = Duration::from_secs(client_retry_seconds as u64);\n            let _ = used_extensions.insert(\n                Extension::TransferSize,")]),
    ("n02-ack", ["N02"], [(HC, "            if !used_extensions.is_empty() {\n                if", "            if used_extensions.len() > 1 {\n                if")]),
    ("n02-read", ["N02"], [(HC, "            if !used_extensions.is_empty()\n                && !connection", "            if used_extensions.contains_key(&crate::packet::Extension::BlockSize)\n                && !connection")]),
    ("n02-keep", ["N02"], [(CB, "        self.options = options;\n        self.session_keys", "        self.options.encryption_level = options.encryption_level;\n        self.session_keys")]),
    ("n02-empty", ["N02"], [(CB, "        self.used_extensions = used_extensions;", "        self.used_extensions = if options.file_size.is_some() { used_extensions } else { PacketExtensions::new() };")]),
    ("n03-min", ["N03"], [(CE, "(EXTENSION_BLOCK_SIZE_MIN..=options.block_size).contains(&server_block_size)", "server_block_size <= options.block_size")]),
    ("n03-max", ["N03"], [(CE, "(EXTENSION_BLOCK_SIZE_MIN..=options.block_size).contains(&server_block_size)", "server_block_size >= EXTENSION_BLOCK_SIZE_MIN")]),
    ("n03-wmax", ["N03"], [(CE, "(EXTENSION_WINDOW_SIZE_MIN..=options.window_size).contains(&server_window_size)", "server_window_size >= EXTENSION_WINDOW_SIZE_MIN")]),
    ("n03-default", ["N03"], [(CE, "    } else {\n        options.block_size = DEFAULT_DATA_BLOCK_SIZE;\n    }", "    }")]),
    ("n03-wdefault", ["N03"], [(CE, "    } else {\n        options.window_size = EXTENSION_WINDOW_SIZE_MIN;\n    }", "    }")]),
    ("n03-t0", ["N03"], [(CE, "(EXTENSION_TIMEOUT_SIZE_MIN..=EXTENSION_TIMEOUT_SIZE_MAX).contains", "(0..=EXTENSION_TIMEOUT_SIZE_MAX).contains")]),
    ("n03-keep", ["N03"], [(CE, "            options.window_size = server_window_size;", "            options.window_size = options.window_size.min(server_window_size + 1);")]),
    ("n03-novalid", ["N03"], [(CO, "                if let Err(e) = validate_extensions(&p.extensions, &used_extensions) {", "                if !used_extensions.is_empty() {\n                } else if let Err(e) = validate_extensions(&p.extensions, &used_extensions) {")]),
    ("n03-self", ["N03"], [(CO, "validate_extensions(&p.extensions, &used_extensions)", "validate_extensions(&p.extensions, &p.extensions)")]),
    ("n03-swap", ["N03"], [(CO, "validate_extensions(&p.extensions, &used_extensions)", "validate_extensions(&used_extensions, &p.extensions)")]),
    ("n03-neg", ["N03"], [(CE, "!used_extensions.contains_key(e))", "used_extensions.is_empty() && !used_extensions.contains_key(e))")]),
    ("n03-some", ["N03"], [(CE, VALID, "    if new_extensions.is_empty() || new_extensions.keys().any(|k| used_extensions.contains_key(k)) {\n        return Ok(());\n    }\n    Err(ErrorPacket::new(ErrorCode::IllegalOperation, DefaultString::new()))\n")]),
    ("n03-first", ["N03"], [(CE, "        .iter()\n        .filter(|(e", "        .iter()\n        .take(2)\n        .filter(|(e")]),
    ("n03-plain", ["N03"], [(CO, "    options.window_size = EXTENSION_WINDOW_SIZE_MIN;\n", "")]),
    ("n04-window", ["N04"], [(CE, "    if options.window_size != EXTENSION_WINDOW_SIZE_MIN {", "    if options.window_size > 2 {")]),
    ("n04-value", ["N04"], [(CE, "format_str!(ExtensionValue, \"{}\", options.window_size)", "format_str!(ExtensionValue, \"{}\", options.block_size)")]),
    ("n04-block", ["N04"], [(CE, "    if options.block_size != DEFAULT_DATA_BLOCK_SIZE {", "    if options.block_size > DEFAULT_DATA_BLOCK_SIZE && options.window_size > 1 {")]),
    ("n04-size", ["N04"], [(CE, "    if let Some(file_size) = options.file_size {", "    if let Some(file_size) = options.file_size.filter(|s| *s > 0) {")]),
    ("n04-millis", ["N04"], [(CE, "                options.retry_packet_after_timeout.as_secs()\n            ),", "                options.retry_packet_after_timeout.as_millis()\n            ),")]),
    # --- quiet
    ("q-n-min", [], [(SE, BLOCK, """        if client_block_size > config.max_block_size {
            options.block_size = config.max_block_size;
            let value = format_str!(ExtensionValue, "{}", options.block_size);
            let _ = used_extensions.insert(Extension::BlockSize, value);
        } else if client_block_size >= EXTENSION_BLOCK_SIZE_MIN {
            options.block_size = client_block_size;
            let value = format_str!(ExtensionValue, "{}", client_block_size);
            let _ = used_extensions.insert(Extension::BlockSize, value);
        } else {""")]),
    ("q-n-helper", [], [(SE, BLOCK, """        let agreed = agree(client_block_size, EXTENSION_BLOCK_SIZE_MIN, config.max_block_size);
        if let Some(block_size) = agreed {
            options.block_size = block_size;
            let _ = used_extensions.insert(
                Extension::BlockSize,
                format_str!(ExtensionValue, "{}", block_size),
            );
        } else {"""), (SE, "#[allow(unused_variables)]\npub fn parse_extensions<", """/// value both sides can use
fn agree(asked: u16, min: u16, max: u16) -> Option<u16> {
    if asked > max {
        Some(max)
    } else if asked < min {
        None
    } else {
        Some(asked)
    }
}

#[allow(unused_variables)]
pub fn parse_extensions<""")]),
    ("q-n-match", [], [(SE, "        let client_retry_seconds: u8 = timeout.parse().unwrap_or(0);\n        if (EXTENSION_TIMEOUT_SIZE_MIN as u64..=config.request_timeout.as_secs())\n            .contains(&(client_retry_seconds as u64))\n        {", "        let client_retry_seconds: u8 = timeout.parse().unwrap_or(0);\n        let max_seconds = config.request_timeout.as_secs();\n        if client_retry_seconds >= EXTENSION_TIMEOUT_SIZE_MIN && client_retry_seconds as u64 <= max_seconds {")]),
    ("q-n-insert-helper", [], [(SE, "            options.window_size = client_window_size;\n            let _ = used_extensions.insert(\n                Extension::WindowSize,\n                format_str!(ExtensionValue, \"{}\", options.window_size),\n            );", "            options.window_size = client_window_size;\n            confirm(&mut used_extensions, Extension::WindowSize, client_window_size as u64);"), (SE, "#[allow(unused_variables)]\npub fn parse_extensions<", "fn confirm(extensions: &mut PacketExtensions, extension: Extension, value: u64) {\n    let _ = extensions.insert(extension, format_str!(ExtensionValue, \"{}\", value));\n}\n\n#[allow(unused_variables)]\npub fn parse_extensions<")]),
    ("q-n-filter-map", [], [(SE, "    if let Some(window_size) = client_extensions.get(&Extension::WindowSize) {\n        let client_window_size: u16 = window_size.parse().unwrap_or(0);", "    let window_size = client_extensions.get(&Extension::WindowSize);\n    if let Some(window_size) = window_size {\n        let client_window_size: u16 = match window_size.parse() {\n            Ok(w) => w,\n            Err(_) => 0,\n        };")]),
    ("q-n-accept", [], [(HC, "    match connection_type {\n        ConnectionType::Write => {\n            if !used_extensions.is_empty() {\n                if !connection.send_packet(\n                    Packet::OptionalAck(OptionalAck {\n                        extensions: used_extensions,\n                    }),\n                    buffer,\n                ) {\n                    return None;\n                }\n            } else if !connection.send_packet(Packet::Ack(AckPacket { block: 0 }), buffer) {\n                return None;\n            }", "    match connection_type {\n        ConnectionType::Write => {\n            let reply = if used_extensions.is_empty() {\n                Packet::Ack(AckPacket { block: 0 })\n            } else {\n                Packet::OptionalAck(OptionalAck {\n                    extensions: used_extensions,\n                })\n            };\n            if !connection.send_packet(reply, buffer) {\n                return None;\n            }")]),
    ("q-n-valid-loop", [], [(CE, VALID, "    for (k, _) in new_extensions.iter() {\n        if !used_extensions.contains_key(k) {\n            " + ERR + "\n        }\n    }\n    Ok(())\n")]),
    ("q-n-valid-find", [], [(CE, VALID, "    if let Some(k) = new_extensions.keys().find(|k| !used_extensions.contains_key(*k)) {\n        " + ERR + "\n    }\n    Ok(())\n")]),
    ("q-n-valid-all", [], [(CE, VALID, "    if new_extensions.keys().all(|k| used_extensions.contains_key(k)) {\n        return Ok(());\n    }\n    Err(ErrorPacket::new(ErrorCode::IllegalOperation, format_str!(DefaultString, \"Server sent unknown options\")))\n")]),
    ("q-n-valid-get", [], [(CE, ".filter(|(e, _)| !used_extensions.contains_key(e))", ".filter(|(e, _)| used_extensions.get(*e).is_none())")]),
    ("q-n-client-guard", [], [(CE, "        if (EXTENSION_BLOCK_SIZE_MIN..=options.block_size).contains(&server_block_size) {\n            options.block_size = server_block_size;\n        } else {\n            return Err(ExtensionError::InvalidExtension(Extension::BlockSize));\n        }", "        if server_block_size < EXTENSION_BLOCK_SIZE_MIN || server_block_size > options.block_size {\n            return Err(ExtensionError::InvalidExtension(Extension::BlockSize));\n        }\n        options.block_size = server_block_size;")]),
    ("q-n-client-match", [], [(CE, "    if let Some(window_size) = server_extensions.get(&Extension::WindowSize) {\n        let server_window_size: u16 = window_size.parse().unwrap_or(0);\n        if (EXTENSION_WINDOW_SIZE_MIN..=options.window_size).contains(&server_window_size) {\n            options.window_size = server_window_size;\n        } else {\n            return Err(ExtensionError::InvalidExtension(Extension::WindowSize));\n        }\n    } else {\n        options.window_size = EXTENSION_WINDOW_SIZE_MIN;\n    }", "    options.window_size = match server_extensions.get(&Extension::WindowSize) {\n        None => EXTENSION_WINDOW_SIZE_MIN,\n        Some(window_size) => match window_size.parse::<u16>() {\n            Ok(w) if w >= EXTENSION_WINDOW_SIZE_MIN && w <= options.window_size => w,\n            _ => return Err(ExtensionError::InvalidExtension(Extension::WindowSize)),\n        },\n    };")]),
    ("q-n-struct", [], [(CE, "    Ok((options, None))\n}\n\n#[cfg(test)]", "    let ConnectionOptions {\n        block_size,\n        window_size,\n        ..\n    } = options;\n    Ok((\n        ConnectionOptions {\n            block_size,\n            window_size,\n            ..options\n        },\n        None,\n    ))\n}\n\n#[cfg(test)]")]),
    ("q-n-ask", [], [(CE, "    if options.window_size != EXTENSION_WINDOW_SIZE_MIN {\n        let _ = used_extensions.insert(\n            Extension::WindowSize,\n            format_str!(ExtensionValue, \"{}\", options.window_size),\n        );\n    }", "    let window_size = options.window_size;\n    if window_size != EXTENSION_WINDOW_SIZE_MIN {\n        let value = format_str!(ExtensionValue, \"{}\", window_size as u32);\n        let _ = used_extensions.insert(Extension::WindowSize, value);\n    }")]),
    ("q-n-ask-always", [], [(CE, "    if options.window_size != EXTENSION_WINDOW_SIZE_MIN {", "    if options.window_size > EXTENSION_WINDOW_SIZE_MIN || options.window_size == 0 {")]),
]
