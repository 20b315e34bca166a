BR = "std-binary/src/blocking_reader.rs"
KM = "src/key_management.rs"
EI = "std-binary/src/encryption_io.rs"
BC = "std-binary/src/config.rs"
SN = "std-binary/src/sender.rs"
RC = "std-binary/src/receiver.rs"

MUTANTS = [
    ("l-flag-late", ["L01"], [(BR, "                if finished {\n                    return Ok(0);", "                if self.finished.load(Ordering::Acquire) {\n                    return Ok(0);")]),
    ("l-short-anyway", ["L01"], [(BR, "            Ok(n) => {\n                if finished {\n                    return Ok(n);\n                }\n", "            Ok(n) => {\n                if finished || n > 1 {\n                    return Ok(n);\n                }\n")]),
    ("l-not-kept", ["L01"], [(BR, "                self.temp_buf = buffer[..n].to_vec();\n", "")]),
    ("l-kept-part", ["L01"], [(BR, "buffer[..n].to_vec()", "buffer[..n - 1].to_vec()")]),
    ("l-no-sum", ["L01"], [(BR, ".map(|s| temp_len + s)", ".map(|s| s)")]),
    ("l-overwrites", ["L01"], [(BR, "buffer.get_mut(temp_len..)", "buffer.get_mut(0..)")]),
    ("l-not-cleared", ["L01"], [(BR, "            self.temp_buf.clear();\n\n            self.file", "            self.file")]),
    ("l-kept-dropped-when-nothing-new", ["L01"], [(BR, """            self.file
                .read(buffer.get_mut(temp_len..).ok_or(ErrorKind::InvalidData)?)
                .map(|s| temp_len + s)""", """            self.file
                .read(buffer.get_mut(temp_len..).ok_or(ErrorKind::InvalidData)?)
                .map(|s| if s == 0 { 0 } else { temp_len + s })""")]),
    ("q-l-read-match", [], [(BR, """            Ok(n) if expected_size == n => Ok(n),
            Ok(n) => {
                if finished {
                    return Ok(n);
                }

                self.temp_buf = buffer[..n].to_vec();

                trace!("Not enough data: read {n} expected {expected_size}");

                Err(Error::from(ErrorKind::WouldBlock))
            }""", """            Ok(n) => {
                if n == expected_size || finished {
                    return Ok(n);
                }
                self.temp_buf.extend_from_slice(&buffer[..n]);
                Err(Error::from(ErrorKind::WouldBlock))
            }""")]),
    ("q-l-read-fn", [], [(BR, "impl<R: Read> Read for BlockingReader<R> {", """impl<R: Read> BlockingReader<R> {
    fn fill(&mut self, buffer: &mut [u8]) -> Result<usize> {
        if self.temp_buf.is_empty() {
            return self.file.read(buffer);
        }
        let kept = self.temp_buf.len();
        buffer[..kept].copy_from_slice(&self.temp_buf);
        self.temp_buf.clear();
        let rest = buffer.get_mut(kept..).ok_or(ErrorKind::InvalidData)?;
        let n = self.file.read(rest)?;
        Ok(kept + n)
    }
}

impl<R: Read> Read for BlockingReader<R> {"""), (BR, """        let result = if !self.temp_buf.is_empty() {
            let temp_len = self.temp_buf.len();
            for (to_buf, data) in buffer.iter_mut().zip(self.temp_buf.iter()) {
                *to_buf = *data
            }
            self.temp_buf.clear();

            self.file
                .read(buffer.get_mut(temp_len..).ok_or(ErrorKind::InvalidData)?)
                .map(|s| temp_len + s)
        } else {
            self.file.read(buffer)
        };
        match result {""", "        match self.fill(buffer) {")]),
    # known hosts
    ("l-prefix-host", ["L02"], [(KM, "if remote_endpoint == endpoint =>", "if remote_endpoint.starts_with(endpoint) =>")]),
    ("l-contains-host", ["L02"], [(KM, "if remote_endpoint == endpoint =>", "if line.contains(endpoint) && !remote_endpoint.is_empty() =>")]),
    ("l-host-ip-only", ["L02"], [(KM, "if remote_endpoint == endpoint =>", "if remote_endpoint == endpoint || Some(remote_endpoint) == endpoint.split(':').next() =>")]),
    ("q-l-host-if", [], [(KM, """        match line.split_once(' ') {
            Some((remote_endpoint, encoded_key)) if remote_endpoint == endpoint => {
                return Ok(decode_verifying_key(encoded_key.as_bytes())?.into())
            }
            _ => continue,
        }""", """        let Some((remote_endpoint, encoded_key)) = line.split_once(' ') else {
            continue;
        };
        if endpoint != remote_endpoint {
            continue;
        }
        let key = decode_verifying_key(encoded_key.as_bytes())?;
        return Ok(Some(key));""")]),
    # recording
    ("l-always-append", ["L03"], [(EI, "                if let Ok(Some(_)) = get_from_known_hosts(r, endpoint) {\n                    return Ok(());\n                }", "                let _ = get_from_known_hosts(r, endpoint);")]),
    ("l-append-inverted", ["L03"], [(EI, "if let Ok(Some(_)) = get_from_known_hosts(r, endpoint) {", "if let Ok(None) = get_from_known_hosts(r, endpoint) {")]),
    ("l-truncate", ["L03"], [(EI, ".append(true)", ".write(true)\n                .truncate(true)")]),
    ("l-write-not-append", ["L03"], [(EI, ".append(true)", ".write(true)")]),
    ("l-other-host-asked", ["L03"], [(EI, "get_from_known_hosts(r, endpoint)", "get_from_known_hosts(r, f)")]),
    ("l-other-host-written", ["L03"], [(EI, "append_to_known_hosts(file, endpoint, &k)", "append_to_known_hosts(file, endpoint.split(':').next().unwrap_or(endpoint), &k)")]),
    ("l-remote-path-as-host", ["L03"], [(SN, "handle_hosts_file(known_hosts_file.as_deref(), _remote_key, &endpoint);", "handle_hosts_file(known_hosts_file.as_deref(), _remote_key, known_hosts_file.as_deref().unwrap_or(&endpoint));")]),
    ("q-l-known-let", [], [(EI, """            if let Ok(r) = create_buff_reader(f) {
                if let Ok(Some(_)) = get_from_known_hosts(r, endpoint) {
                    return Ok(());
                }
            };
""", """            let known = match create_buff_reader(f) {
                Ok(r) => matches!(get_from_known_hosts(r, endpoint), Ok(Some(_))),
                Err(_) => false,
            };
            if known {
                return Ok(());
            }
""")]),
    ("q-l-hosts-if-let", [], [(EI, """    match known_hosts_file
        .zip(remote_key)
        .map(|(f, k)| {
            if let""", """    let record = |f: &str, k: VerifyingKey| -> BoxedResult<()> {
            if let"""), (EI, """            append_to_known_hosts(file, endpoint, &k)
        })
        .transpose()
    {
        Ok(_) => (),
        Err(e) => warn!("Failed to append to known hosts {}", e),
    };""", """            append_to_known_hosts(file, endpoint, &k)
        };
    if let (Some(f), Some(k)) = (known_hosts_file, remote_key) {
        if let Err(e) = record(f, k) {
            warn!("Failed to append to known hosts {}", e);
        }
    }""")]),
    # settings
    ("l-known-error-ignored", ["L04"], [(BC, """                &self.endpoint,
            )
            .map_err(|e| BinError::from(e.to_string()))?,""", """                &self.endpoint,
            )
            .unwrap_or(None),""")]),
    ("l-known-no-file", ["L04"], [(BC, """            (_, Some(p)) => get_from_known_hosts(
                create_buff_reader(p.as_str()).map_err(|e| BinError::from(e.to_string()))?,
                &self.endpoint,
            )
            .map_err(|e| BinError::from(e.to_string()))?,""", """            (_, Some(p)) => match create_buff_reader(p.as_str()) {
                Ok(r) => get_from_known_hosts(r, &self.endpoint)
                    .map_err(|e| BinError::from(e.to_string()))?,
                Err(_) => None,
            },""")]),
    ("l-hosts-over-key", ["L04"], [(BC, """            (Some(p), _) => decode_verifying_key(p.as_bytes())
                .map_err(|e| BinError::from(e.to_string()))?
                .into(),
            (_, Some(p)) =>""", """            (Some(p), None) => decode_verifying_key(p.as_bytes())
                .map_err(|e| BinError::from(e.to_string()))?
                .into(),
            (_, Some(p)) =>""")]),
    ("l-auth-default", ["L04"], [(BC, ".unwrap_or(self.authorized_keys.is_some());", ".unwrap_or(self.private_key.is_some());")]),
    ("l-auth-default-false", ["L04"], [(BC, ".unwrap_or(self.authorized_keys.is_some());", ".unwrap_or_default();")]),
    ("l-error-default", ["L04"], [(BC, ".unwrap_or(require_full_encryption),", ".unwrap_or(false),")]),
    ("l-keys-error-ignored", ["L04"], [(BC, """                .map(|p| read_authorized_keys(create_buff_reader(p.as_str())?))
                .transpose()
                .map_err(|e| BinError::from(e.to_string()))?,""", """                .and_then(|p| read_authorized_keys(create_buff_reader(p.as_str()).ok()?).ok()),""")]),
    ("l-encryption-key-ignored", ["L04"], [(BC, """            .transpose()
            .map_err(|e| BinError::from(e.to_string()))?
            .map(|s| s.to_bytes());""", """            .transpose()
            .unwrap_or(None)
            .map(|s| s.to_bytes());""")]),
    ("l-millis", ["L04"], [(BC, "            request_timeout: Duration::from_millis(self.request_timeout),\n            max_connections", "            request_timeout: Duration::from_secs(self.request_timeout),\n            max_connections")]),
    ("l-swap-sizes", ["L04"], [(BC, "max_window_size: self.max_window_size as u16,", "max_window_size: self.max_block_size as u16,")]),
    ("l-narrow-sizes", ["L04"], [(BC, "max_block_size: self.max_block_size as u16,", "max_block_size: self.max_block_size as u8 as u16,")]),
    ("l-port-change", ["L04"], [(BC, "allow_server_port_change: self.allow_server_port_change,", "allow_server_port_change: self.allow_server_port_change || self.max_file_size > 0,")]),
    ("q-l-config-match", [], [(BC, """            .require_full_encryption
            .unwrap_or(self.authorized_keys.is_some());""", """            .require_full_encryption
            .unwrap_or_else(|| self.authorized_keys.is_some());"""), (BC, """            error_to_authorized_only: self
                .error_to_authorized_only
                .unwrap_or(require_full_encryption),""", """            error_to_authorized_only: match self.error_to_authorized_only {
                Some(v) => v,
                None => require_full_encryption,
            },""")]),
    ("q-l-config-if", [], [(BC, """        let remote_public_key = match (&self.server_public_key, &self.known_hosts) {
            (Some(p), _) => decode_verifying_key(p.as_bytes())
                .map_err(|e| BinError::from(e.to_string()))?
                .into(),
            (_, Some(p)) => get_from_known_hosts(
                create_buff_reader(p.as_str()).map_err(|e| BinError::from(e.to_string()))?,
                &self.endpoint,
            )
            .map_err(|e| BinError::from(e.to_string()))?,
            _ => None,
        };""", """        let remote_public_key = if let Some(p) = &self.server_public_key {
            let key = decode_verifying_key(p.as_bytes()).map_err(|e| BinError::from(e.to_string()))?;
            Some(key)
        } else if let Some(p) = &self.known_hosts {
            let reader = create_buff_reader(p.as_str()).map_err(|e| BinError::from(e.to_string()))?;
            get_from_known_hosts(reader, &self.endpoint).map_err(|e| BinError::from(e.to_string()))?
        } else {
            None
        };""")]),
    # the file key
    ("l-plain-send", ["L05"], [(SN, "create_encryption_reader(key, OsRng, create_reader),", "{ let _ = key; create_reader },")]),
    ("l-plain-when-hosts", ["L05"], [(SN, "        Some(key) => send_file(", "        Some(key) if known_hosts_file.is_none() => send_file(")]),
    ("l-other-file-key", ["L05"], [(RC, "create_encryption_writer(key, create_writer),", "create_encryption_writer([key[0]; 32], create_writer),")]),
    ("q-l-transfer-let", [], [(SN, """        Some(key) => send_file(
            client_config,
            local_path,
            remote_path,
            options,
            create_encryption_reader(key, OsRng, create_reader),""", """        Some(file_key) => send_file(
            client_config,
            local_path,
            remote_path,
            options,
            {
                let rng = OsRng;
                create_encryption_reader(file_key, rng, create_reader)
            },""")]),
]
