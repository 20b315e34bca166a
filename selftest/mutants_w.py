WR = "src/server/helpers/write.rs"
SB = "src/writers/single_block_writer.rs"
WM = "src/writers/mod.rs"
CB = "src/server/connection_builder.rs"
ACK = """                if !connection.send_packet(Packet::Ack(AckPacket { block }), send_buffer) {
                    error!("Unable to ack block {}", block);
                } else {
                    connection.last_acknowledged = index;
                }
"""
LIM = """            if let Some(w) = written {
                if let Err(e) = handle_file_size((connection.transfer + w) as u64, max_file_size) {
                    connection.send_packet(Packet::Error(e), send_buffer);
                    connection.invalid = instant().into();
                    return None;
                }
            }
"""
MUTANTS = [
    # --- W01
    ("w01-ack-received-number", ["W01"], [(WR, "            block = e.current;\n            (None, e.current_index)\n        }\n        Err(StorageError::AlreadyWritten", "            (None, e.current_index)\n        }\n        Err(StorageError::AlreadyWritten")]),
    ("w01-ack-any-error", ["W01"], [(WR, "        Err(e) => {\n            error!(\"Failed to write block {} {}\", block, e);", "        Err(StorageError::InvalidBuffer { .. }) => (None, block as u64),\n        Err(e) => {\n            error!(\"Failed to write block {} {}\", block, e);")]),
    ("w01-empty-not-stored", ["W01"], [(WR, "            write_block(block_writer, p.block, p.data)\n", "            if p.data.is_empty() {\n                Ok((Some(0), p.block as u64, p.block))\n            } else {\n                write_block(block_writer, p.block, p.data)\n            }\n")]),
    # --- W02
    ("w02-gap", ["W02"], [(SB, "if provided_index > expected_index {", "if provided_index > expected_index + 1 {")]),
    ("w02-no-advance-empty", ["W02"], [(SB, "        self.block_written = expected_index;\n", "        if !data.is_empty() {\n            self.block_written = expected_index;\n        }\n")]),
    ("w02-advance-first", ["W02"], [(SB, "        write_block(&mut self.writer, data)?;\n        self.block_written = expected_index;\n", "        self.block_written = expected_index;\n        write_block(&mut self.writer, data)?;\n")]),
    ("w02-single-write", ["W02"], [(SB, "        write_block(&mut self.writer, data)?;\n", "        let _ = self.writer.write(data)?;\n")]),
    ("w02-ignore-error", ["W02"], [(SB, "        write_block(&mut self.writer, data)?;\n", "        let _ = write_block(&mut self.writer, data);\n")]),
    ("w02-rest-wrong", ["W02"], [(WM, "            n => data = data.get(n..).unwrap_or_default(),", "            n => data = data.get(n.max(2)..).unwrap_or_default(),")]),
    ("w02-restart", ["W02"], [(WM, "    while !data.is_empty() {\n", "    let whole = data;\n    while !data.is_empty() {\n"), (WM, "n => data = data.get(n..)", "n => data = whole.get(n..)")]),
    ("w02-zero-ok", ["W02"], [(WM, "            0 => return Err(crate::std_compat::io::ErrorKind::WriteZero.into()),", "            0 => return Ok(()),")]),
    ("w02-current-provided", ["W02"], [(SB, "            return Err(StorageError::AlreadyWritten(ExistingBlock {\n                current: self.block_mapper.block(self.block_written),", "            return Err(StorageError::AlreadyWritten(ExistingBlock {\n                current: block,")]),
    # --- W03
    ("w03-no-limit", ["W03"], [(WR, LIM, "            let _ = (max_file_size, handle_file_size(0, 0));\n")]),
    ("w03-limit-current-only", ["W03"], [(WR, "handle_file_size((connection.transfer + w) as u64, max_file_size)", "handle_file_size(connection.transfer as u64, max_file_size)")]),
    ("w03-no-return", ["W03"], [(WR, "                    connection.send_packet(Packet::Error(e), send_buffer);\n                    connection.invalid = instant().into();\n                    return None;\n                }\n            }\n", "                    connection.send_packet(Packet::Error(e), send_buffer);\n                }\n            }\n")]),
    ("w03-count-full-only", ["W03"], [(WR, "                connection.transfer += w;\n", "                if w == connection.options.block_size as usize {\n                    connection.transfer += w;\n                }\n")]),
    ("w03-off", ["W03"], [("src/server/validation.rs", "received_size > max_file_size", "received_size > max_file_size + 1")]),
    # --- W04
    ("w04-le", ["W04"], [(WR, "                if w < connection.options.block_size_with_encryption() as usize {\n                    info!", "                if w <= connection.options.block_size_with_encryption() as usize {\n                    info!")]),
    ("w04-plain-size", ["W04"], [(WR, "                if w < connection.options.block_size_with_encryption() as usize {\n                    info!", "                if w < connection.options.block_size as usize {\n                    info!")]),
    ("w04-not-empty", ["W04"], [(WR, "                if w < connection.options.block_size_with_encryption() as usize {\n                    info!", "                if w > 0 && w < connection.options.block_size_with_encryption() as usize {\n                    info!")]),
    # --- W05
    ("w05-no-invalid", ["W05"], [(WR, "        Err(e) => {\n            connection.send_packet(Packet::Error(e), send_buffer);\n            connection.invalid = instant().into();\n            return None;\n        }", "        Err(e) => {\n            connection.send_packet(Packet::Error(e), send_buffer);\n            return None;\n        }")]),
    ("w05-silent", ["W05"], [(WR, "        Err(e) => {\n            connection.send_packet(Packet::Error(e), send_buffer);\n            connection.invalid = instant().into();\n            return None;\n        }", "        Err(_) => {\n            connection.invalid = instant().into();\n            return None;\n        }")]),
    ("w05-peer-error", ["W05"], [(WR, "            error!(\"Error received {:?} {}\", p.code, p.message);\n            connection.invalid = instant().into();\n", "            error!(\"Error received {:?} {}\", p.code, p.message);\n")]),
    ("w05-accept-after", ["W05"], [(WR, "    if connection.invalid.is_some() {\n        return None;\n    }\n", "")]),
    # --- W06
    ("w06-no-ack-repeat", ["W06"], [(WR, "                || written.unwrap_or(0) < connection.options.block_size_with_encryption() as usize\n", "                || written.map(|w| w < connection.options.block_size_with_encryption() as usize).unwrap_or(false)\n")]),
    ("w06-no-short-ack", ["W06"], [(WR, "                || written.unwrap_or(0) < connection.options.block_size_with_encryption() as usize\n", "                || written.is_none()\n")]),
    ("w06-window-off", ["W06"], [(WR, "connection.last_acknowledged + connection.options.window_size as u64 == index", "connection.last_acknowledged + connection.options.window_size as u64 + 1 == index")]),
    ("w06-window2", ["W06"], [(WR, "connection.options.window_size <= 1", "connection.options.window_size < 1")]),
    ("w06-record-unsent", ["W06"], [(WR, ACK, """                if !connection.send_packet(Packet::Ack(AckPacket { block }), send_buffer) {
                    error!("Unable to ack block {}", block);
                }
                connection.last_acknowledged = index;
""")]),
    # --- behaviour kept
    ("q-w-helper", [], [(WR, ACK, "                acknowledge(connection, block, index, send_buffer);\n"), (WR, "fn write_block<W: BlockWriter>(", """fn acknowledge<B: BoundSocket, Rng: CryptoRng + RngCore + Copy>(
    connection: &mut Connection<B, Rng>,
    block: u16,
    index: u64,
    send_buffer: &mut DataBuffer,
) {
    if connection.send_packet(Packet::Ack(AckPacket { block }), send_buffer) {
        connection.last_acknowledged = index;
    } else {
        error!("Unable to ack block {}", block);
    }
}

fn write_block<W: BlockWriter>(""")]),
    ("q-w-fail-helper", [], [(WR, LIM, """            if let Some(w) = written {
                let total = (connection.transfer + w) as u64;
                if total > max_file_size {
                    return fail(connection, handle_file_size(total, max_file_size).unwrap_err(), send_buffer, instant);
                }
            }
"""), (WR, "            connection.send_packet(Packet::Error(e), send_buffer);\n            connection.invalid = instant().into();\n            return None;\n        }\n    }\n\n    Some(())", "            return fail(connection, e, send_buffer, instant);\n        }\n    }\n\n    Some(())"), (WR, "fn write_block<W: BlockWriter>(", """fn fail<B: BoundSocket, Rng: CryptoRng + RngCore + Copy>(
    connection: &mut Connection<B, Rng>,
    e: ErrorPacket,
    send_buffer: &mut DataBuffer,
    instant: InstantCallback,
) -> Option<()> {
    connection.send_packet(Packet::Error(e), send_buffer);
    connection.invalid = instant().into();
    None
}

fn write_block<W: BlockWriter>(""")]),
    ("q-w-ack-bool", [], [(WR, """            if connection.options.window_size <= 1
                || connection.last_acknowledged + connection.options.window_size as u64 == index
                || written.unwrap_or(0) < connection.options.block_size_with_encryption() as usize
            {""", """            let single = connection.options.window_size < 2;
            let window_complete =
                index == connection.options.window_size as u64 + connection.last_acknowledged;
            let short = match written {
                Some(w) => w < connection.options.block_size_with_encryption() as usize,
                None => 0 < connection.options.block_size_with_encryption() as usize,
            };
            if single || window_complete || short {""")]),
    ("q-w-finish-first", [], [(WR, "                connection.last_updated = instant();\n                connection.transfer += w;\n\n                if w < connection.options.block_size_with_encryption() as usize {", "                connection.transfer = connection.transfer + w;\n                connection.last_updated = instant();\n                let full = connection.options.block_size_with_encryption() as usize;\n                if !(w >= full) {")]),
    ("q-w-struct", [], [(WR, "        Ok(Packet::Data(p)) => {\n            let data_length = p.data.len();\n", "        Ok(Packet::Data(crate::packet::DataPacket { block: number, data: bytes })) => {\n            let p = crate::packet::DataPacket { block: number, data: bytes };\n            let data_length = p.data.len();\n")]),
    ("q-w-errs-merged", [], [(WR, """        Err(StorageError::ExpectedBlock(e)) => {
            debug!(
                "Received unexpected block {} expecting block after {}",
                block, e.current
            );
            block = e.current;
            (None, e.current_index)
        }
        Err(StorageError::AlreadyWritten(e)) => {
            debug!("Received block that was written before {}", block);
            block = e.current;
            (None, e.current_index)
        }
""", """        Err(StorageError::ExpectedBlock(e) | StorageError::AlreadyWritten(e)) => {
            debug!("Received block {} out of order", block);
            block = e.current;
            (None, e.current_index)
        }
""")]),
    ("q-w02-cmp", [], [(SB, """        if provided_index < expected_index {
            return Err(StorageError::AlreadyWritten(ExistingBlock {
                current: self.block_mapper.block(self.block_written),
                current_index: self.block_written,
            }));
        }
        if provided_index > expected_index {
            return Err(StorageError::ExpectedBlock(ExistingBlock {
                current: self.block_mapper.block(self.block_written),
                current_index: self.block_written,
            }));
        }
""", """        if provided_index != expected_index {
            let existing = ExistingBlock {
                current: self.block_mapper.block(self.block_written),
                current_index: self.block_written,
            };
            return Err(match provided_index.cmp(&expected_index) {
                core::cmp::Ordering::Less => StorageError::AlreadyWritten(existing),
                _ => StorageError::ExpectedBlock(existing),
            });
        }
""")]),
    ("q-w02-match-cmp", [], [(SB, """        if provided_index < expected_index {
            return Err(StorageError::AlreadyWritten(ExistingBlock {
                current: self.block_mapper.block(self.block_written),
                current_index: self.block_written,
            }));
        }
        if provided_index > expected_index {
            return Err(StorageError::ExpectedBlock(ExistingBlock {
                current: self.block_mapper.block(self.block_written),
                current_index: self.block_written,
            }));
        }

        trace!("Writing block {expected_index}");

        write_block(&mut self.writer, data)?;
        self.block_written = expected_index;
        Ok((data.len(), self.block_written))
""", """        let last = ExistingBlock {
            current: self.block_mapper.block(self.block_written),
            current_index: self.block_written,
        };
        match provided_index.cmp(&expected_index) {
            core::cmp::Ordering::Less => Err(StorageError::AlreadyWritten(last)),
            core::cmp::Ordering::Greater => Err(StorageError::ExpectedBlock(last)),
            core::cmp::Ordering::Equal => {
                trace!("Writing block {expected_index}");
                write_block(&mut self.writer, data)?;
                self.block_written += 1;
                Ok((data.len(), expected_index))
            }
        }
""")]),
    ("q-w02-loop", [], [(WM, """    while !data.is_empty() {
        match writer.write(data)? {
            0 => return Err(crate::std_compat::io::ErrorKind::WriteZero.into()),
            n => data = data.get(n..).unwrap_or_default(),
        }
    }
    Ok(())
""", """    loop {
        if data.len() == 0 {
            return Ok(());
        }
        let n = writer.write(data)?;
        if n == 0 {
            return Err(crate::std_compat::io::ErrorKind::WriteZero.into());
        }
        data = &data[n..];
    }
""")]),
    ("q-w02-counter", [], [(WM, """    while !data.is_empty() {
        match writer.write(data)? {
            0 => return Err(crate::std_compat::io::ErrorKind::WriteZero.into()),
            n => data = data.get(n..).unwrap_or_default(),
        }
    }
    Ok(())
""", """    let mut written = 0;
    while written < data.len() {
        match writer.write(&data[written..])? {
            0 => return Err(crate::std_compat::io::ErrorKind::WriteZero.into()),
            n => written += n,
        }
    }
    data = &[];
    let _ = data;
    Ok(())
""")]),
]
