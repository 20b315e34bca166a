RD = "src/server/helpers/read.rs"
RM = "src/readers/mod.rs"
SR = "src/readers/single_block_reader.rs"
MR = "src/readers/multiple_block_reader.rs"
KR = "src/readers/multiple_block_seek_reader.rs"
CB = "src/server/connection_builder.rs"
MUTANTS = [
    # --- R01
    ("r01-finish-freed", ["R01"], [(RD, "            if block_reader.is_finished() {", "            if block_reader.is_finished() || bytes_freed > 0 && bytes_freed < connection.options.block_size as usize {")]),
    ("r01-finish-before-free", ["R01"], [(RD, "            let bytes_freed = block_reader.free_block(p.block);", "            let done = block_reader.is_finished();\n            let bytes_freed = block_reader.free_block(p.block);"), (RD, "if block_reader.is_finished() {", "if done {")]),
    ("r01-wrong-number", ["R01"], [(RD, "free_block(p.block)", "free_block(p.block.max(1))")]),
    ("r01-never-asked", ["R01"], [(RD, "            if block_reader.is_finished() {", "            if bytes_freed > 0 && block_reader.is_finished() {")]),
    ("r01-not-recorded", ["R01"], [(RD, "                connection.finished = true;\n", "                connection.finished = connection.invalid.is_some();\n")]),
    # --- R02
    ("r02-index", ["R02"], [(RD, "prepend_data_header(packet_block.block, buffer);", "prepend_data_header(packet_block.index as u16, buffer);")]),
    ("r02-length", ["R02"], [(RD, "    buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + packet_block.size);\n", "    if packet_block.size > 0 {\n        buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + packet_block.size);\n    }\n")]),
    ("r02-block-size", ["R02"], [(RD, "DATA_PACKET_HEADER_SIZE as usize + packet_block.size)", "DATA_PACKET_HEADER_SIZE as usize + packet_block.size.max(1))")]),
    # --- R03
    ("r03-keep-session", ["R03"], [(RD, "            connection.send_packet(Packet::Error(error_packet), buffer);\n            connection.invalid = instant().into();\n", "            connection.send_packet(Packet::Error(error_packet), buffer);\n            if !retry {\n                connection.invalid = instant().into();\n            }\n")]),
    ("r03-silent", ["R03"], [(RD, "            connection.send_packet(Packet::Error(error_packet), buffer);\n", "            if !retry {\n                connection.send_packet(Packet::Error(error_packet), buffer);\n            }\n")]),
    ("r03-peer-error", ["R03"], [(RD, "            connection.invalid = instant().into();\n            return None;\n        }\n        _ =>", "            if connection.transfer == 0 {\n                connection.invalid = instant().into();\n            }\n            return None;\n        }\n        _ =>")]),
    ("r03-live", ["R03"], [(RD, "    if connection.invalid.is_some() {\n        return None;\n    }\n", "")]),
    # --- R04
    ("r04-single-read", ["R04"], [(RM, "            Ok(n) => total += n,", "            Ok(n) => {\n                total += n;\n                break;\n            }")]),
    ("r04-small-read", ["R04"], [(RM, "            Ok(n) => total += n,", "            Ok(n) if n < 16 => {\n                total += n;\n                break;\n            }\n            Ok(n) => total += n,")]),
    ("r04-offset", ["R04"], [(RM, "reader.read(&mut buffer[total..])", "reader.read(&mut buffer[..])")]),
    ("r04-interrupted", ["R04"], [(RM, "e.kind() == ErrorKind::Unsupported", "e.kind() != ErrorKind::Unsupported")]),
    ("r04-one-less", ["R04"], [(RM, "while total < buffer.len() {", "while total + 1 < buffer.len() {")]),
    ("r04-end-single", ["R04"], [(SR, "        if read < self.block_size as usize {", "        if read == 0 {")]),
    ("r04-end-le", ["R04"], [(MR, "        if read < self.block_size as usize {", "        if read <= self.block_size as usize {")]),
    ("r04-end-seek", ["R04"], [(KR, "        if read < self.block_size as usize {", "        if read < self.block_size as usize && read > 0 {")]),
    # --- R05
    ("r05-window-gt", ["R05"], [(MR, "                >= self.max_blocks_to_read as usize", "                > self.max_blocks_to_read as usize")]),
    ("r05-seek-gt", ["R05"], [(KR, "block_len >= self.max_blocks_to_read as u64", "block_len > self.max_blocks_to_read as u64")]),
    ("r05-len", ["R05"], [(KR, "let block_len = self.block_read - self.block_read_confirmed;", "let block_len = self.block_read - self.current_block;")]),
    ("r05-single", ["R05"], [(SR, "        if self.last_block_size.is_some() {\n            return Ok(if retry {", "        if self.last_block_size.is_some() && (retry || self.block_read > 1) {\n            return Ok(if retry {")]),
    ("r05-limit", ["R05"], [(CB, "            options.block_size_with_encryption(),\n            options.window_size,\n        ))\n        .into();\n    }\n\n    #[cfg", "            options.block_size_with_encryption(),\n            options.window_size.saturating_mul(2),\n        ))\n        .into();\n    }\n\n    #[cfg")]),
    # --- R06
    ("r06-number", ["R06"], [(MR, "            block: self.block_mapper.block(self.block_read),\n            index,", "            block: self.block_read as u16,\n            index,")]),
    ("r06-again-number", ["R06"], [(KR, "                block: self.block_mapper.block(index),\n                size: read,", "                block: self.block_mapper.block(self.block_read),\n                size: read,")]),
    ("r06-offset", ["R06"], [(KR, "                .seek(SeekFrom::Start(self.current_block * self.block_size as u64))?;", "                .seek(SeekFrom::Start(index * self.block_size as u64))?;")]),
    ("r06-advance", ["R06"], [(KR, "self.last_offset += read as u64;", "self.last_offset += self.block_size as u64;")]),
    ("r06-no-seek", ["R06"], [(KR, "if matches!(self.reader.seek(SeekFrom::Current(0)), Ok(p) if p != self.last_offset) {", "if matches!(self.reader.seek(SeekFrom::Current(0)), Ok(p) if p > self.last_offset) {")]),
    ("r06-size", ["R06"], [(MR, "            index,\n            size: block_buffer.data.len(),\n            retry: false,", "            index,\n            size: self.block_size as usize,\n            retry: false,")]),
    ("r06-repeat-data", ["R06"], [(SR, "                    size: self.buffer.len(),\n                    retry: true,", "                    size: self.block_size as usize,\n                    retry: true,")]),
    ("r06-skip", ["R06"], [(SR, "        self.block_read += 1;", "        self.block_read += 2;")]),
    # --- quiet
    ("q-r-send-helper", [], [(RD, "    prepend_data_header(packet_block.block, buffer);\n    debug!(\n        \"Send data block {} size {}\",\n        packet_block.block,\n        buffer.len()\n    );\n    buffer.truncate(DATA_PACKET_HEADER_SIZE as usize + packet_block.size);\n    let sent = connection.send_bytes(PacketType::Data, buffer);\n    if sent {\n        connection.last_sent = instant();\n    }\n    sent\n}\n", "    frame(&packet_block, buffer);\n    let sent = connection.send_bytes(PacketType::Data, buffer);\n    if !sent {\n        return false;\n    }\n    connection.last_sent = instant();\n    true\n}\n\nfn frame(b: &crate::readers::block_reader::Block, buffer: &mut DataBuffer) {\n    let length = DATA_PACKET_HEADER_SIZE as usize + b.size;\n    prepend_data_header(b.block, buffer);\n    buffer.truncate(length);\n}\n")]),
    ("q-r-order", [], [(RD, "            connection.send_packet(Packet::Error(error_packet), buffer);\n            connection.invalid = instant().into();\n", "            connection.invalid = instant().into();\n            connection.send_packet(Packet::Error(error_packet), buffer);\n")]),
    ("q-r-fin", [], [(RD, "            if block_reader.is_finished() {\n                info!(\n                    \"Client read {} finished with {} bytes\",\n                    connection.endpoint, connection.transfer\n                );\n                connection.finished = true;\n                return None;\n            }\n", "            let all = block_reader.is_finished();\n            connection.finished = all;\n            if all {\n                return None;\n            }\n")]),
    ("q-r-readloop", [], [(RM, "    let mut total = 0;\n    while total < buffer.len() {\n        match reader.read(&mut buffer[total..]) {\n            Ok(0) => break,\n            Ok(n) => total += n,\n", "    let mut total = 0;\n    loop {\n        if total == buffer.len() {\n            break;\n        }\n        let rest = &mut buffer[total..];\n        match reader.read(rest) {\n            Ok(n) => {\n                if n == 0 {\n                    break;\n                }\n                total = total + n;\n            }\n")]),
    ("q-r-end", [], [(SR, "        if read < self.block_size as usize {\n            self.finished = true;\n        }\n", "        let block_size = self.block_size as usize;\n        if block_size > read {\n            self.finished = true;\n        }\n"), (KR, "        if read < self.block_size as usize {\n            self.finished_block_size = (read as u16).into();\n        }\n", "        let full = read >= self.block_size as usize;\n        if !full {\n            self.finished_block_size = Some(read as u16);\n        }\n")]),
    ("q-r-seek-helper", [], [(KR, "            let read = read_block(\n                &mut self.reader,\n                buffer.get_mut(..self.block_size as usize).ok_or({\n                    StorageError::InvalidBuffer {\n                        actual: buffer_len,\n                        expected: self.block_size as usize,\n                    }\n                })?,\n            )?;\n\n            self.current_block = index;\n", "            let read = self.fill(buffer)?;\n\n            self.current_block = index;\n"), (KR, "impl<R> BlockReader for MultipleBlockSeekReader<R>\n", "impl<R: Read> MultipleBlockSeekReader<R> {\n    fn fill(&mut self, buffer: &mut [u8]) -> Result<usize, StorageError> {\n        let actual = buffer.len();\n        let expected = self.block_size as usize;\n        let part = buffer\n            .get_mut(..expected)\n            .ok_or(StorageError::InvalidBuffer { actual, expected })?;\n        Ok(read_block(&mut self.reader, part)?)\n    }\n}\n\nimpl<R> BlockReader for MultipleBlockSeekReader<R>\n")]),
    ("q-r-window", [], [(KR, "        if self.finished_block_size.is_some() || block_len >= self.max_blocks_to_read as u64 {\n            return Ok(None);\n        }\n", "        if self.finished_block_size.is_some() {\n            return Ok(None);\n        }\n        if self.block_read - self.block_read_confirmed >= u64::from(self.max_blocks_to_read) {\n            return Ok(None);\n        }\n"), (MR, "        if self.finished\n            || self.blocks.iter().filter(|b| b.index.is_some()).count()\n                >= self.max_blocks_to_read as usize\n        {\n            return Ok(None);\n        }\n", "        let unconfirmed = self.blocks.iter().filter(|b| b.index.is_some()).count();\n        let room = unconfirmed < self.max_blocks_to_read as usize;\n        if self.finished || !room {\n            return Ok(None);\n        }\n")]),
    ("q-r-single-match", [], [(SR, "        self.block_read += 1;\n\n        self.last_block_size = (read as u16).into();\n        if read < self.block_size as usize {\n            self.finished = true;\n        }\n        Ok(Block {\n            block: self.block_mapper.block(self.block_read),\n            index: self.block_read,\n            size: self.buffer.len(),\n            retry: false,\n        }\n        .into())\n", "        if read < self.block_size as usize {\n            self.finished = true;\n        }\n        let index = self.block_read + 1;\n        self.block_read = index;\n        self.last_block_size = Some(read as u16);\n        Ok(Some(Block {\n            block: self.block_mapper.block(index),\n            index,\n            size: read,\n            retry: false,\n        }))\n")]),
]
