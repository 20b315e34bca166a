PK = "src/packet.rs"
EN = "src/encryption.rs"
BU = "src/buffer.rs"

READ_MSG = """        let message = match message_bytes.iter().position(|&c| c == b'\\0') {
            Some(n) => from_utf8(&message_bytes[..n])?,
            _ => return Err(PacketError::Invalid),
        };
"""
READ_NAME = """        let (rest, name) = match bytes.iter().position(|&c| c == b'\\0') {
            Some(n) => (
                bytes.get(n + 1..).ok_or(PacketError::Invalid)?,
                from_utf8(&bytes[0..n])?,
            ),
            _ => return Err(PacketError::Invalid),
        };
"""
READ_MODE = """        let (rest, octet) = match rest.iter().position(|&c| c == b'\\0') {
            Some(n) => (rest.get(n + 1..), from_utf8(&rest[..n])?),
            _ => return Err(PacketError::Invalid),
        };
"""
OPT_WRITE = """            size = buffer.write_bytes(key.as_str().as_bytes(), size)?;
            size = buffer.write_bytes([0], size)?;
            size = buffer.write_bytes(value.as_bytes(), size)?;
            size = buffer.write_bytes([0], size)?;
"""
ERR_WRITE = """        let mut size = buffer.write_bytes((self.code as u16).to_be_bytes(), 0_usize)?;
        size = buffer.write_bytes(self.message.as_bytes(), size)?;
        size = buffer.write_bytes([0], size)?;
        Some(size)
"""
REQ_WRITE = """        let mut size = buffer.write_bytes(self.file_name.as_bytes(), 0_usize)?;
        size = buffer.write_bytes([0], size)?;
        size = buffer.write_bytes(self.mode.as_str().as_bytes(), size)?;
        size = buffer.write_bytes([0], size)?;
"""
SPLIT = """
fn split_text(bytes: &[u8]) -> PacketResult<(&str, &[u8])> {
    let end = bytes.iter().position(|&c| c == 0).ok_or(PacketError::Invalid)?;
    let rest = bytes.get(end + 1..).ok_or(PacketError::Invalid)?;
    Ok((from_utf8(&bytes[..end])?, rest))
}
"""

MUTANTS = [
    # P01
    ("p-opcode-swapped-read", ["P01"], [(PK, "            1 => PacketType::Read,\n            2 => PacketType::Write,", "            2 => PacketType::Read,\n            1 => PacketType::Write,")]),
    ("p-opcode-extra", ["P01"], [(PK, "            6 => PacketType::OptionalAck,", "            6 | 7 => PacketType::OptionalAck,")]),
    ("p-opcode-wild", ["P01"], [(PK, "            6 => PacketType::OptionalAck,\n            _ => return Err(PacketError::Invalid),", "            0 => return Err(PacketError::Invalid),\n            _ => PacketType::OptionalAck,")]),
    ("p-opcode-discriminant", ["P01"], [(PK, "    Error,\n    OptionalAck,\n}\n\nimpl PacketType", "    Error,\n    OptionalAck = 7,\n}\n\nimpl PacketType")]),
    ("p-opcode-wrong-kind", ["P01"], [(PK, "            Packet::Error(p) => {\n                let size = buffer.write_bytes(PacketType::Error.to_bytes()", "            Packet::Error(p) => {\n                let size = buffer.write_bytes(PacketType::Ack.to_bytes()")]),
    ("p-opcode-chain-kind", ["P01"], [(PK, "            Packet::Write(p) => PacketType::Write\n                .to_bytes()", "            Packet::Write(p) => PacketType::Read\n                .to_bytes()")]),
    ("p-opcode-little", ["P01"], [(PK, "(self as u16).to_be_bytes()", "(self as u16).to_le_bytes()")]),
    ("p-opcode-header", ["P01"], [(PK, "    let size = buffer.write_bytes(PacketType::Data.to_bytes(), 0_usize)?;\n    buffer", "    let size = buffer.write_bytes(PacketType::Ack.to_bytes(), 0_usize)?;\n    buffer")]),
    ("p-dispatch", ["P01"], [(PK, "PacketType::Write => Packet::Write(RequestPacket::from_bytes(remaining)?)", "PacketType::Write => Packet::Read(RequestPacket::from_bytes(remaining)?)")]),
    ("p-code-swapped", ["P01"], [(PK, "            3 => ErrorCode::DiskFull,\n            4 => ErrorCode::IllegalOperation,", "            4 => ErrorCode::DiskFull,\n            3 => ErrorCode::IllegalOperation,")]),
    ("p-code-missing", ["P01"], [(PK, "            7 => ErrorCode::NotSuchUser,\n", "")]),
    ("p-code-order", ["P01"], [(PK, "    UnknownId,\n    FileAlreadyExists,\n    NotSuchUser,\n}\n\nimpl Display", "    FileAlreadyExists,\n    UnknownId,\n    NotSuchUser,\n}\n\nimpl Display")]),
    ("p-code-order-both", ["P01"], [(PK, "    UnknownId,\n    FileAlreadyExists,\n    NotSuchUser,\n}\n\nimpl Display", "    FileAlreadyExists,\n    UnknownId,\n    NotSuchUser,\n}\n\nimpl Display"), (PK, "            5 => ErrorCode::UnknownId,\n            6 => ErrorCode::FileAlreadyExists,", "            6 => ErrorCode::UnknownId,\n            5 => ErrorCode::FileAlreadyExists,")]),
    ("p-code-plus", ["P01"], [(PK, "buffer.write_bytes((self.code as u16).to_be_bytes()", "buffer.write_bytes((self.code as u16 + 1).to_be_bytes()")]),
    ("p-code-default", ["P01"], [(PK, "ErrorCode::from_repr(code).ok_or(PacketError::Invalid)?", "ErrorCode::from_repr(code).unwrap_or(ErrorCode::Undefined)")]),
    # P02
    ("p-name-typo", ["P02"], [(PK, 'Self::WindowSize => "windowsize",', 'Self::WindowSize => "window",'), (PK, '"windowsize" | "WINDOWSIZE"', '"window" | "WINDOW"')]),
    ("p-name-swap", ["P02"], [(PK, '"apubk" | "APUBK" => Self::AuthPublicKey', '"spubk" | "SPUBK" => Self::AuthPublicKey'), (PK, '"spubk" | "SPUBK" => Self::SessionPublicKey', '"apubk" | "APUBK" => Self::SessionPublicKey')]),
    ("p-name-same", ["P02"], [(PK, 'Self::AuthPublicKey => "apubk"', 'Self::AuthPublicKey => "spubk"')]),
    ("p-name-wild", ["P02"], [(PK, '            "windowsize" | "WINDOWSIZE" => Self::WindowSize,\n            _ => return Err(PacketError::Invalid),', '            "" => return Err(PacketError::Invalid),\n            _ => Self::WindowSize,')]),
    ("p-mode-netascii", ["P02"], [(PK, '            "octet" => Self::Octet,\n            _ => return Err(PacketError::InvalidMode),', '            "" => return Err(PacketError::InvalidMode),\n            _ => Self::Octet,')]),
    ("p-level-swap", ["P02"], [(EN, '"optional-data" => Self::OptionalData,', '"optional-data" => Self::Data,')]),
    ("p-level-show", ["P02"], [(EN, 'EncryptionLevel::OptionalProtocol => write!(f, "optional-protocol")', 'EncryptionLevel::OptionalProtocol => write!(f, "protocol")')]),
    # P03
    ("p-order-data", ["P03"], [(PK, "        let mut size = buffer.write_bytes(self.block.to_be_bytes(), 0_usize)?;", "        let mut size = buffer.write_bytes(self.block.to_le_bytes(), 0_usize)?;")]),
    ("p-order-read", ["P03"], [(PK, "    Ok(u16::from_be_bytes(", "    Ok(u16::from_le_bytes(")]),
    ("p-no-terminator", ["P03"], [(PK, "        size = buffer.write_bytes(self.message.as_bytes(), size)?;\n        size = buffer.write_bytes([0], size)?;\n", "        size = buffer.write_bytes(self.message.as_bytes(), size)?;\n")]),
    ("p-no-terminator-chain", ["P03"], [(PK, "            .chain(self.message.as_bytes().iter().copied())\n            .chain([0])", "            .chain(self.message.as_bytes().iter().copied())")]),
    ("p-terminator-one", ["P03"], [(PK, "        size = buffer.write_bytes(self.message.as_bytes(), size)?;\n        size = buffer.write_bytes([0], size)?;", "        size = buffer.write_bytes(self.message.as_bytes(), size)?;\n        size = buffer.write_bytes([1], size)?;")]),
    ("p-option-swap", ["P03"], [(PK, OPT_WRITE, OPT_WRITE.replace("key.as_str()", "X").replace("value.as", "key.as_str().as").replace("X.as_bytes()", "value.as_bytes()"))]),
    ("p-option-swap-chain", ["P03"], [(PK, "                let bytes = key\n                    .as_str()\n                    .as_bytes()\n                    .iter()\n                    .copied()\n                    .chain([0])\n                    .chain(value.as_bytes().iter().copied())", "                let bytes = value\n                    .as_bytes()\n                    .iter()\n                    .copied()\n                    .chain([0])\n                    .chain(key.as_str().as_bytes().iter().copied())")]),
    ("p-option-overlap", ["P03"], [(PK, "            size = buffer.write_bytes(value.as_bytes(), size)?;\n            size = buffer.write_bytes([0], size)?;", "            let _ = buffer.write_bytes(value.as_bytes(), size)?;\n            size = buffer.write_bytes([0], size + value.len().min(9))?;")]),
    ("p-option-restart", ["P03"], [(PK, "        let mut size = 0;\n        for (key, value) in self.extensions {\n", "        let mut size = 0;\n        for (key, value) in self.extensions {\n            if size > 512 {\n                size = 0;\n            }\n")]),
    ("p-header-gap", ["P03"], [(PK, "    buffer.write_bytes(block.to_be_bytes(), size)\n", "    buffer.write_bytes(block.to_be_bytes(), size + 1)\n")]),
    ("p-size-short", ["P03"], [(PK, "                p.to_buffer(buffer.get_mut(size..)?).map(|s| size + s)\n            }\n            Packet::Ack(p)", "                p.to_buffer(buffer.get_mut(size..)?)\n            }\n            Packet::Ack(p)")]),
    ("p-mode-first", ["P03"], [(PK, REQ_WRITE, REQ_WRITE.replace("self.file_name.as_bytes()", "@").replace("self.mode.as_str().as_bytes()", "self.file_name.as_bytes()").replace("@", "self.mode.as_str().as_bytes()"))]),
    ("p-name-keeps-zero", ["P03"], [(PK, "                from_utf8(&bytes[0..n])?,", "                from_utf8(&bytes[0..n + 1])?,")]),
    ("p-name-from-one", ["P03"], [(PK, "                from_utf8(&bytes[0..n])?,", "                from_utf8(&bytes[n.min(1)..n])?,")]),
    ("p-mode-from-name", ["P03"], [(PK, "Some(n) => (rest.get(n + 1..), from_utf8(&rest[..n])?),\n            _ => return Err(PacketError::Invalid),\n        };\n        let mode", "Some(n) => (rest.get(n + 2..), from_utf8(&rest[..n])?),\n            _ => return Err(PacketError::Invalid),\n        };\n        let mode")]),
    ("p-option-rest-zero", ["P03"], [(PK, "                Some(n) => (rest.get(n + 1..), from_utf8(&rest[0..n])?),", "                Some(n) => (rest.get(n..), from_utf8(&rest[0..n])?),")]),
    ("p-option-stale", ["P03"], [(PK, "                Some(n) => (next.get(n + 1..), from_utf8(&next[0..n])?),", "                Some(n) => (next.get(n + 1..), from_utf8(&rest[0..n])?),")]),
    ("p-options-on-data-offset", ["P03"], [(PK, "            data: bytes\n                .get(size_of_val(&block)..)", "            data: bytes\n                .get(size_of_val(&block) + 1..)")]),
    ("p-message-offset", ["P03"], [(PK, "            .get(size_of_val(&code)..)\n            .ok_or(PacketError::Invalid)?;\n        let message", "            .get(1..)\n            .ok_or(PacketError::Invalid)?;\n        let message")]),
    ("p-code-size", ["P03"], [(PK, "#[derive(Debug, PartialEq, Clone, Copy)]\n#[repr(u16)]\npub enum ErrorCode", "#[derive(Debug, PartialEq, Clone, Copy)]\npub enum ErrorCode")]),
    ("p-position-nonzero", ["P03"], [(PK, "match message_bytes.iter().position(|&c| c == b'\\0')", "match message_bytes.iter().position(|&c| c == b'\\n')")]),
    ("p-options-lost", ["P03"], [(PK, "Some(b) if !b.is_empty() => OptionalAck::from_bytes(b)?.extensions,", "Some(b) if b.len() > 600 => OptionalAck::from_bytes(b)?.extensions,\n            Some(b) if !b.is_empty() => PacketExtensions::new(),")]),
    ("p-copy-size", ["P03"], [(BU, "            .copy_from_slice(data.as_ref());\n        Some(index + s)", "            .copy_from_slice(data.as_ref());\n        Some(index.max(s))")]),
    ("p-copy-place", ["P03"], [(BU, "        self.get_mut(index..index + s)?\n", "        self.get_mut(index.min(4)..index.min(4) + s)?\n")]),
    # same behaviour
    ("q-p-helper", [], [(PK, "\nfn try_from(bytes", SPLIT + "\nfn try_from(bytes"), (PK, READ_MSG, "        let (message, _) = split_text(message_bytes)?;\n"), (PK, READ_NAME, "        let (name, rest) = split_text(bytes)?;\n"),
        (PK, READ_MODE, "        let (octet, rest) = split_text(rest)?;\n        let rest = Some(rest);\n")]),
    ("q-p-helper-options", [], [(PK, "\nfn try_from(bytes", SPLIT + "\nfn try_from(bytes"), (PK, """            let (next, name) = match rest.iter().position(|&c| c == b'\\0') {
                Some(n) => (rest.get(n + 1..), from_utf8(&rest[0..n])?),
                _ => return Err(PacketError::Invalid),
            };

            let Some(next) = next else {
                return Err(PacketError::Invalid);
            };

            let (next, value) = match next.iter().position(|&c| c == b'\\0') {
                Some(n) => (next.get(n + 1..), from_utf8(&next[0..n])?),
                _ => return Err(PacketError::Invalid),
            };
""", "            let (name, next) = split_text(rest)?;\n            let (value, next) = split_text(next)?;\n"), (PK, """            match next {
                Some(r) if !r.is_empty() => rest = r,
                _ => break,
            };
""", """            if next.is_empty() {
                break;
            }
            rest = next;
""")]),
    ("q-p-arms", [], [(PK, "            1 => PacketType::Read,\n            2 => PacketType::Write,", "            2 => PacketType::Write,\n            1 => PacketType::Read,")]),
    ("q-p-const-table", [], [(PK, "        Ok(match s {\n            1 => PacketType::Read,", "        const READ: u16 = PacketType::Read as u16;\n        Ok(match s {\n            READ => PacketType::Read,")]),
    ("q-p-ifs", [], [(PK, """        Ok(match s {
            1 => PacketType::Read,
            2 => PacketType::Write,
            3 => PacketType::Data,
            4 => PacketType::Ack,
            5 => PacketType::Error,
            6 => PacketType::OptionalAck,
            _ => return Err(PacketError::Invalid),
        })""", """        if s == PacketType::Read as u16 {
            Ok(PacketType::Read)
        } else if s == PacketType::Write as u16 {
            Ok(PacketType::Write)
        } else if s == PacketType::Data as u16 {
            Ok(PacketType::Data)
        } else if s == PacketType::Ack as u16 {
            Ok(PacketType::Ack)
        } else if s == PacketType::Error as u16 {
            Ok(PacketType::Error)
        } else if s == PacketType::OptionalAck as u16 {
            Ok(PacketType::OptionalAck)
        } else {
            Err(PacketError::Invalid)
        }""")]),
    ("q-p-ignore-case", [], [(PK, """        Ok(match s {
            "octet" => Self::Octet,
            _ => return Err(PacketError::InvalidMode),
        })""", """        if s.eq_ignore_ascii_case("octet") {
            Ok(Self::Octet)
        } else {
            Err(PacketError::InvalidMode)
        }""")]),
    ("q-p-write-error", [], [(PK, ERR_WRITE, """        let code = (self.code as u16).to_be_bytes();
        let end = buffer.write_bytes(code, 0_usize)?;
        let end = buffer.write_bytes(self.message.as_bytes(), end)?;
        buffer.write_bytes(b"\\0", end)
""")]),
    ("q-p-write-error-sub", [], [(PK, ERR_WRITE, """        let head = buffer.write_bytes((self.code as u16).to_be_bytes(), 0_usize)?;
        let rest = buffer.get_mut(head..)?;
        let text = rest.write_bytes(self.message.as_bytes(), 0_usize)?;
        let end = rest.write_bytes([0], text)?;
        Some(head + end)
""")]),
    ("q-p-text-helper", [], [(PK, ERR_WRITE, """        let size = buffer.write_bytes((self.code as u16).to_be_bytes(), 0_usize)?;
        write_text(buffer, self.message.as_bytes(), size)
"""), (PK, OPT_WRITE, """            size = write_text(buffer, key.as_str().as_bytes(), size)?;
            size = write_text(buffer, value.as_bytes(), size)?;
"""), (PK, REQ_WRITE, """        let size = write_text(buffer, self.file_name.as_bytes(), 0)?;
        let size = write_text(buffer, self.mode.as_str().as_bytes(), size)?;
"""), (PK, "\nfn try_from(bytes", """
fn write_text(buffer: &mut [u8], text: &[u8], at: usize) -> Option<usize> {
    let end = buffer.write_bytes(text, at)?;
    buffer.write_bytes([0], end)
}

fn try_from(bytes""")]),
    ("q-p-shared-head", [], [(PK, """        match self {
            Packet::Read(p) => {
                let size = buffer.write_bytes(PacketType::Read.to_bytes(), 0_usize)?;
                p.to_buffer(buffer.get_mut(size..)?).map(|s| size + s)
            }
            Packet::Write(p) => {
                let size = buffer.write_bytes(PacketType::Write.to_bytes(), 0_usize)?;
                p.to_buffer(buffer.get_mut(size..)?).map(|s| size + s)
            }
            Packet::Data(p) => {
                let size = buffer.write_bytes(PacketType::Data.to_bytes(), 0_usize)?;
                p.to_buffer(buffer.get_mut(size..)?).map(|s| size + s)
            }
            Packet::Ack(p) => {
                let size = buffer.write_bytes(PacketType::Ack.to_bytes(), 0_usize)?;
                p.to_buffer(buffer.get_mut(size..)?).map(|s| size + s)
            }
            Packet::Error(p) => {
                let size = buffer.write_bytes(PacketType::Error.to_bytes(), 0_usize)?;
                p.to_buffer(buffer.get_mut(size..)?).map(|s| size + s)
            }
            Packet::OptionalAck(p) => {
                let size = buffer.write_bytes(PacketType::OptionalAck.to_bytes(), 0_usize)?;
                p.to_buffer(buffer.get_mut(size..)?).map(|s| size + s)
            }
        }
""", """        let size = buffer.write_bytes(self.packet_type().to_bytes(), 0_usize)?;
        let rest = buffer.get_mut(size..)?;
        let body = match self {
            Packet::Read(p) => p.to_buffer(rest),
            Packet::Write(p) => p.to_buffer(rest),
            Packet::Data(p) => p.to_buffer(rest),
            Packet::Ack(p) => p.to_buffer(rest),
            Packet::Error(p) => p.to_buffer(rest),
            Packet::OptionalAck(p) => p.to_buffer(rest),
        }?;
        Some(size + body)
""")]),
    ("q-p-or-arms", [], [(PK, """            PacketType::Read => Packet::Read(RequestPacket::from_bytes(remaining)?),
            PacketType::Write => Packet::Write(RequestPacket::from_bytes(remaining)?),
""", """            PacketType::Read | PacketType::Write => {
                let request = RequestPacket::from_bytes(remaining)?;
                if opcode == PacketType::Read {
                    Packet::Read(request)
                } else {
                    Packet::Write(request)
                }
            }
""")]),
    ("q-p-direct-bytes", [], [(PK, """    Ok(u16::from_be_bytes(
        bytes
            .get(..size_of::<u16>())
            .ok_or(PacketError::Invalid)?
            .try_into()?,
    ))""", """    match bytes {
        [high, low, ..] => Ok(u16::from_be_bytes([*high, *low])),
        _ => Err(PacketError::Invalid),
    }""")]),
    ("q-p-write-bytes", [], [(BU, """        let s = data.as_ref().len();
        let index = from_index.into();
        self.get_mut(index..index + s)?
            .copy_from_slice(data.as_ref());
        Some(index + s)""", """        let bytes = data.as_ref();
        let start = from_index.into();
        let end = start + bytes.len();
        let part = self.get_mut(start..end)?;
        part.copy_from_slice(bytes);
        Some(end)""")]),
    ("q-p-to-vec", [], [(PK, """        self.block
            .to_be_bytes()
            .into_iter()
            .chain(self.data.iter().copied())
            .collect()""", """        let head = self.block.to_be_bytes();
        head.iter().chain(self.data.iter()).copied().collect()""")]),
    ("q-p-for-extend", [], [(PK, """        self.extensions
            .into_iter()
            .fold(PacketBlock::new(), |mut v, (key, value)| {
                let bytes = key
                    .as_str()
                    .as_bytes()
                    .iter()
                    .copied()
                    .chain([0])
                    .chain(value.as_bytes().iter().copied())
                    .chain([0]);
                v.extend(bytes);
                v
            })""", """        let mut v = PacketBlock::new();
        for (key, value) in self.extensions {
            v.extend(key.as_str().as_bytes().iter().copied());
            v.extend([0]);
            v.extend(value.as_bytes().iter().copied());
            v.extend([0]);
        }
        v""")]),
    ("q-p-split-at", [], [(PK, """        let code = try_from(bytes)?;
        let code = ErrorCode::from_repr(code).ok_or(PacketError::Invalid)?;
        let message_bytes = bytes
            .get(size_of_val(&code)..)
            .ok_or(PacketError::Invalid)?;
""", """        let (code, message_bytes) = bytes.split_at_checked(2).ok_or(PacketError::Invalid)?;
        let code = ErrorCode::from_repr(u16::from_be_bytes(code.try_into()?)).ok_or(PacketError::Invalid)?;
""")]),
    ("q-p-split-first", [], [(PK, """        let block = try_from(bytes)?;
        Ok(Self {
            block,
            data: bytes
                .get(size_of_val(&block)..)
                .ok_or(PacketError::Invalid)?,
        })""", """        let (block, data) = bytes.split_first_chunk::<2>().ok_or(PacketError::Invalid)?;
        Ok(Self {
            block: u16::from_be_bytes(*block),
            data,
        })""")]),
    ("q-p-len-check", [], [(PK, "Some(b) if !b.is_empty() => OptionalAck::from_bytes(b)?.extensions,", "Some(b) if b.len() > 0 => OptionalAck::from_bytes(b)?.extensions,")]),
    ("q-p-data-vec", [], [(PK, """        self.block
            .to_be_bytes()
            .into_iter()
            .chain(self.data.iter().copied())
            .collect()""", """        let mut v = PacketBlock::new();
        v.extend(self.block.to_be_bytes());
        v.extend(self.data.iter().copied());
        v""")]),
    ("p-data-vec", ["P03"], [(PK, """        self.block
            .to_be_bytes()
            .into_iter()
            .chain(self.data.iter().copied())
            .collect()""", """        let mut v = PacketBlock::new();
        v.extend(self.data.iter().copied());
        v.extend(self.block.to_be_bytes());
        v""")]),
    ("p-for-extend", ["P03"], [(PK, """        self.extensions
            .into_iter()
            .fold(PacketBlock::new(), |mut v, (key, value)| {
                let bytes = key
                    .as_str()
                    .as_bytes()
                    .iter()
                    .copied()
                    .chain([0])
                    .chain(value.as_bytes().iter().copied())
                    .chain([0]);
                v.extend(bytes);
                v
            })""", """        let mut v = PacketBlock::new();
        for (key, value) in self.extensions {
            v.extend(key.as_str().as_bytes().iter().copied());
            v.extend([0]);
            v.extend(value.as_bytes().iter().copied());
        }
        v""")]),
    ("p-option-skipped", ["P03"], [(PK, "            if let (Ok(extension), Ok(value)) = (name.parse(), value.parse()) {\n                let _ = extensions.insert(extension, value);\n            };", "            if let (Ok(extension), Ok(value)) = (name.parse(), value.parse::<ExtensionValue>()) {\n                if !value.is_empty() {\n                    let _ = extensions.insert(extension, value);\n                }\n            };")]),
    ("p-options-cut", ["P03"], [(PK, "                Some(r) if !r.is_empty() => rest = r,", "                Some(r) if r.len() > 8 => rest = r,")]),
    ("p-options-count", ["P03"], [(PK, "while extensions.len() < Extension::SIZE as usize", "while extensions.len() < 4")]),

    ("p-decrypt-unchecked", ["P04"], [(EN, "        if buffer.len() < nonce.len() + tag.len() + from_position {\n            return Err(EncryptionError::Decrypt);\n        }\n", "")]),
    ("p-decrypt-tag-forgotten", ["P04"], [(EN, "if buffer.len() < nonce.len() + tag.len() + from_position {", "if buffer.len() < nonce.len() + from_position {")]),
    ("p-decrypt-position-forgotten", ["P04"], [(EN, "if buffer.len() < nonce.len() + tag.len() + from_position {", "if buffer.len() < nonce.len() + tag.len() {")]),
    ("p-decode-exact-array", ["P04"], [(EN, "    let mut remote = [0; { MAX_EXTENSION_VALUE_SIZE as usize }];\n", "    let mut remote = [0; CAP];\n")]),
    ("p-rslice-wrapping", ["P04"], [("src/buffer.rs", "        let from = self\n            .len()\n            .checked_sub(N)\n            .and_then(|s| s.checked_sub(index))?;\n        self.get(from..from + N).and_then(|v| v.try_into().ok())\n    }\n\n    fn rslice_to_array_ref", "        let from = self.len().checked_sub(N)? - index;\n        self.get(from..from + N).and_then(|v| v.try_into().ok())\n    }\n\n    fn rslice_to_array_ref")]),
    ("p-opcode-index", ["P04"], [(PK, "        bytes\n            .get(..size_of::<u16>())\n            .ok_or(PacketError::Invalid)?\n            .try_into()?,", "        bytes[..size_of::<u16>()].try_into()?,")]),
    ("p-error-message-index", ["P04"], [(PK, "        let message_bytes = bytes\n            .get(size_of_val(&code)..)\n            .ok_or(PacketError::Invalid)?;", "        let message_bytes = &bytes[4..];")]),
    ("p-padding-from-one", ["P04"], [(EN, "    let mut number_of_bytes = 0;\n", "    let mut number_of_bytes = 1;\n")]),
    ("p-value-after-name", ["P04"], [(PK, "Some(n) => (next.get(n + 1..), from_utf8(&next[0..n])?),", "Some(n) => (Some(&next[n + 2..]), from_utf8(&next[0..n])?),")]),
    ("p-name-of-rest", ["P04"], [(PK, "Some(n) => (next.get(n + 1..), from_utf8(&next[0..n])?),", "Some(n) => (next.get(n + 1..), from_utf8(&next[1..n])?),")]),
    ("p-text-unwrap", ["P04"], [(PK, "from_utf8(&message_bytes[..n])?", "from_utf8(&message_bytes[..n]).unwrap()")]),
    ("p-key-unwrap", ["P04"], [("src/server/extensions.rs", "            .map(|p| decode_public_key(p.as_bytes()))", "            .map(|p| Ok::<_, crate::error::EncryptionError>(decode_public_key(p.as_bytes()).unwrap()))")]),
    ("q-p-data-index", [], [(PK, "            data: bytes\n                .get(size_of_val(&block)..)\n                .ok_or(PacketError::Invalid)?,", "            data: &bytes[size_of_val(&block)..],")]),
    ("q-p-padding-count", [], [(EN, "    let mut number_of_bytes = 0;\n    for b in buf.iter().rev() {\n        if *b != byte {\n            break;\n        }\n        number_of_bytes += 1;\n    }\n    buf.truncate(buf.len() - number_of_bytes);", "    let number_of_bytes = buf.iter().rev().take_while(|b| **b == byte).count();\n    let keep = buf.len() - number_of_bytes;\n    buf.truncate(keep);")]),
    ("q-p-padding-pop", [], [(EN, "    let mut number_of_bytes = 0;\n    for b in buf.iter().rev() {\n        if *b != byte {\n            break;\n        }\n        number_of_bytes += 1;\n    }\n    buf.truncate(buf.len() - number_of_bytes);", "    while buf.last() == Some(&byte) {\n        buf.pop();\n    }")]),
    ("q-p-padding-while", [], [(EN, "    let mut number_of_bytes = 0;\n    for b in buf.iter().rev() {\n        if *b != byte {\n            break;\n        }\n        number_of_bytes += 1;\n    }\n    buf.truncate(buf.len() - number_of_bytes);", "    let mut end = buf.len();\n    while end > 0 && buf[end - 1] == byte {\n        end -= 1;\n    }\n    buf.truncate(end);")]),
    ("q-p-padding-rposition", [], [(EN, "    let mut number_of_bytes = 0;\n    for b in buf.iter().rev() {\n        if *b != byte {\n            break;\n        }\n        number_of_bytes += 1;\n    }\n    buf.truncate(buf.len() - number_of_bytes);", "    let end = buf.iter().rposition(|b| *b != byte).map_or(0, |p| p + 1);\n    buf.truncate(end);")]),
    ("q-p-decrypt-checked", [], [(EN, "        if buffer.len() < nonce.len() + tag.len() + from_position {\n            return Err(EncryptionError::Decrypt);\n        }\n        buffer.truncate(buffer.len() - nonce.len() - tag.len());", "        let end = buffer\n            .len()\n            .checked_sub(nonce.len() + tag.len())\n            .filter(|end| *end >= from_position)\n            .ok_or(EncryptionError::Decrypt)?;\n        buffer.truncate(end);")]),
    ("q-p-decrypt-overhead", [], [(EN, "        if buffer.len() < nonce.len() + tag.len() + from_position {\n            return Err(EncryptionError::Decrypt);\n        }\n        buffer.truncate(buffer.len() - nonce.len() - tag.len());", "        let overhead = nonce.len() + tag.len();\n        if buffer.len() < from_position || buffer.len() - from_position < overhead {\n            return Err(EncryptionError::Decrypt);\n        }\n        let end = buffer.len() - overhead;\n        buffer.truncate(end);")]),
]
