"""The properties, in one place."""
PROPS, NA = [], []


def P(id, title, statement, over, q, why, files, mech, tech, note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=files.split(), mech=mech, tech=tech, note=note))


def N(id, title, statement, over, q, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=files.split(), mech=mech, reason=reason))


IO = "std-binary/src/io.rs"
P("F01", "A read request never reaches a file outside the served directory",
  "Whatever path a client asks for, and whatever symbolic links exist, the bundled server opens for reading (and lists) only files and directories whose "
  "fully resolved path lies, component by component, below the fully resolved served directory. A read request changes nothing in the file system.",
  "inputs configurations", "every requested path, every directory tree with links, with and without directory listing",
  "Tests request a few fixed names; no test has links, sibling directories with a common prefix, or listing of linked directories.",
  IO, [("create_server_reader", IO), ("list_directory", IO)],
  "path-sensitive data flow: path containment typestate before every file system effect")
P("F02", "A write request never creates or changes anything outside the served directory",
  "Whatever path a client asks to write, and whatever symbolic links exist, the bundled server creates directories or files, truncates files and hands out files "
  "for writing only at places whose fully resolved path lies below the fully resolved served directory; this is known before the effect takes place.",
  "inputs configurations", "every requested path, every directory tree with links, with and without overwriting",
  "Tests upload to a few fixed names below an empty directory without links.",
  IO, [("create_server_writer", IO)],
  "path-sensitive data flow: path containment typestate before every file system effect")
P("F03", "Without permission to overwrite, an existing file is never replaced",
  "When overwriting is not allowed in the server's configuration, a write request opens its file in a mode that atomically fails if anything exists at that name, "
  "and nothing else that could replace, truncate or remove an existing file is done on behalf of a request.",
  "inputs configurations schedules", "every request, directory state and interleaving with other requests for the same name",
  "Tests cannot sample two uploads creating the same name at the same time, nor every way a file may already exist.",
  IO, [("create_server_writer", IO)],
  "path-sensitive data flow: open-mode flags correlated with configuration")
P("F04", "No request reaches deeper than the configured directory depth",
  "No file system operation is done for a request (read, write or directory listing) whose path has more directories above its last component than the configured "
  "maximum directory depth.",
  "inputs configurations", "every requested path and configured depth",
  "The unit test checks the counting helper on eight paths, not that every access is preceded by it.",
  IO, [("validate_path", IO)],
  "path-sensitive data flow: comparison facts required before every file system effect")
P("F05", "The file name given to storage callbacks has no parent, current or empty parts",
  "The name the server passes to the application's create-reader and create-writer callbacks is rebuilt from the slash-separated parts of the requested name without "
  "any '..', '.' or empty part, so it is relative and cannot climb out of a directory it is joined to.",
  "inputs configurations", "every requested file name, in every feature configuration",
  "Tests pass a handful of names.",
  "src/server/validation.rs src/server/connection_builder.rs", [("validate_file_name / normalisation", "src/server/validation.rs")],
  "data flow from the request to the callback; analysis of the filter predicate")

WR = "src/server/helpers/write.rs"
P("W01", "The server acknowledges only blocks it has stored",
  "While receiving an upload, the server sends an acknowledgement for a received data block only after its block writer has accepted exactly that block's number and "
  "data, with that block's number; or, when the writer reports the block as already stored or not yet expected, with the number of the last stored block the writer "
  "names. No acknowledgement is sent for anything else after a data block was received.",
  "inputs schedules faults", "every sequence of received packets, every answer of the block writer, with and without encryption",
  "Tests run whole transfers and a few packet sequences; losing or duplicating an arbitrary block, or a storage error in between, is not enumerated.",
  WR, [("handle_write", WR), ("write_block", WR)],
  "path-sensitive data flow: typestate of the block writer's answer at every acknowledgement")
P("W02", "The bundled block writer stores blocks in order, whole and once",
  "The bundled block writer writes a block only when its index follows the last stored one directly, writes the received data and reports success only when all of it "
  "was handed to the file, records and reports the new index exactly on success, reports the length of the data as written, leaves its position unchanged on any "
  "error, and names the last stored block in its refusals.",
  "inputs faults", "every order of blocks, every partial write, write error and data length including 0",
  "Unit tests store a few blocks into memory, where writes are never partial and never fail.",
  "src/writers/single_block_writer.rs src/writers/mod.rs", [("SingleBlockWriter::write_block", "src/writers/single_block_writer.rs"), ("write_block", "src/writers/mod.rs")],
  "path-sensitive data flow with symbolic block positions and slice remainders")
P("W03", "An upload never exceeds the configured file size",
  "During an upload the server acknowledges and counts a stored block, and finishes the upload, only when the bytes received before plus those of the block are at "
  "most the configured maximum file size; every accepted block is added to that total. A file is opened for a request only when the size the client announced is "
  "absent or at most the maximum.",
  "inputs configurations", "every sequence of block sizes and announced sizes, every limit",
  "Tests use one file size around one limit.",
  WR + " src/server/validation.rs src/server/connection_builder.rs", [("handle_write", WR), ("handle_file_size", "src/server/validation.rs")],
  "path-sensitive data flow: comparison facts required before acknowledgement, accounting and callbacks")
P("W04", "An upload is finished exactly by a block shorter than the block size",
  "The server marks an upload finished exactly when its block writer accepted a block with fewer bytes than a full block (the negotiated block size with any "
  "encryption overhead), and always does so then unless the session has failed.",
  "inputs configurations", "every data length and negotiated block size, with and without encryption",
  "Tests transfer files of a few sizes.",
  WR, [("handle_write", WR)],
  "path-sensitive data flow: comparison facts required for the state change, both ways")
P("W05", "A failed upload is reported and stays failed",
  "When storing a block fails, or the size limit is exceeded, the server acknowledges nothing for that block, does not finish the upload, sends the client an error packet and marks the session failed; an "
  "error packet from the client marks it failed too. A failed session stores nothing and sends nothing for further data.",
  "faults schedules inputs", "every storage error, at every block, and every packet arriving afterwards",
  "No test has a block writer fail in the middle of a transfer through the server and then sends more data.",
  WR, [("handle_write", WR)],
  "path-sensitive data flow: typestate of the session's failure over every exit path")
P("W06", "Every data block is answered as its window requires",
  "For every data block given to the block writer the server attempts an acknowledgement before waiting for the next packet, except for a full block in the middle of a window "
  "(window size above 1 and the last acknowledged index plus the window size not reached). The last acknowledged index is advanced only after the "
  "acknowledgement of that index was sent.",
  "inputs schedules configurations", "every window size, block length, repetition and loss pattern",
  "Tests use a few window sizes without loss at arbitrary positions.",
  WR, [("handle_write", WR)],
  "path-sensitive data flow: every exit path of the upload step has sent or has the facts that excuse it")

RD = "src/server/helpers/read.rs"
P("R01", "A download ends successfully only when every block was acknowledged",
  "While sending a file, the server releases blocks only by the number of an acknowledgement it received, asks its block reader after each one whether everything "
  "has been acknowledged, and marks the download finished exactly when the reader says so.",
  "inputs schedules", "every sequence of acknowledgements: repeated, early, late, for any number",
  "Tests acknowledge blocks in the usual order.",
  RD, [("handle_read", RD)],
  "path-sensitive data flow: typestate of the block reader's answers over every path of the acknowledgement step")
P("R02", "A data packet carries exactly the block the reader gave, under its number",
  "Every data packet the server sends for a download consists of the header with the number its block reader gave for the block, followed by exactly the bytes the reader put behind the "
  "header; none is sent when the reader gave no block.",
  "inputs configurations", "every block length (also 0), number, retry and buffer state left by earlier packets",
  "Tests compare whole files of a few sizes.",
  RD, [("send_data_block", RD)],
  "path-sensitive data flow: typestate of the send buffer from the block reader to the socket")
P("R03", "A failed download is reported and stays failed",
  "When reading a block fails, no data is sent for it, the client is sent an error packet and the session is marked failed; an error packet from the client marks it failed too. "
  "A failed session processes no acknowledgements and is not finished by one.",
  "faults inputs schedules", "every read error at every block, and every packet arriving afterwards",
  "No test lets reading fail in the middle of a download through the server.",
  RD, [("send_data_block", RD), ("handle_read", RD)],
  "path-sensitive data flow: typestate of the session's failure over every exit path")
P("R04", "A short read is not taken for the end of the file",
  "The bundled block readers fill a block from the file until it is full or the file returned no more bytes (for an encrypted file: until its last block), return a read error as such, and take the file to be at its end exactly "
  "when such a block is shorter than the block size.",
  "faults inputs", "every way the file may hand out its bytes: short reads, errors, any length including multiples of the block size and 0",
  "Tests read from memory, where reads are only short at the end.",
  "src/readers/mod.rs src/readers/single_block_reader.rs src/readers/multiple_block_reader.rs src/readers/multiple_block_seek_reader.rs", [("read_block", "src/readers/mod.rs"), ("BlockReader::next", "src/readers/single_block_reader.rs")],
  "path-sensitive data flow with symbolic read positions")
P("R05", "No more unacknowledged blocks than the window are given out",
  "The bundled block readers give out a block that was not given out before only when fewer blocks than the window they were built with (one for the single block reader) are unacknowledged; "
  "a session's reader is built with the negotiated window size and block size.",
  "inputs schedules configurations", "every order of sends, retries and acknowledgements, every window and block size",
  "Tests use windows of 2 to 4 and a few orders.",
  "src/readers/single_block_reader.rs src/readers/multiple_block_reader.rs src/readers/multiple_block_seek_reader.rs src/server/connection_builder.rs", [("BlockReader::next", "src/readers/multiple_block_reader.rs")],
  "path-sensitive data flow: comparison facts required where a block is made")
P("R06", "Blocks are numbered consecutively and repeated unchanged",
  "Every block a bundled reader gives out carries the number of its index and the length of the data put into the buffer; a new block's index follows the last one directly and is recorded; the "
  "seeking reader reads a repeated block at (index - 1) times the block size and a new one where the last new one ended.",
  "inputs schedules", "every order of new and repeated blocks, every block size and file length",
  "Tests repeat a few blocks of small files.",
  "src/readers/single_block_reader.rs src/readers/multiple_block_reader.rs src/readers/multiple_block_seek_reader.rs", [("BlockReader::next", "src/readers/multiple_block_seek_reader.rs")],
  "path-sensitive data flow: symbolic index, offset and length of every block made")

P("R07", "An acknowledgement releases only the blocks up to its number",
  "A bundled block reader forgets a block it gave out only when a number is acknowledged whose index is at least the block's own (for the single block reader: exactly its own); the seeking reader never "
  "moves its mark back, nor past the last block it read.",
  "inputs schedules histories", "every order of acknowledgements, stale, repeated and early ones included",
  "Tests acknowledge a few blocks in order.",
  "src/readers/single_block_reader.rs src/readers/multiple_block_reader.rs src/readers/multiple_block_seek_reader.rs", [("BlockReader::free_block", "src/readers/multiple_block_reader.rs")],
  "path-sensitive data flow: comparison facts, and what the filter's closure lets through, required where a kept block is dropped")
P("R08", "A block reader is finished only when its data ended and every block was released",
  "is_finished of a bundled block reader is true only when the end of its data was found and no block it gave out is still unacknowledged.",
  "inputs histories", "every state of a reader, every file length, block size and window",
  "Tests ask after a few reads of small files.",
  "src/readers/single_block_reader.rs src/readers/multiple_block_reader.rs src/readers/multiple_block_seek_reader.rs", [("BlockReader::is_finished", "src/readers/multiple_block_reader.rs")],
  "path-sensitive data flow: facts required on every path answering yes")
P("R09", "The server repeats unacknowledged data when the retry time has passed",
  "In a download, the server asks its block reader to repeat exactly when more than the retry timeout (times the session's multiplier) has passed since it last sent a block; only sending a block renews that time. A reader asked to "
  "repeat, that keeps any unacknowledged block, does not answer with nothing.",
  "histories schedules", "every history of sendings, acknowledgements and losses",
  "Tests lose no packets.",
  "src/server/helpers/read.rs src/readers/single_block_reader.rs src/readers/multiple_block_reader.rs src/readers/multiple_block_seek_reader.rs", [("send_data_block", "src/server/helpers/read.rs"), ("BlockReader::next", "src/readers/multiple_block_reader.rs")],
  "path-sensitive data flow into the retry argument, typestate of renewals, facts required where a reader answers with nothing")

P("R10", "A session without heap reads its own reader of the shared pool",
  "In builds without heap a session's block reader is kept in a pool shared by all sessions: it is stored only under an index at which that pool has no reader, handed out only if it was stored, and under that index; taking a block, releasing one and asking whether all is sent are done by the reader at the session's own index of its own pool, with the caller's arguments and that reader's answer; dropping it removes that reader and no other.",
  "histories", "every order in which sessions begin and end",
  "Tests have one pooled reader at a time.",
  "src/readers/pool_reader.rs src/server/single_thread.rs", [("PoolReader", "src/readers/pool_reader.rs")],
  "path-sensitive facts about the pool at every insertion (evaluating the predicate of the search), provenance of receiver, arguments and result of every delegated call")

SC = "src/server/connection.rs"
SX = "src/server/extensions.rs"
SH = "src/server/helpers/connection.rs"
CX = "src/client/extensions.rs"
CC = "src/client/connection.rs"
CS = "src/client/encryption_socket.rs"
EN = "src/encryption.rs"
EP = "src/encrypted_packet.rs"
P("E01", "The server sends nothing unsealed in an encrypted session",
  "Once a server session has an encryptor, every packet it sends at level Protocol or Full - data, acknowledgement, option acknowledgement and error alike - was sealed whole with that encryptor, every data "
  "packet at level Data had its data sealed, and a packet whose sealing failed is not sent. Without an encryptor, or at other levels, packets are sent as they are.",
  "inputs configurations faults", "every level, presence of keys, packet type and failure of the cipher",
  "Tests run whole transfers at each level; they do not look at every packet type on the wire, nor let the cipher fail.",
  SC, [("Connection::send_bytes", SC)],
  "path-sensitive data flow: the state of the buffer at every send, for every level still possible")
P("E02", "Unauthenticated packets have no effect on an encrypted session",
  "In a server session with an encryptor, a received packet stores or releases a block, refreshes, finishes or fails the session only after it was successfully opened: whole at level Protocol or Full, its data "
  "at level Data for a data packet. A packet that cannot be opened changes nothing.",
  "inputs configurations", "every level, packet type and every forged, truncated or plain packet",
  "Tests send only packets of the right kind; no test injects packets into an encrypted session.",
  SC + " src/server/helpers/read.rs src/server/helpers/write.rs", [("Connection::decrypt_packet", SC), ("handle_read", "src/server/helpers/read.rs"), ("handle_write", "src/server/helpers/write.rs")],
  "path-sensitive data flow: the state of the received bytes at every effect, for every level still possible")
P("E03", "The client seals what it sends and uses only what it could open",
  "With an encryptor, the client's socket passes on requests sealed with the client's key (level Protocol or Full), other packets sealed whole at these levels, data packets with sealed data at level Data, and nothing whose "
  "sealing failed; it hands out a received packet only after opening it the same way, and an error otherwise.",
  "inputs configurations faults", "every level, packet type, received bytes and failure of the cipher",
  "Tests run whole transfers; they do not inject plain or forged packets at each level.",
  CS, [("EncryptionBoundSocket::send_to", CS), ("EncryptionBoundSocket::recv_from", CS)],
  "path-sensitive data flow: the state of the buffer at every send and return, for every level still possible")
P("E04", "Every encryption uses a fresh random nonce and covers the data",
  "Each time a packet is encrypted, a new nonce is generated from the configured random source for that packet alone, everything from the given position on is encrypted, tag and nonce are appended, and success is "
  "reported only if all of that succeeded. The bundled programs use the operating system's random source.",
  "inputs faults", "every packet content and length, every number of packets",
  "Tests check a round trip; nonce reuse is not visible in it.",
  EN, [("Encryptor::encrypt", EN)],
  "path-sensitive data flow: origin of nonce, extent of the encrypted slice, results of every step")
P("E05", "Nothing is decrypted without authentication, and in the format it was encrypted",
  "Decryption takes nonce and tag from where encryption put them, rejects shorter input, and reports success only if the cipher authenticated the data. Every sealed packet format leaves the same leading bytes in plain text "
  "when sealing and opening (the 4 header bytes of a data packet at level Data, none otherwise), and adds and removes padding in opposite order.",
  "inputs", "every received packet of any length and content",
  "Tests decrypt what was just encrypted.",
  EN + " " + EP, [("Encryptor::decrypt", EN), ("EncryptedPacket::decrypt", EP)],
  "path-sensitive data flow: symbolic positions of nonce, tag and data; agreement of both directions")
P("E06", "The server accepts only authorized keys that signed the session key",
  "The server accepts a request with an authentication key only if that key's signature over the request's session key verified. If authorized keys are configured, it accepts a request only if it "
  "carries such a key and the key is among them. The session key used is the one received.",
  "inputs configurations", "every combination of options a client may send, every configured key list",
  "Tests use complete, correct option sets.",
  SX, [("parse_extensions", SX)],
  "path-sensitive data flow over every accepting path of the negotiation")
P("E07", "Required full encryption admits only fully encrypted requests and sessions",
  "If full encryption is required, the server accepts a request only when it arrived encrypted and its session is fully encrypted. A session is fully encrypted only if the request arrived so, and "
  "a requested level (or its optional form) is the level of the session.",
  "inputs configurations", "every requested level, sent encrypted or not, every configuration",
  "Tests cover matching levels.",
  SX, [("parse_extensions", SX)],
  "path-sensitive data flow over every accepting path of the negotiation, with the set of levels still possible")
P("E08", "The client's required encryption is never dropped",
  "A client configured for level Data or Protocol continues a transfer only at Data, Protocol or Full with exchanged session keys, one configured for Full only at Full; it neither accepts an answer without options nor repeats "
  "its request without options. A server's authentication key is accepted only if its signature over the session key verified.",
  "inputs", "every answer of a server or of somebody in between",
  "Tests talk to a well-behaved server.",
  CX + " " + CC, [("parse_extensions", CX), ("query_server", CC)],
  "path-sensitive data flow over every accepting path of the negotiation, with the set of levels still possible")
P("E09", "A configured server key must be the server's",
  "A client with a private key and a server key configured accepts an answer with options for an encrypted session only if the authentication key in that answer equals the configured server key.",
  "inputs configurations", "every answer, with and without an authentication key",
  "No test has a server answer with another key.",
  CC, [("query_server", CC)],
  "path-sensitive data flow: comparison facts required at every accepting return")
P("E10", "Refusals reveal nothing when only authorized clients may get errors",
  "On its listening socket the server sends nothing when errors are for authorized clients only; otherwise an answer to a request that arrived encrypted is sent sealed with the key of that request, or not at all.",
  "inputs configurations faults", "every rejected request and configuration",
  "Tests look at single refusals.",
  "src/server/connection_builder.rs src/server/multi_thread.rs", [("reply_with_error", "src/server/connection_builder.rs")],
  "path-sensitive data flow: facts required at every send on the listening socket")
P("E11", "Both sides switch to the session keys, after the answer",
  "When session keys were exchanged, the server answers the request under the handshake's keys and then, before anything else is sent, uses the encryptor made from its own session key and the client's; without session keys it "
  "keeps what it had. The client makes keys whenever encryption is asked for, and continues with the encryptor made from its own session key and the one the server sent, at the level agreed.",
  "inputs configurations", "every level, request kind and option set",
  "Tests cover the working combinations.",
  SH + " src/client/encryption_socket_builder.rs", [("accept_connection", SH), ("configure_socket", "src/client/encryption_socket_builder.rs")],
  "path-sensitive data flow: origin of the installed encryptor, order of sends and installation")
P("E13", "Encryption always fits into the agreed block size",
  "After negotiation, on both sides, the block size of an accepted transfer exceeds what encryption adds at its level (40 bytes at Data, 41 at Protocol and Full), so sealing never leaves an empty or negative block.",
  "inputs configurations", "every agreed block size and level",
  "Tests use usual block sizes.",
  "src/config.rs src/server/connection_builder.rs " + CC, [("is_block_size_valid", "src/config.rs")],
  "path-sensitive data flow: comparison facts required at every accepting return, for every level still possible")
P("E14", "Encrypted files: one random nonce, every block authenticated, the end sealed",
  "When a file is encrypted for storage, a random nonce is used and written after the block size at the start; a block is sealed as the last exactly when it is not full, and success is reported only if the cipher succeeded. "
  "When it is restored, block size and nonce are taken from there and only data that was successfully decrypted is written.",
  "inputs faults", "every file length, block size and stored content",
  "Tests round-trip a few hundred bytes.",
  "src/readers/encrypted_stream_reader.rs src/writers/encrypted_stream_writer.rs " + EN, [("StreamEncryptor::encrypt", EN), ("StreamReader::read", "src/readers/encrypted_stream_reader.rs"), ("StreamWriter::write", "src/writers/encrypted_stream_writer.rs")],
  "path-sensitive data flow: symbolic layout of the first block, cipher typestate before writes")
P("E15", "Both sides of a key exchange arrive at the same key",
  "The key of every encryptor is, unaltered, what Diffie-Hellman yields for the own private key and the other side's public key; the public key handed out with it is that of the private key used. A key pair's public key is "
  "that of its private key; a session's private key is fresh from the random source, an authentication key the configured one.",
  "inputs configurations", "every pair of keys",
  "Tests exchange a few keys; a key both sides weaken alike passes them.",
  EN, [("finalize", EN), ("create_session_keys", EN), ("create_auth_keys", EN)],
  "data flow to every constructor of Encryptor and of the key pairs, in the context of its callers, followed through representation changes only")
P("E16", "A request that arrives encrypted is handled, and answered, under its own key",
  "The server opens a request with its configured key and the public key the request carries. If that succeeds, the request handled is the opened one, at level full, and every session made of it starts under the key it was "
  "opened with; if not, the request is taken as it came, without a key and not as fully encrypted. A client with a configured server key seals its request with a key agreed on with that key and sends the public key belonging to it.",
  "inputs configurations", "every request, every configuration of keys",
  "Tests use one configuration per level.",
  "src/server/connection_builder.rs src/client/encryption_socket_builder.rs", [("from_new_connection", "src/server/connection_builder.rs"), ("build_reader", "src/server/connection_builder.rs"), ("create_initial_socket", "src/client/encryption_socket_builder.rs")],
  "path-sensitive typestate at every return of the functions that open a request; data flow into every session made")

CR = "src/client/receiver.rs"
CZ = "src/client/sender.rs"
P("C01", "Only the server's own packets touch a client's transfer",
  "Once the client has got the server's answer, packets that do not come from the endpoint of that answer store nothing, release no block, do not end the transfer and do not prolong its timeout. The answer itself is accepted only "
  "from the configured server's address, and from another port only if the client's configuration allows the port to change.",
  "inputs schedules configurations", "every packet from every source at every point of a transfer, sending and receiving",
  "Tests run a client against one server; no test interleaves packets from other sources with a transfer.",
  CR + " " + CZ + " " + CC, [("receive_file", CR), ("send_file", CZ), ("query_server / wait_for_initial_packet", CC)],
  "path-sensitive data flow: source typestate of the packet at hand before every effect")
P("C02", "A download is reported complete only after its short last block was stored",
  "The client's receive_file returns success only after its block writer accepted a block shorter than the agreed size, waits for nothing after such a block, and returns the sum of the sizes it stored.",
  "inputs schedules faults", "every sequence of packets and answers of the block writer",
  "Tests receive a few files over a loss-free link.",
  CR, [("receive_file", CR)],
  "path-sensitive data flow: comparison facts required at every successful return")
P("C03", "An upload is reported complete only when the server acknowledged every block",
  "The client's send_file hands the number of each received acknowledgement to its block reader, returns success only when the block reader then says that everything was acknowledged, and waits for more packets only if it says otherwise.",
  "inputs schedules", "every sequence of acknowledgements",
  "Tests send a few files over a loss-free link.",
  CZ, [("send_file", CZ)],
  "path-sensitive data flow: typestate of the block reader's answer at every successful return")
P("C04", "An error from the server ends the client's transfer with a failure",
  "After an error packet from the server the client neither stores, releases nor sends anything nor waits for more, and fails. Only the request itself may be repeated, once, without options, after 'illegal operation' or 'undefined', "
  "if no encryption is configured.",
  "inputs schedules", "every error packet at every point of a transfer",
  "Tests send single error packets.",
  CR + " " + CZ + " " + CC, [("receive_file", CR), ("send_file", CZ), ("query_server", CC)],
  "path-sensitive data flow: effects forbidden after a received error")
P("C05", "The client gives up when nothing happens for the request timeout",
  "Before every wait for a packet, the client has checked since its last wait that the time since its last progress does not exceed request_timeout, and fails otherwise. Progress is only a block newly stored (receiving) or an "
  "acknowledgement received (sending); waiting for the answer to a request, nothing renews the time.",
  "inputs schedules", "every sequence of packets and time-outs",
  "Tests wait for a few time-outs of a silent server; none keeps a client busy with useless packets.",
  CR + " " + CZ + " " + CC, [("receive_file", CR), ("send_file", CZ), ("wait_for_initial_packet", CC)],
  "path-sensitive data flow: timer check required between waits; where compared timers are created")
P("C06", "The client's file size limit is enforced over the whole download",
  "The client acknowledges a stored block, or reports a download complete, only after comparing everything stored before plus this block with max_file_size; every stored block is counted; a larger size announced by the server ends the "
  "transfer before data is waited for.",
  "inputs configurations", "every sequence of block sizes, limit and announced size",
  "The limit's tests use one size.",
  CR, [("handle_file_size", CR), ("receive_file", CR)],
  "path-sensitive data flow: arithmetic facts required before acknowledgements; accumulator shape")
P("C07", "The client acknowledges only blocks it has stored",
  "While receiving, the client stores the number and data of one and the same received packet and acknowledges with that number only after its block writer accepted it, or with the number of the last stored block the writer names when it "
  "refuses a repeated or early block. Block 0 is acknowledged only when the server's answer was one with options.",
  "inputs schedules faults", "every sequence of packets, every answer of the block writer",
  "Tests run whole transfers over a loss-free link.",
  CR + " " + CC, [("receive_file", CR), ("write_block", CR), ("query_server", CC)],
  "path-sensitive data flow: typestate of the block writer's answer at every acknowledgement")
P("C08", "Data packets of an upload carry exactly the blocks the block reader gave",
  "While sending a file, the client sends a data packet only when its block reader provided a block, with that block's number in the header, followed by exactly that block's bytes.",
  "inputs schedules", "every sequence of acknowledgements, repeats and reads",
  "Tests compare whole files after loss-free transfers.",
  CZ, [("send_file", CZ)],
  "path-sensitive data flow: packet contents correlated with the block reader's answer")
P("C09", "The client leaves data unanswered only inside a window",
  "While receiving, the client answers every data packet it handled with an acknowledgement unless the window is larger than one, the block does not complete the window since the last acknowledgement, and the block is a full one; the last "
  "block is always acknowledged before success is reported.",
  "inputs schedules", "every sequence of packets, every window size",
  "Tests use a few windows over a loss-free link, where a missing answer only slows the transfer down.",
  CR, [("receive_file", CR)],
  "path-sensitive data flow: facts required wherever an answer is left out")
P("C10", "The client repeats what stays unanswered",
  "Before each wait for a server's answer the client sends its request, and the wait is limited. In an upload it looks for a block to send before each wait, asks the block reader to repeat exactly when more than the retry time has "
  "passed since it last sent a block, and renews that time only by sending one.",
  "histories schedules", "every loss of requests, answers, blocks and acknowledgements",
  "Tests lose no packets.",
  "src/client/connection.rs " + CZ, [("wait_for_initial_packet", "src/client/connection.rs"), ("send_file", CZ)],
  "typestate between waits, data flow into the retry argument, provenance of the instant compared")
P("N01", "The server uses requested values within its limits and never others",
  "The block size, window size and retry timeout the server uses for a session are its defaults unless the request asks for the option; a number asked for that lies between 512, 1 and 1 and the configured max_block_size, max_window_size "
  "and request_timeout is used as it is; above it, block size and window become the configured maximum; anything else changes nothing.",
  "inputs configurations", "every option value, every configured maximum",
  "Tests try a few values around a few maxima.",
  SX + " " + SH, [("parse_extensions", SX), ("handle_packet", SH)],
  "path-sensitive data flow: the negotiated value's origin and the bounds known on every accepting path")
P("N02", "The server confirms exactly the options it uses",
  "Block size, window size, timeout and transfer size appear in the server's answer if and only if the session uses the client's value, and then with the value the session uses. A session starts only after the answer with these options "
  "was sent, or (no option in use) without one; a plain acknowledgement answers a request only if no option is in use; no session starts after an answer that could not be sent; what was negotiated is what the session keeps.",
  "inputs configurations faults", "every request and configuration, sending failing or not",
  "Tests compare a few answers to a few requests.",
  SX + " " + SH + " " + SC, [("parse_extensions", SX), ("accept_connection", SH), ("with_request", SC)],
  "path-sensitive data flow: option map entries correlated with the options returned on every path")
P("N03", "The client uses what the server confirmed, and only what it asked for",
  "The client goes on with confirmed options only if each of them is one it asked for, and then uses the confirmed numbers, which must be at least 512 (block size), 1 (window) and 1 (timeout) and, for block size and window, at most what it "
  "asked for; it fails otherwise. An unconfirmed block size is 512 and an unconfirmed window is 1.",
  "inputs configurations", "every answer a server may give to every request",
  "Tests try a few answers.",
  CX + " " + CC, [("validate_extensions", CX), ("parse_extensions", CX), ("query_server", CC)],
  "path-sensitive data flow: value origins and bounds on accepting paths; subset check decided from its iteration")
P("N04", "A client asks for the options it is configured with",
  "The client's request contains the configured block size, window size and encryption level, and the retry timeout (in whole seconds, if at least one), whenever they differ from the defaults, and a known transfer size, each with the configured value.",
  "configurations", "every client configuration",
  "Tests check a few configurations.",
  CX, [("create_extensions", CX)],
  "path-sensitive data flow: entries required on every path unless a fact says the value is the default")
P("N05", "A download request is told the size of the file as it was reported",
  "If a download request asks for the transfer size, the options the server confirms contain the size its create-reader callback reported, spelled out unchanged (an empty file included), and none if the callback reported none; a request that did not ask is told no size. The session's own transfer size is what the callback reported.",
  "inputs configurations", "every request, every reported size",
  "Tests download one file of one size.",
  "src/server/connection_builder.rs", [("build_reader", "src/server/connection_builder.rs")],
  "path-sensitive typestate: the state of the transfer-size entry at every successful return of build_reader, against the value the callback returned and what the path knows about it")

SV, SG = "src/server/multi_thread.rs src/server/single_thread.rs", "src/server/helpers/connection.rs"
P("S01", "The server never has more than max_connections sessions",
  "No file is opened for a request and no session is added unless, after that request was received, the server has fewer sessions than the configured maximum number of connections. This holds for the multi-threaded and the single-threaded server.",
  "histories configurations", "every order of requests, sessions starting and ending",
  "The tests make one or two connections.",
  f"{SV}", [("server", SV.split()[0]), ("server", SV.split()[1])],
  "path-sensitive data flow: comparison with the limit before every session's creation")
P("S02", "At most one session per client endpoint, under that endpoint",
  "The server opens files for a request, and adds a session, only if the endpoint the request came from has no session, and files the session under that endpoint. A packet that arrived on the listening socket is never given to an existing session.",
  "histories", "every order of requests and packets from the same and from other endpoints",
  "No test sends a second request from an endpoint that has a session.",
  f"{SV}", [("server", SV.split()[0]), ("server", SV.split()[1])],
  "path-sensitive data flow: absence of the key before every insertion, provenance of handled packets")
P("S03", "Idle, failed and finished sessions end, and only they",
  "A session waits for a packet only if it has neither finished nor failed and its last progress is not longer ago than request_timeout; otherwise it ends (and in the single-threaded server is removed at the next look, at most 10 seconds after the last one). A session that makes progress in time and has neither finished nor failed, and whose socket works, is not ended. Before a session is ended for being idle its client is sent an error.",
  "histories schedules", "every order of packets, timeouts and socket errors",
  "Tests wait for no timeout with most of the options and cannot show that nothing else ends a session.",
  f"{SV} {SG}", [("timeout_client", SG), ("spawn_reader", SV.split()[0]), ("spawn_writer", SV.split()[0]), ("server", SV.split()[1])],
  "path-sensitive typestate of sessions between waits")
P("S04", "Only progress keeps a server session alive",
  "The time of a session's last progress is set only to the present time and only when its block writer has just accepted a new block or its block reader has just released at least one block that was not acknowledged before: repeated, unexpected or foreign packets do not prolong a session.",
  "histories inputs", "every packet sequence",
  "Tests do not measure what duplicated acknowledgements or blocks do to a session's lifetime.",
  f"src/server/helpers/read.rs src/server/helpers/write.rs", [("handle_read", "src/server/helpers/read.rs"), ("handle_write", "src/server/helpers/write.rs")],
  "path-sensitive data flow at every assignment of the session's time")
P("S05", "No request and no session ends the server",
  "Once the server has received its first packet, it returns only the error of its listening socket's receive, and only if that error's kind is not WouldBlock: no request, whatever it contains, and no session's end or failure makes it return.",
  "inputs histories", "every request and session outcome",
  "Tests send a few invalid requests.",
  f"{SV}", [("server", SV.split()[0]), ("server", SV.split()[1])],
  "path-sensitive data flow: origin of every value the server returns")

P("S06", "A session exchanges datagrams with its own client only",
  "A socket the binary makes for a session is handed out only after it was bound to the address it was asked for and connected to the endpoint it was asked for (so that the system drops what others send to it), and the server asks for it with the address the request came from; receiving and sending through the binary's sockets passes the caller's buffer to and from that socket, a session's without naming another destination, and succeeds only with what the system's call returned.",
  "inputs histories", "every datagram, sender and request",
  "Tests have no third party that sends datagrams to a session's port.",
  f"std-binary/src/socket.rs src/server/connection_builder.rs {SV}", [("create_bound_socket", "std-binary/src/socket.rs"), ("build_reader", "src/server/connection_builder.rs"), ("build_writer", "src/server/connection_builder.rs")],
  "typestate of sockets (opened, bound, connected, handed out) and origin of the endpoint a session's socket is asked for with")
P("S07", "No wait for a datagram outlasts what the caller allowed",
  "Every socket the binary hands out does not block when read; every wait of its receive functions is given a limit, at most the one its caller gave (zero when it gave none), and interest in the socket is renewed before the wait, so that a datagram that arrives ends it.",
  "schedules", "every moment at which datagrams arrive or fail to",
  "Tests of the sockets use one kind of socket and a handful of limits; a wait without a limit shows only when packets are lost.",
  "std-binary/src/socket.rs", [("recv", "std-binary/src/socket.rs"), ("recv_from", "std-binary/src/socket.rs"), ("create_socket", "std-binary/src/socket.rs")],
  "typestate of sockets and origin of the limit of every wait")

PK = "src/packet.rs"
P("P01", "Packet kinds and error codes have their RFC numbers on the wire",
  "Every packet is written starting with the two byte big endian opcode RFC 1350/2347 give its kind (1 read request to 6 option acknowledgement) and bytes are read as a packet of a kind only if they start with that opcode; error codes are written as, and read from, exactly their RFC numbers 0 to 7, and any other opcode or error number is refused.",
  "inputs", "every packet and every byte string",
  "Tests encode and decode a few packets of some kinds with this implementation on both sides, where a wrong number used consistently goes unnoticed.",
  PK, [("Packet", PK), ("PacketType", PK), ("ErrorCode", PK), ("prepend_data_header", PK)],
  "path-sensitive data flow: numbers written and compared per packet kind, against the RFC tables")
P("P02", "Option, mode and level names mean the same written and read",
  "Each option, transfer mode and encryption level is written as one name of its own (blksize, timeout, tsize, windowsize and octet as the RFCs have them), that name is read back as the same option, mode or level, and no text that was not compared equal to a known name is read as any.",
  "inputs", "every text and every variant",
  "Tests use a handful of names, most of them on both sides of the same table.",
  f"{PK} src/encryption.rs", [("Extension::as_str", PK), ("Mode::as_str", PK), ("EncryptionLevel", "src/encryption.rs")],
  "extraction and comparison of the two tables from all paths of writer and reader")
P("P03", "Packets are read as they were written",
  "For every packet kind the written parts are those of the RFC, each directly after the one before, texts closed by one zero byte, options as name and value pairs, and the size reported is where they end; reading takes every part from exactly where it is written: texts from their start to the first zero byte, the payload to the end of the packet, and keeps every known option up to the packet's end.",
  "inputs", "every packet and every byte string",
  "Tests encode and decode a few packets; names, messages and options of other lengths, positions and numbers are not tried.",
  f"{PK} src/buffer.rs", [("Packet", PK), ("RequestPacket", PK), ("OptionalAck", PK), ("ErrorPacket", PK), ("write_bytes", "src/buffer.rs")],
  "symbolic layout: linear positions of every write, least fixed point of offsets over slices read")

P("P04", "No received bytes can make decoding panic",
  "Decoding a packet, decrypting a packet, removing padding, decoding keys and signatures, and reading the options of a request or of an acknowledgement never panic, whatever bytes were received and however few: every index and slice bound is inside what was received, no subtraction underflows, no sum overflows, no value is unwrapped that may be missing.",
  "inputs configurations", "every byte string handed to the decoders, every length from zero, in the std, no_std encrypted and no_std builds",
  "Tests decode well formed packets and a few malformed ones.",
  f"{PK} {EN} {EP} src/buffer.rs {SX} {CX}", [("Packet::from_bytes", PK), ("Encryptor::decrypt", EN), ("remove_bit_padding", EN), ("InitialPacket::from_bytes", EP), ("SliceExt", "src/buffer.rs")],
  "linear arithmetic (Fourier-Motzkin) over path facts: bounds and overflow obligations of every reachable site")

BM = "src/block_mapper.rs"
P("P05", "Block numbers are block indexes modulo 65536",
  "BlockMapper::block gives the index modulo 65536 for every index; BlockMapper::index gives an index that is the received number modulo 65536, in every state of its counters.",
  "inputs histories", "every 64 bit index, every number, every sequence of earlier numbers",
  "Tests try some twenty numbers around two rollovers.",
  BM, [("BlockMapper::block", BM), ("BlockMapper::index", BM)],
  "symbolic evaluation of every path to a polynomial, compared in the ring of integers modulo 65536")
BR = "std-binary/src/blocking_reader.rs"
KM = "src/key_management.rs"
BC = "std-binary/src/config.rs"
EI = "std-binary/src/encryption_io.rs"
P("L01", "A file sent while it is written ends only when its writer is done",
  "The reader for files that are still being written gives fewer bytes than asked for (or none) only when it knew, before reading, that the file was complete. When it asks to be called again instead, it has kept every "
  "byte it read; the kept bytes come first in the next read, are counted, and are given only once.",
  "inputs schedules histories", "every interleaving of the file's writer, its end and the reader; every size of the pieces written",
  "The unit test follows one sequence of two byte pieces in a single thread.",
  BR, [("BlockingReader::read", BR)],
  "path-sensitive data flow: a short count requires the completion flag loaded before the read; kept bytes as a typestate")
P("L02", "A known host's key comes from the line of exactly that host",
  "The key looked up in a known hosts file is decoded only from a line whose first word equals the asked endpoint as a whole; no other line's key is taken for it.",
  "inputs configurations", "every known hosts file and endpoint",
  "The test's file has one entry; none where one host's name is a part of another's.",
  KM, [("get_from_known_hosts", KM)],
  "path-sensitive data flow: equality of a part of the same line required where the key is decoded")
P("L03", "A recorded host key is never replaced, and only recorded for its host",
  "After a transfer the client adds the server's key to its known hosts file only if the file was asked about the same endpoint and gave no key for it (or cannot be read); it is added at the end of the file, which is not truncated, "
  "under the configured endpoint, and is the key the transfer reported.",
  "inputs configurations histories", "every known hosts file, endpoint and transfer",
  "No test reads a known hosts file back after transfers.",
  EI, [("handle_hosts_file", EI), ("start_send", "std-binary/src/sender.rs"), ("start_receive", "std-binary/src/receiver.rs")],
  "path-sensitive data flow: typestate of the lookup's answer, open-mode flags, provenance of key and name")
P("L04", "Command line settings reach the library unchanged",
  "The server's and client's configuration and the transfer's options built from the command line hold, in each field, the setting of that name: limits, sizes and switches unchanged, durations in milliseconds, the named "
  "encryption level. A key (private key, authorized keys, server key or known host, file key) is present whenever it is configured, and comes from that setting; a key that cannot be read is an error, never silently left out. Full encryption is "
  "required by default exactly if authorized keys are configured, and errors go to authorized clients only by default exactly if full encryption is required.",
  "configurations", "every combination of command line settings in every feature configuration",
  "Tests build configurations by hand or with one set of arguments.",
  BC, [("ServerCliConfig::try_into", BC), ("ClientCliConfig::try_into", BC)],
  "data flow from each setting to the field of its name, per path over which settings are present")
P("L05", "With a file key configured, files leave and arrive only through the cipher",
  "The command line client sends and receives a file with the encrypting reader or writer made from exactly the configured file key whenever one is configured, and without it only when none is.",
  "configurations", "every combination of settings, sending and receiving, with and without known hosts",
  "Tests encrypt with one configuration.",
  EI, [("start_send", "std-binary/src/sender.rs"), ("start_receive", "std-binary/src/receiver.rs")],
  "path-sensitive data flow: presence of the key correlated with the wrapper given to the transfer")
P("L06", "A watched directory's files are sent complete and under their own names",
  "While a directory is watched, the file a change starts the sending of is the one that changed, its remote name is its path below the watched directory; it is sent when its writer has closed it, or at its creation with a reader that waits for the flag kept for that file; a flag is set only when the writer of that file has closed it; and the watching ends only when there are no more events, not because of a file or an event.",
  "histories schedules", "every order of creations, writes and closes",
  "The program's tests watch no directory.",
  "std-binary/src/sync.rs", [("start_sync", "std-binary/src/sync.rs"), ("get_paths", "std-binary/src/sync.rs")],
  "path-sensitive data flow: origin of the names and of the flag, kind of event known at every start of a sending")
N("X01", "Late packets from before a block number rollover are never misplaced",
  "After the 16 bit block number wraps around, a packet is assigned the index its sender meant, however long it was delayed.",
  "histories schedules", "every delay and order of packets around rollovers",
  "Tests do not delay packets by tens of thousands of blocks.",
  BM, [("BlockMapper::index", BM)],
  "The meaning of a 16 bit number depends on how old the packet is, which no bound in the code limits; whether the two counters of BlockMapper stay right is a relation over whole histories of numbers. What is static about it (numbers are indexes modulo 65536) is P05.")
N("X02", "A completed transfer's file equals the source byte for byte",
  "Whatever is lost, repeated or reordered on the network, a transfer that both sides report as successful leaves a copy equal to the source.",
  "schedules histories", "every loss, repetition and reordering",
  "Tests run over a perfect loopback network.",
  "src/client/sender.rs src/client/receiver.rs src/server/helpers/read.rs src/server/helpers/write.rs", [("handle_write", WR), ("handle_read", RD)],
  "The composition of two state machines over a lossy channel needs model checking; each side's local obligations from which it follows (R01-R06, W01-W06, C02, C03, C07-C09) are decided here.")
N("X03", "Every transfer between live peers ends",
  "If packets get through often enough, every transfer completes or fails within bounded time.",
  "schedules", "every fair network",
  "Tests cannot wait for all schedules.",
  "src/server/multi_thread.rs src/server/single_thread.rs src/client/sender.rs src/client/receiver.rs", [("server", SV.split()[0])],
  "Liveness under fairness assumptions about network and scheduler; the static part (no wait without a timeout check) is S03 and C05.")
N("X04", "The last acknowledgement of an upload is repeated when it was lost",
  "A server that stored the last block of an upload answers a repetition of that block even after the session ended.",
  "schedules", "loss of the last acknowledgement",
  "Tests lose no packets.",
  f"{SV} {WR}", [("handle_write", WR)],
  "songokas/tftp does not promise this (a finished session ends at once, and RFC 1350 only encourages dallying), so there is nothing to hold.")
N("X05", "The sending rate follows what the network accepts",
  "The client's and server's pacing converges to the rate at which packets are acknowledged and never starves a transfer.",
  "schedules", "every network behaviour",
  "Tests check single steps of the arithmetic.",
  "src/flow_control.rs src/server/wait_control.rs", [("RateControl", "src/flow_control.rs")],
  "Quantifies over measured times and counts; floating point and feedback over time are beyond a sound static argument.")
N("X06", "Every session gets its share of a single-threaded server",
  "The single-threaded server receives from and sends to every session infinitely often.",
  "schedules", "every load",
  "Tests have one or two clients.",
  "src/server/single_thread.rs", [("server", "src/server/single_thread.rs")],
  "Fairness of index arithmetic over a map that changes between iterations; a liveness property.")
N("X07", "The cryptography keeps contents secret from the network",
  "Without the keys nothing about a fully encrypted transfer's contents or names can be learnt.",
  "inputs", "every observer",
  "Tests cannot show secrecy.",
  "src/encryption.rs src/encrypted_packet.rs", [("encrypt", "src/encryption.rs")],
  "A property of XChaCha20-Poly1305, X25519 and Ed25519, not of this code; that they are used at every send, with fresh nonces and the right keys is decided (E01-E14).")
