SM = "src/server/multi_thread.rs"
SS = "src/server/single_thread.rs"
HC = "src/server/helpers/connection.rs"
HR = "src/server/helpers/read.rs"
HW = "src/server/helpers/write.rs"
LIMIT_M = """        if handles.len() >= config.max_connections as usize {
            info!(
                "Max connections {} reached. Ignoring connection from {}",
                config.max_connections, from_client
            );
            continue;
        }
"""
LIMIT_S = """                if clients_len >= config.max_connections as usize {
                    info!(
                        "Max connections {} reached. Ignoring connection from {}",
                        config.max_connections, from_client
                    );
                    continue;
                }
"""
HAVE_M = """        if handles.contains_key(&from_client) {
            continue;
        }
"""
HAVE_S = """                        if clients.contains_key(&from_client) {
                            next_client_to_receive = 0;
                            continue;
                        }
"""
INS_M = "        let _ = handles.insert(from_client, handle);\n"
MATCH_M = """                Ok(connection_received) => connection_received,
                Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
                    handles.retain(|_, t| !t.is_finished());
                    continue;
                }
                Err(e) => return Err(e.into()),
            };

        handles.retain(|_, t| !t.is_finished());
"""
SWEEP_S = """            clients.retain(|_, (c, _)| {
                !timeout_client::<B, Rng>(c, config.request_timeout, &mut send_buffer)
            });
"""
TIMER = """    if connection.invalid.is_some() || connection.finished {
        return true;
    }
    if connection.last_updated.elapsed() <= request_timeout {
        return false;
    }
"""
TOLD = """    connection.send_packet(
        Packet::Error(ErrorPacket::new(ErrorCode::AccessViolation, message)),
        buffer,
    );
    true
}
"""
RACC = """            if bytes_freed > 0 {
                connection.last_updated = instant();
"""
MUTANTS = [
    ("s-limit-off", ["S01"], [(SM, "if handles.len() >= config.max_connections as usize", "if handles.len() > config.max_connections as usize")]),
    ("s-limit-off-single", ["S01"], [(SS, "if clients_len >= config.max_connections as usize", "if clients_len > config.max_connections as usize")]),
    ("s-limit-gone", ["S01"], [(SM, LIMIT_M, "")]),
    ("s-limit-late", ["S01"], [(SM, LIMIT_M, ""), (SM, INS_M, LIMIT_M + INS_M)]),
    ("s-limit-write-only", ["S01"], [(SS, "if clients_len >= config.max_connections as usize {", "if clients_len >= config.max_connections as usize && received_length > 4 {")]),
    ("s-limit-other", ["S01"], [(SM, "if handles.len() >= config.max_connections as usize", "if handles.len() >= config.max_block_size as usize")]),
    ("s-limit-stale", ["S01"], [(SS, "    let mut send_buffer = create_max_buffer(config.max_block_size);\n\n    loop {", "    let mut send_buffer = create_max_buffer(config.max_block_size);\n    let mut clients_len = clients.len();\n\n    loop {"), (SS, "        let clients_len = clients.len();\n        let processed_in", "        let processed_in"), (SS, "            timeout_duration = instant();\n        }", "            timeout_duration = instant();\n            clients_len = clients.len();\n        }")]),
    ("s-twice", ["S02"], [(SM, HAVE_M, "")]),
    ("s-handed", ["S02"], [(SS, HAVE_S, "")]),
    ("s-ip-key", ["S02"], [(SM, INS_M, "        let _ = handles.insert(SocketAddr::new(from_client.ip(), 0), handle);\n")]),
    ("s-listen-key", ["S02"], [(SM, INS_M, "        let _ = handles.insert(config.listen, handle);\n")]),
    ("s-have-other", ["S02"], [(SM, HAVE_M, HAVE_M.replace("&from_client", "&config.listen"))]),
    ("s-have-late", ["S02"], [(SM, HAVE_M, ""), (SM, INS_M, HAVE_M + INS_M)]),
    ("s-keep-finished", ["S03"], [(HC, TIMER, TIMER.replace("connection.invalid.is_some() || connection.finished", "connection.invalid.is_some()"))]),
    ("s-keep-invalid", ["S03"], [(HC, TIMER, TIMER.replace("connection.invalid.is_some() || connection.finished", "connection.finished"))]),
    ("s-both", ["S03"], [(HC, TIMER, TIMER.replace("is_some() ||", "is_some() &&"))]),
    ("s-never", ["S03"], [(HC, "    if connection.last_updated.elapsed() <= request_timeout {", "    if connection.last_updated.elapsed() <= request_timeout || connection.transfer > 0 {")]),
    ("s-other-timeout", ["S03"], [(HC, "    if connection.last_updated.elapsed() <= request_timeout {", "    if connection.last_updated.elapsed() <= connection.options.retry_packet_after_timeout {")]),
    ("s-eager", ["S03"], [(HC, "    if connection.last_updated.elapsed() <= request_timeout {", "    if connection.last_updated.elapsed() <= request_timeout && connection.transfer > 0 {")]),
    ("s-silent", ["S03"], [(HC, TOLD, "    true\n}\n")]),
    ("s-silent-some", ["S03"], [(HC, "    connection.send_packet(\n        Packet::Error(ErrorPacket::new(ErrorCode::AccessViolation, message)),\n        buffer,\n    );\n    true\n}", "    if connection.transfer > 0 {\n        connection.send_packet(\n            Packet::Error(ErrorPacket::new(ErrorCode::AccessViolation, message)),\n            buffer,\n        );\n    }\n    true\n}")]),
    ("s-inverted", ["S03"], [(SS, "                !timeout_client::<B, Rng>(c, config.request_timeout, &mut send_buffer)", "                timeout_client::<B, Rng>(c, config.request_timeout, &mut send_buffer)")]),
    ("s-no-sweep", ["S03"], [(SS, SWEEP_S, SWEEP_S.replace("!timeout", "true || !timeout"))]),
    ("s-slow-sweep", ["S03"], [(SS, "Duration::from_secs(2)", "Duration::from_secs(200)")]),
    ("s-reset-timer", ["S03"], [(SS, "            timeout_duration = instant();\n        }", "        }\n        timeout_duration = instant();")]),
    ("s-m-inverted", ["S03"], [(SM, "        handles.retain(|_, t| !t.is_finished());\n\n        trace", "        handles.retain(|_, t| t.is_finished());\n\n        trace")]),
    ("s-m-no-retain", ["S03"], [(SM, MATCH_M, MATCH_M[:MATCH_M.rindex("        handles.retain")])]),
    ("s-m-idle", ["S03"], [(SM, "                    handles.retain(|_, t| !t.is_finished());\n                    continue;", "                    continue;")]),
    ("s-worker-no-timer", ["S03"], [(SM, "                    Err(ref e) if e.kind() == ErrorKind::WouldBlock => {\n                        wait_control.receiver_idle();\n                        continue;", "                    Err(ref e) if e.kind() == ErrorKind::WouldBlock => {\n                        wait_control.receiver_idle();\n                        while connection.recv(&mut receive_buffer, wait_control.wait_for(1)).is_err() {}\n                        continue;")]),
    ("s-worker-gives-up", ["S03"], [(SM, "                    Err(ref e) if e.kind() == ErrorKind::WouldBlock => {\n                        continue;\n                    }\n                    Err(_) => {\n                        return;", "                    Err(_) => {\n                        return;")]),
    ("s-worker-timeout", ["S03"], [(SM, "Readers::Single(r) => spawn_reader(connection, r, instant, config.request_timeout)", "Readers::Single(r) => spawn_reader(connection, r, instant, Duration::from_secs(5))")]),
    ("s-worker-after-one", ["S03"], [(SM, "            handle_read(&mut connection, &mut reader, &mut receive_buffer, instant);\n        }", "            handle_read(&mut connection, &mut reader, &mut receive_buffer, instant);\n            if connection.transfer == 0 {\n                return;\n            }\n        }")]),
    ("s-renew-dup", ["S04"], [(HR, RACC, RACC.replace("if bytes_freed > 0 {\n                connection", "connection").replace("instant();\n", "instant();\n            if bytes_freed > 0 {\n"))]),
    ("s-renew-data", ["S04"], [(HW, "            if let Some(w) = written {\n                connection.last_updated = instant();\n", "            connection.last_updated = instant();\n            if let Some(w) = written {\n")]),
    ("s-server-dies", ["S05"], [(SM, "                Err(ref e) if e.kind() == ErrorKind::WouldBlock => {\n                    handles.retain(|_, t| !t.is_finished());\n                    continue;\n                }\n", "")]),
    ("s-server-dies-handle", ["S05"], [(SM, "            continue;\n        };\n\n        client_socket_id = socket_id;", "            return Err(\"accept\".into());\n        };\n\n        client_socket_id = socket_id;")]),
    ("s-server-dies-build", ["S05"], [(SS, "                    })\n                else {\n                    continue;\n                };", "                    })\n                else {\n                    return Ok(());\n                };")]),
    ("s-server-dies-limit", ["S05"], [(SM, LIMIT_M, LIMIT_M.replace("continue", "break")), (SM, "        gauge!(\"tftp.server.open_connections\").set(handles.len() as f64);\n    }\n}", "        gauge!(\"tftp.server.open_connections\").set(handles.len() as f64);\n    }\n    Ok(())\n}")]),

    ("q-s-limit-helper", [], [(SM, "if handles.len() >= config.max_connections as usize {", "if is_full(&handles, &config) {"), (SM, "fn spawn_reader<", "fn is_full(handles: &Handles, config: &ServerConfig) -> bool {\n    handles.len() >= config.max_connections as usize\n}\n\nfn spawn_reader<")]),
    ("q-s-limit-flip", [], [(SM, "if handles.len() >= config.max_connections as usize {", "let limit = config.max_connections as usize;\n        if !(handles.len() < limit) {")]),
    ("q-s-limit-free", [], [(SS, "if clients_len >= config.max_connections as usize {", "let full = clients_len >= config.max_connections as usize;\n                if full {")]),
    ("q-s-limit-u64", [], [(SM, "if handles.len() >= config.max_connections as usize {", "if handles.len() as u64 >= config.max_connections as u64 {")]),
    ("q-s-have-get", [], [(SM, HAVE_M, "        if handles.get(&from_client).is_some() {\n            continue;\n        }\n")]),
    ("q-s-have-order", [], [(SM, HAVE_M, ""), (SM, LIMIT_M, LIMIT_M + HAVE_M)]),
    ("q-s-entry-match", [], [(SS, "                        if clients.contains_key(&from_client) {", "                        let known = clients.contains_key(&from_client);\n                        if known {")]),
    ("q-s-loop", [], [(SS, """        let client_received = clients.iter_mut().skip(next_client_to_receive).find_map(
            |(client_socket_addr, (connection, _))| {
                next_client_to_receive += 1;
                if socket.notified(&connection.socket) {
                    match connection.recv(&mut receive_buffer, None) {
                        Ok(b) => {
                            if socket
                                .modify_interest(
                                    connection.socket.socket_id(),
                                    connection.socket.as_raw_fd(),
                                )
                                .is_err()
                            {
                                warn!("Unable to modify epoll");
                            }
                            Some((b, *client_socket_addr))
                        }
                        _ => None,
                    }
                } else {
                    None
                }
            },
        );
""", """        let mut client_received = None;
        for (client_socket_addr, (connection, _)) in clients.iter_mut().skip(next_client_to_receive) {
            next_client_to_receive += 1;
            if !socket.notified(&connection.socket) {
                continue;
            }
            if let Ok(b) = connection.recv(&mut receive_buffer, None) {
                if socket
                    .modify_interest(
                        connection.socket.socket_id(),
                        connection.socket.as_raw_fd(),
                    )
                    .is_err()
                {
                    warn!("Unable to modify epoll");
                }
                client_received = Some((b, *client_socket_addr));
                break;
            }
        }
""")]),
    ("q-s-sweep-helper", [], [(SM, MATCH_M, MATCH_M.replace("handles.retain(|_, t| !t.is_finished());", "sweep(&mut handles);")), (SM, "fn spawn_reader<", "fn sweep(handles: &mut Handles) {\n    handles.retain(|_, t| !t.is_finished());\n}\n\nfn spawn_reader<")]),
    ("q-s-sweep-first", [], [(SM, MATCH_M, MATCH_M.replace("                    handles.retain(|_, t| !t.is_finished());\n", "").replace("            };\n\n        handles.retain(|_, t| !t.is_finished());\n", "            };\n")), (SM, "        resize_buffer(&mut receive_buffer, receive_max_buffer_size);\n\n        let received_in = instant();", "        resize_buffer(&mut receive_buffer, receive_max_buffer_size);\n        handles.retain(|_, t| !t.is_finished());\n\n        let received_in = instant();")]),
    ("q-s-sweep-if", [], [(SS, SWEEP_S, """            clients.retain(|_, (c, _)| {
                if timeout_client::<B, Rng>(c, config.request_timeout, &mut send_buffer) {
                    false
                } else {
                    true
                }
            });
""")]),
    ("q-s-timer-split", [], [(HC, TIMER, """    if connection.invalid.is_some() {
        return true;
    }
    if connection.finished {
        return true;
    }
    let idle = connection.last_updated.elapsed();
    if !(idle > request_timeout) {
        return false;
    }
""")]),
    ("q-s-timer-ended", [], [(HC, TIMER, """    let ended = connection.finished || connection.invalid.is_some();
    if ended {
        return true;
    }
    if request_timeout >= connection.last_updated.elapsed() {
        return false;
    }
""")]),
    ("q-s-timer-lt", [], [(HC, "    if connection.last_updated.elapsed() <= request_timeout {", "    if connection.last_updated.elapsed() < request_timeout {")]),
    ("q-s-timer-helper", [], [(HC, "    if connection.invalid.is_some() || connection.finished {\n        return true;\n    }\n    if connection.last", "    if has_ended(connection) {\n        return true;\n    }\n    if connection.last"), (HC, "pub fn timeout_client<", "fn has_ended<B: BoundSocket, Rng: CryptoRng + RngCore + Copy>(\n    connection: &Connection<B, Rng>,\n) -> bool {\n    matches!(connection.invalid, Some(_)) || connection.finished\n}\n\npub fn timeout_client<")]),
    ("q-s-worker-while", [], [(SM, """        loop {
            if timeout_client(&mut connection, request_timeout, &mut send_buffer) {
                return;
            }
            let sent""", """        while !timeout_client(&mut connection, request_timeout, &mut send_buffer) {
            let sent""")]),
    ("q-s-worker-fn", [], [(SM, """    spawn(move || {
        let mut receive_buffer = create_max_buffer(connection.options.block_size);
        let mut send_buffer = create_max_buffer(connection.options.block_size);
        let receive_max_buffer_size = receive_buffer.len();
""", """    spawn(move || {
        let (mut receive_buffer, mut send_buffer) = buffers(connection.options.block_size);
        let receive_max_buffer_size = receive_buffer.len();
"""), (SM, "fn spawn_writer<", "fn buffers(block_size: u16) -> (crate::types::DataBuffer, crate::types::DataBuffer) {\n    (create_max_buffer(block_size), create_max_buffer(block_size))\n}\n\nfn spawn_writer<")]),
    ("q-s-worker-break", [], [(SM, "                    Err(ref e) if e.kind() == ErrorKind::WouldBlock => {\n                        continue;\n                    }\n                    Err(_) => {\n                        return;\n                    }", "                    Err(e) => {\n                        if e.kind() == ErrorKind::WouldBlock {\n                            continue;\n                        }\n                        return;\n                    }")]),
    ("q-s-renew-helper", [], [(HR, RACC, RACC.replace("if bytes_freed > 0 {", "if bytes_freed != 0 {"))]),
    ("q-s-err-match", [], [(SM, "                Err(ref e) if e.kind() == ErrorKind::WouldBlock => {\n                    handles.retain(|_, t| !t.is_finished());\n                    continue;\n                }\n                Err(e) => return Err(e.into()),", "                Err(e) => {\n                    if e.kind() != ErrorKind::WouldBlock {\n                        return Err(e.into());\n                    }\n                    handles.retain(|_, t| !t.is_finished());\n                    continue;\n                }")]),
    ("q-s-err-kinds", [], [(SM, "                Err(ref e) if e.kind() == ErrorKind::WouldBlock => {\n                    handles", "                Err(ref e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::Interrupted) => {\n                    handles")]),
]
