"""S06, S07: the system's sockets."""
SO = "std-binary/src/socket.rs"
CB = "src/server/connection_builder.rs"
ST = "src/server/single_thread.rs"
CONNECT = "    socket.connect(endpoint).map_err(from_io_err)?;\n"
BIND = "    socket.bind(&listen.into()).map_err(from_io_err)?;\n"
NB = "    socket.set_nonblocking(true).map_err(from_io_err)?;\n    socket.connect(endpoint)"
WAIT = """        self.poller
            .wait(&mut self.events, wait_for.or_else(|| Duration::ZERO.into()))
            .map_err(from_io_err)?;
"""
BWAIT = """            self.poller
                .wait(&mut self.events, d.into())
                .map_err(from_io_err)?;
"""
BREARM = """            self.poller
                .modify(&self.socket, Event::readable(self.socket_id))
                .map_err(from_io_err)?;
"""
RECV = "        self.socket.recv(buff).map_err(from_io_err)\n"
SEND = "        self.socket.send(buff).map_err(from_io_err)\n"
BUILD = """    let socket = UdpBoundSocket {
        socket,
        poller,
        socket_id,
"""
BSTRUCT = "pub struct UdpBoundSocket {\n    socket: UdpSocket,\n"
BNEW = """    let poller = Poller::new().map_err(from_io_err)?;
    unsafe {
        poller
            .add(&socket, Event::readable(socket_id))
            .map_err(from_io_err)?;
    }
    let socket = UdpBoundSocket {
        socket,
        poller,
        socket_id,
        // TODO alloc in stack
        events: Events::with_capacity(NonZeroUsize::new(1).unwrap()),
    };
    Ok(socket)
}
"""
UNEW = """    let socket = Socket2::new(
        Domain::for_address(endpoint),
        Type::DGRAM,
        Protocol::UDP.into(),
    )
    .map_err(from_io_err)?;

    #[cfg(not(target_family = "windows"))]
    socket.set_reuse_address(true).map_err(from_io_err)?;
    #[cfg(not(target_family = "windows"))]
    socket.set_reuse_port(true).map_err(from_io_err)?;

    socket.bind(&listen.into()).map_err(from_io_err)?;

    let socket: UdpSocket = socket.into();
    socket.set_nonblocking(true).map_err(from_io_err)?;
    socket.connect(endpoint)"""
RASK = """            listen.set_port(0);
        }
        let new_socket = match create_bound_socket(listen, self.socket_id, client) {"""
READ = """                                .build_reader(
                                    &socket,
                                    from_client,
"""
ASK = "create_bound_socket(listen, self.socket_id, client) {"
PR = "src/readers/pool_reader.rs"


def maker(kind):
    return {"Multi": "reader: MultipleBlockReader<R>,\n        pool: &'a RefCell<MultiBlockReaders<R>>,\n    ) -> Option<Self> {\n",
            "Single": "reader: SingleBlockReader<R>,\n        pool: &'a RefCell<SingleBlockReaders<R>>,\n    ) -> Option<Self> {\n"}[kind]


FIND = """        let index = {
            let p = pool.borrow();
            (0..u16::MAX).find(|k| !p.contains_key(k))?
        };
"""
PUT = """        if pool.borrow_mut().insert(index, reader).is_err() {
            return None;
        }
"""
MM = maker("Multi") + FIND + PUT + "        Self::Multi(index, pool).into()\n"


def use(kind, m):
    b = "borrow" if m == "is_finished" else "borrow_mut"
    g = "get" if m == "is_finished" else "get_mut"
    a = {"is_finished": "", "free_block": "block", "next": "buffer, retry"}[m]
    return f"""            Self::{kind}(i, s) => s
                .{b}()
                .{g}(i)
                .expect("reader does not exist")
                .{m}({a}),
"""


SY = "std-binary/src/sync.rs"
CLOSE = """            (Ok(event), false)
                if matches!(
                    event.kind,
                    EventKind::Access(AccessKind::Close(AccessMode::Write))
                ) =>
"""
DONE = CLOSE.replace("false", "true")
DELAY = "                        |f| create_delayed_reader(f, finished.clone()),\n"
PENDING = """                paths_pending.insert(local_path.clone(), finished.clone());
"""
FLAG = "                    f.store(true, Ordering::Relaxed);\n"
CREATE = "(Ok(event), true) if matches!(event.kind, EventKind::Create(CreateKind::File)) => {"
PATHS = "let Some((local_path, _)) = get_paths(&event.paths, &sync_dir) else {"


MUTANTS = [
    ("s06-no-connect", ["S06"], [(SO, CONNECT, "")]),
    ("s06-connect-optional", ["S06"], [(SO, CONNECT, "    if let Err(e) = socket.connect(endpoint) {\n        warn!(\"not connected {e}\");\n    }\n")]),
    ("s06-connect-public-only", ["S06"], [(SO, CONNECT, "    if !endpoint.ip().is_loopback() {\n        socket.connect(endpoint).map_err(from_io_err)?;\n    }\n")]),
    ("s06-unconnected", ["S06"], [(SO, CONNECT, ""), (SO, BUILD, BUILD + "        endpoint,\n"), (SO, BSTRUCT, BSTRUCT + "    endpoint: SocketAddr,\n"),
                                  (SO, RECV, "        self.socket.recv_from(buff).map(|(n, _)| n).map_err(from_io_err)\n"),
                                  (SO, SEND, "        self.socket.send_to(buff, self.endpoint).map_err(from_io_err)\n")]),
    ("s06-bind-any-port", ["S06"], [(SO, BIND, "    socket.bind(&SocketAddr::new(listen.ip(), 0).into()).map_err(from_io_err)?;\n")]),
    ("s06-second-socket", ["S06"], [(SO, CONNECT, CONNECT + "    let socket = UdpSocket::bind(listen).map_err(from_io_err)?;\n")]),
    ("s06-peek", ["S06"], [(SO, RECV, "        self.socket.peek(buff).map_err(from_io_err)\n")]),
    ("s06-recv-twice", ["S06"], [(SO, RECV, "        self.socket.recv(buff).map_err(from_io_err)?;\n        Ok(buff.len())\n")]),
    ("s06-send-nothing", ["S06"], [(SO, SEND, "        match self.socket.send(buff) {\n            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(buff.len()),\n            r => r.map_err(from_io_err),\n        }\n")]),
    ("s06-ask-port", ["S06"], [(CB, RASK, RASK.replace("client)", "SocketAddr::new(client.ip(), client.port().max(1024)))"))]),
    ("s06-ask-listen", ["S06"], [(ST, READ, READ.replace("from_client", "config.listen"))]),
    ("s07-blocking", ["S07"], [(SO, NB, "    socket.connect(endpoint)")]),
    ("s07-blocking-main", ["S07"], [(SO, "    socket.set_nonblocking(true).map_err(from_io_err)?;\n\n", "    if _reuse {\n        socket.set_nonblocking(true).map_err(from_io_err)?;\n    }\n\n")]),
    ("s07-wait-forever", ["S07"], [(SO, WAIT, WAIT.replace("wait_for.or_else(|| Duration::ZERO.into())", "wait_for"))]),
    ("s07-wait-forever-zero", ["S07"], [(SO, WAIT, WAIT.replace("wait_for.or_else(|| Duration::ZERO.into())", "wait_for.filter(|d| !d.is_zero())"))]),
    ("s07-wait-second", ["S07"], [(SO, WAIT, WAIT.replace("Duration::ZERO.into()", "Duration::from_secs(1).into()"))]),
    ("s07-bound-wait-max", ["S07"], [(SO, BWAIT, BWAIT.replace("d.into()", "d.max(Duration::from_millis(100)).into()"))]),
    ("s07-bound-forever", ["S07"], [(SO, BWAIT, BWAIT.replace("d.into()", "None"))]),
    ("s07-no-rearm", ["S07"], [(SO, BREARM, "")]),
    ("s07-no-rearm-main", ["S07"], [(SO, "        self.modify_interest(self.socket_id(), self.as_raw_fd())?;\n", "")]),
    ("q-s06-new", [], [(SO, BNEW, """    UdpBoundSocket::new(socket, socket_id)
}

impl UdpBoundSocket {
    fn new(socket: UdpSocket, socket_id: usize) -> BoxedResult<Self> {
        let poller = Poller::new().map_err(from_io_err)?;
        unsafe {
            poller
                .add(&socket, Event::readable(socket_id))
                .map_err(from_io_err)?;
        }
        Ok(Self {
            events: Events::with_capacity(NonZeroUsize::new(1).unwrap()),
            socket,
            poller,
            socket_id,
        })
    }
}
""")]),
    ("q-s06-helper", [], [(SO, UNEW, "    let socket = udp(Domain::for_address(endpoint), listen)?;\n    socket.connect(endpoint)"),
                          (SO, "pub struct UdpBoundSocket {", """fn udp(domain: Domain, listen: SocketAddr) -> BoxedResult<UdpSocket> {
    let socket = Socket2::new(domain, Type::DGRAM, Protocol::UDP.into()).map_err(from_io_err)?;
    #[cfg(not(target_family = "windows"))]
    socket.set_reuse_address(true).map_err(from_io_err)?;
    #[cfg(not(target_family = "windows"))]
    socket.set_reuse_port(true).map_err(from_io_err)?;
    socket.set_nonblocking(true).map_err(from_io_err)?;
    socket.bind(&listen.into()).map_err(from_io_err)?;
    Ok(socket.into())
}

pub struct UdpBoundSocket {""")]),
    ("q-s06-connect-early", [], [(SO, CONNECT, ""), (SO, BIND, BIND + "    socket.connect(&endpoint.into()).map_err(from_io_err)?;\n")]),
    ("q-s06-match", [], [(SO, CONNECT, "    match socket.connect(endpoint) {\n        Ok(()) => debug!(\"connected\"),\n        Err(e) => return Err(from_io_err(e).into()),\n    }\n")]),
    ("q-s06-is-err", [], [(SO, CONNECT, "    let connected = socket.connect(endpoint);\n    if connected.is_err() {\n        return Err(connected.map_err(from_io_err).unwrap_err().into());\n    }\n")]),
    ("q-s06-recv-trace", [], [(SO, RECV, "        let size = self.socket.recv(buff).map_err(from_io_err)?;\n        trace!(\"received {size}\");\n        Ok(size)\n"),
                              (SO, SEND, "        match self.socket.send(&buff[..]) {\n            Ok(n) => Ok(n),\n            Err(e) => Err(from_io_err(e)),\n        }\n")]),
    ("q-s06-endpoint-local", [], [(CB, "        let mut listen = self.config.listen;\n        if self.config.require_server_port_change {\n            listen.set_port(0);\n        }\n        let new_socket = match " + ASK,
                                   "        let endpoint = client;\n        let mut listen = self.config.listen;\n        if self.config.require_server_port_change {\n            listen.set_port(0);\n        }\n        let id = self.socket_id;\n        let new_socket = match create_bound_socket(listen, id, endpoint) {")]),
    ("q-s07-match", [], [(SO, WAIT, """        let timeout = match wait_for {
            Some(d) => d,
            None => Duration::ZERO,
        };
        self.poller
            .wait(&mut self.events, Some(timeout))
            .map_err(from_io_err)?;
""")]),
    ("q-s07-unwrap-or", [], [(SO, WAIT, WAIT.replace("wait_for.or_else(|| Duration::ZERO.into())", "Some(wait_for.unwrap_or_default())"))]),
    ("q-s07-or", [], [(SO, WAIT, WAIT.replace("wait_for.or_else(|| Duration::ZERO.into())", "wait_for.or(Some(Duration::ZERO))"))]),
    ("q-s07-min", [], [(SO, BWAIT, BWAIT.replace("d.into()", "Some(d.min(Duration::from_secs(60)))"))]),
    ("q-s07-is-some", [], [(SO, "        if let Some(d) = wait_for {\n", "        if wait_for.is_some() {\n"), (SO, BWAIT, BWAIT.replace("d.into()", "wait_for"))]),
    ("q-s07-rearm-helper", [], [(SO, BREARM + "            self.events.clear();\n", "            self.events.clear();\n            self.rearm()?;\n"), (SO, "impl BoundSocket for UdpBoundSocket {", """impl UdpBoundSocket {
    fn rearm(&self) -> io::Result<()> {
        let event = Event::readable(self.socket_id);
        self.poller.modify(&self.socket, event).map_err(from_io_err)
    }
}

impl BoundSocket for UdpBoundSocket {""")]),
    ("r10-len-index", ["R10"], [(PR, MM, MM.replace(FIND, "        let index = pool.borrow().len() as u16;\n"))]),
    ("r10-find-present", ["R10"], [(PR, MM, MM.replace("!p.contains", "*k > 0 || p.contains"))]),
    ("r10-insert-ignored", ["R10"], [(PR, MM, MM.replace(PUT, "        let _ = pool.borrow_mut().insert(index, reader);\n"))]),
    ("r10-first", ["R10"], [(PR, MM, MM.replace("Self::Multi(index", "Self::Multi(0"))]),
    ("r10-next-index", ["R10"], [(PR, MM, MM.replace("insert(index,", "insert(index % 64,"))]),
    ("r10-free-other", ["R10"], [(PR, use("Multi", "free_block"), use("Multi", "free_block").replace("free_block(block)", "free_block(block.wrapping_add(1))"))]),
    ("r10-get-first", ["R10"], [(PR, use("Seek", "next"), use("Seek", "next").replace("get_mut(i)", "get_mut(&0)"))]),
    ("r10-no-retry", ["R10"], [(PR, use("Multi", "next"), use("Multi", "next").replace("retry)", "false)"))]),
    ("r10-finished-never", ["R10"], [(PR, use("Seek", "is_finished"), "            Self::Seek(_, _) => false,\n")]),
    ("r10-finished-not", ["R10"], [(PR, use("Seek", "is_finished"), use("Seek", "is_finished").replace(".is_finished(),", ".is_finished() || s.borrow().len() > 1,"))]),
    ("r10-drop-nothing", ["R10"], [(PR, "            Self::Seek(i, s) => {\n                s.borrow_mut().remove(i);\n            }\n", "            Self::Seek(_, _) => (),\n")]),
    ("r10-drop-clear", ["R10"], [(PR, "            Self::Seek(i, s) => {\n                s.borrow_mut().remove(i);\n            }\n", "            Self::Seek(i, s) => {\n                s.borrow_mut().remove(i);\n                s.borrow_mut().retain(|k, _| k < i);\n            }\n")]),
    ("q-r10-loop", [], [(PR, MM, MM.replace(FIND, """        let mut index = 0;
        while pool.borrow().contains_key(&index) {
            index += 1;
        }
"""))]),
    ("q-r10-for", [], [(PR, MM, MM.replace(FIND, """        let mut free = None;
        for k in 0..u16::MAX {
            if !pool.borrow().contains_key(&k) {
                free = Some(k);
                break;
            }
        }
        let index = free?;
"""))]),
    ("q-r10-match", [], [(PR, MM, MM.replace(PUT, "").replace("        Self::Multi(index, pool).into()\n", """        match pool.borrow_mut().insert(index, reader) {
            Ok(_) => Some(Self::Multi(index, pool)),
            Err(_) => None,
        }
"""))]),
    ("q-r10-ok", [], [(PR, MM, MM.replace(PUT, "        pool.borrow_mut().insert(index, reader).ok()?;\n"))]),
    ("q-r10-get", [], [(PR, MM, MM.replace("!p.contains_key(k)", "p.get(k).is_none()"))]),
    ("q-r10-helper", [], [(PR, MM, MM.replace(FIND, "        let index = free_index(&pool.borrow())?;\n")), (PR, "pub enum PoolReader", """fn free_index<V, const N: usize>(pool: &Map<u16, V, N>) -> Option<u16> {
    (0..u16::MAX).find(|k| !pool.contains_key(k))
}

pub enum PoolReader""")]),
    ("q-r10-wrap", [], [(PR, MM, MM.replace("        Self::Multi(index, pool).into()\n", "        Some(Self::multi(index, pool))\n    }\n\n    fn multi(index: u16, pool: &'a RefCell<MultiBlockReaders<R>>) -> Self {\n        Self::Multi(index, pool)\n"))]),
    ("q-r10-let", [], [(PR, use("Multi", "next"), """            Self::Multi(index, pool) => {
                let mut readers = pool.borrow_mut();
                let Some(reader) = readers.get_mut(index) else {
                    panic!("reader does not exist");
                };
                let block = reader.next(buffer, retry)?;
                Ok(block)
            }
""")]),
    ("l06-close-any", ["L06"], [(SY, CLOSE, CLOSE.replace("Close(AccessMode::Write)", "Close(_)"))]),
    ("l06-create-any", ["L06"], [(SY, CREATE, CREATE.replace("CreateKind::File", "_"))]),
    ("l06-done-modify", ["L06"], [(SY, DONE, DONE.replace("EventKind::Access(AccessKind::Close(AccessMode::Write))", "EventKind::Access(AccessKind::Close(_))"))]),
    ("l06-direct-reader", ["L06"], [(SY, DELAY, "                        create_reader,\n"), (SY, PENDING, "                paths_pending.insert(local_path.clone(), finished);\n"), (SY, "use crate::blocking_reader::create_delayed_reader;\n", "")]),
    ("l06-new-flag", ["L06"], [(SY, PENDING, "                paths_pending.insert(local_path.clone(), Arc::new(AtomicBool::new(false)));\n")]),
    ("l06-pending-remote", ["L06"], [(SY, PENDING, "                paths_pending.insert(remote_path.clone(), finished.clone());\n")]),
    ("l06-flag-false", ["L06"], [(SY, FLAG, FLAG.replace("true", "f.load(Ordering::Relaxed)"))]),
    ("l06-flag-any", ["L06"], [(SY, "if let Some(f) = paths_pending.remove(&local_path) {", "if let Some((_, f)) = paths_pending.iter().next() {")]),
    ("l06-name-only", ["L06"], [(SY, "    let remote_path_str = remote_path.to_string_lossy().to_string();\n", "    let remote_path_str = remote_path\n        .file_name()\n        .unwrap_or_default()\n        .to_string_lossy()\n        .to_string();\n")]),
    ("l06-not-canonical", ["L06"], [(SY, "    let sync_dir = canonicalize(&dir).map_err(|e| BinError::from(e.to_string()))?;\n", "    let sync_dir = PathBuf::from(&dir);\n"), (SY, "use std::fs::canonicalize;\n", "")]),
    ("l06-parent", ["L06"], [(SY, "local_path.strip_prefix(sync_dir)", "local_path.strip_prefix(sync_dir.parent().unwrap_or(sync_dir))")]),
    ("l06-ends", ["L06"], [(SY, PATHS + "\n                    continue;", PATHS + "\n                    break;")]),
    ("l06-error-ends", ["L06"], [(SY, "            _ => continue,\n", "            (Err(e), _) => return Err(BinError::from(e.to_string())),\n")]),
    ("q-l06-if-let", [], [(SY, "                let Some((local_path, remote_path)) = get_paths(&event.paths, &sync_dir) else {\n                    continue;\n                };\n\n                debug!(\"File {local_path} created.", "                let paths = get_paths(&event.paths, &sync_dir);\n                let (local_path, remote_path) = match paths {\n                    None => continue,\n                    Some(p) => p,\n                };\n\n                debug!(\"File {local_path} created.")]),
    ("q-l06-order", [], [(SY, FLAG, FLAG.replace("Relaxed", "Release"))]),
    ("q-l06-get", [], [(SY, "local_paths.first()", "local_paths.get(0)")]),
    ("q-l06-upload", [], [(SY, """                spawn(move || {
                    if let Err(e) = start_send(
                        local_path.clone(),
                        remote_path.into(),
                        sender_config,
                        create_reader,
                        false,
                    ) {
                        error!("Failed to synchronize file {local_path}: {e}");
                    }
                });
""", "                spawn(move || upload(local_path, remote_path, sender_config));\n"), (SY, "fn get_paths(", """fn upload(local_path: String, remote_path: String, config: ClientCliConfig) {
    let sent = start_send(local_path.clone(), Some(remote_path), config, create_reader, false);
    if let Err(e) = sent {
        error!("Failed to synchronize file {local_path}: {e}");
    }
}

fn get_paths(""")]),
    ("q-l06-while", [], [(SY, "    for res in rx {\n", "    while let Ok(res) = rx.recv() {\n")]),
]
