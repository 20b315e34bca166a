"""A plain TFTP client and server starter for the demonstrations (run in the repository's directory)."""
import os, shutil, signal, socket, struct, subprocess, sys, tempfile, time

RRQ, WRQ, DATA, ACK, ERR, OACK = 1, 2, 3, 4, 5, 6


def req(op, name, opts=()):
    b = struct.pack(">H", op) + name.encode() + b"\0octet\0"
    for k, v in opts:
        b += k.encode() + b"\0" + str(v).encode() + b"\0"
    return b


def data(n, d=b""):
    return struct.pack(">HH", DATA, n & 0xffff) + d


def ack(n):
    return struct.pack(">HH", ACK, n & 0xffff)


def op(p):
    return struct.unpack(">H", p[:2])[0] if p else None


def num(p):
    return struct.unpack(">H", p[2:4])[0]


def oack(p):
    f = p[2:].split(b"\0")
    return {f[i].decode(): f[i + 1].decode() for i in range(0, len(f) - 1, 2)}


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="tftp-demo-")
        self.procs = []

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, name, content=b""):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(content)
        return p

    def popen(self, args, **kw):
        out = open(self.path("log%d" % len(self.procs)), "wb")
        p = subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=out, stderr=out, **kw)
        self.procs.append(p)
        return p

    def server(self, *args, binary="./target/tftp", directory="srv"):
        os.makedirs(self.path(directory), exist_ok=True)
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.bind(("127.0.0.1", 0))
        port = s.getsockname()[1]
        s.close()
        self.proc = self.popen([binary, "--verbosity", "debug", "server", f"127.0.0.1:{port}", self.path(directory), *args])
        for _ in range(100):
            try:
                with open("/proc/net/udp") as f:
                    if any(l.split()[1].endswith(":%04X" % port) for l in f.readlines()[1:]):
                        break
            except OSError:
                time.sleep(1)
                break
            time.sleep(0.05)
        time.sleep(0.1)
        return ("127.0.0.1", port)

    def log(self, i=0):
        return open(self.path("log%d" % i), "rb").read().decode(errors="replace")

    def close(self):
        for p in self.procs:
            p.kill()
            p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


class Peer:
    """A UDP socket that follows the server's transfer port."""

    def __init__(self, addr, timeout=2.0):
        self.s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.s.bind(("127.0.0.1", 0))
        self.s.settimeout(timeout)
        self.addr = addr

    def send(self, b, addr=None):
        self.s.sendto(b, addr or self.addr)

    def recv(self, timeout=None, follow=True):
        if timeout is not None:
            self.s.settimeout(timeout)
        try:
            p, a = self.s.recvfrom(70000)
        except (socket.timeout, ConnectionError):
            return b""
        if follow:
            self.addr = a
        return p

    def drain(self, timeout=0.5):
        r = []
        while True:
            p = self.recv(timeout)
            if not p:
                return r
            r.append(p)


def get(addr, name, opts=(), blk=512, timeout=2.0):
    """(content or None, error packet or None)"""
    c = Peer(addr, timeout)
    c.send(req(RRQ, name, opts))
    out, n = b"", 1
    tries = 0
    while tries < 200000:
        tries += 1
        p = c.recv()
        if not p:
            return None, None
        if op(p) == ERR:
            return None, p
        if op(p) == OACK:
            blk = int(oack(p).get("blksize", 512))
            c.send(ack(0))
            continue
        if op(p) == DATA and num(p) == n & 0xffff:
            out += p[4:]
            c.send(ack(n))
            n += 1
            if len(p) - 4 < blk:
                return out, None


def put(addr, name, content, opts=(), blk=512, timeout=2.0):
    """(True, None) or (False, error packet or None)"""
    c = Peer(addr, timeout)
    c.send(req(WRQ, name, opts))
    p = c.recv()
    if not p or op(p) == ERR:
        return False, p or None
    if op(p) == OACK:
        blk = int(oack(p).get("blksize", 512))
    n, i = 1, 0
    while True:
        d = content[i:i + blk]
        c.send(data(n, d))
        p = c.recv()
        while p and op(p) == ACK and num(p) != n & 0xffff:
            p = c.recv()
        if not p or op(p) == ERR:
            return False, p or None
        i += blk
        n += 1
        if len(d) < blk:
            return True, None


def main(f):
    s = Scratch()
    try:
        f(s)
    finally:
        s.close()
    print("ok")
