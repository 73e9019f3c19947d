"""Drive a real icbd: start it in a scratch directory under a virtual clock, talk to
it over loopback, and record everything every client receives.

Byte strings are carried as latin-1 str so they survive JSON and TLC unchanged."""
import calendar, ctypes, errno, mmap, os, random, re, select, shutil, signal, socket, ssl, struct, subprocess, tempfile, time

BASE = 1000080000          # 2001-09-10 00:00:00 UTC: virtual time 0
PING = b"\x02l\x00"
PINGR = b"eServer doesn't handle ICB_M_PING packets"
_libc = ctypes.CDLL(None)


def _die_with_parent():
    _libc.prctl(1, signal.SIGKILL)      # PR_SET_PDEATHSIG


HERE = os.path.dirname(os.path.abspath(__file__))

DEFAULT_FILES = {
    "motd": "motd line one\nmotd line two\n",
    "icbd_help": "help line one\nhelp line two\n",
    "news.1": "news item one\n",
    "news.2": "news item two\nsecond line of two\n",
    "icbd.deny": "",
    "icbd.perms": "",
}


class ServerDied(Exception):
    pass


class Hang(Exception):
    pass


class TlsSock:
    """A TLS connection of which we decide how its records are cut into segments."""

    def __init__(self, sock, version, timeout):
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        ctx.minimum_version = ctx.maximum_version = version
        self.raw, self.timeout = sock, timeout
        self.i, self.o = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.s = ctx.wrap_bio(self.i, self.o)
        self.cut = None         # called between the pieces of a record: (length) -> where to cut, or None
        sock.settimeout(timeout)
        while True:
            try:
                self.s.do_handshake()
                break
            except ssl.SSLWantReadError:
                sock.sendall(self.o.read())
                d = sock.recv(65536)
                if not d:
                    raise ConnectionError("closed during the handshake")
                self.i.write(d)
        sock.sendall(self.o.read())

    def recv(self, n):
        while True:
            try:
                return self.s.read(n)
            except ssl.SSLZeroReturnError:
                return b""
            except ssl.SSLWantReadError:
                d = self.raw.recv(65536)
                if not d:
                    return b""
                self.i.write(d)

    def push(self, d):
        end = time.time() + self.timeout
        while d:
            try:
                d = d[self.raw.send(d):]
            except BlockingIOError:
                if time.time() > end:
                    raise Hang("server does not read")
                select.select([], [self.raw], [], 0.1)

    def send(self, view):
        self.s.write(bytes(view))
        d = self.o.read()
        k = self.cut(len(d)) if self.cut else 0
        if k:
            self.push(d[:k])
            self.cut(0)
        self.push(d[k:])
        return len(view)

    def fileno(self): return self.raw.fileno()
    def setblocking(self, x): self.raw.setblocking(x)
    def setsockopt(self, *a): self.raw.setsockopt(*a)
    def shutdown(self, how): self.raw.shutdown(how)
    def close(self): self.raw.close()


def client_hello():
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    ctx.check_hostname = False
    o = ssl.MemoryBIO()
    s = ctx.wrap_bio(ssl.MemoryBIO(), o)
    try:
        s.do_handshake()
    except ssl.SSLWantReadError:
        pass
    return o.read()


class Client:
    def __init__(self, cid, sock, tls=False):
        self.cid, self.sock, self.tls = cid, sock, tls
        self.buf = b""
        self.open = True        # our side still open
        self.eof = False        # server closed
        self.rst = False
        self.paused = False     # not reading for now
        self.choked = False     # the network takes only so much for it

    def pump(self):
        """Non-blocking read of everything available."""
        if not self.open or self.eof:
            return
        try:        # acknowledge at once, so that the kernel never holds back what the server sends
            self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
        except OSError:
            pass
        while True:
            try:
                d = self.sock.recv(65536)
                if d == b"":
                    self.eof = True
                    return
                self.buf += d
            except (BlockingIOError, ssl.SSLWantReadError):
                return
            except (ConnectionError, ssl.SSLError, OSError):
                self.eof = True
                self.rst = True
                return

    def frames(self):
        """Complete frames received so far, as payload bytes."""
        out = []
        while self.buf:
            if len(self.buf) < 1 + self.buf[0]:
                break
            n = self.buf[0]
            out.append(self.buf[1:1 + n])
            self.buf = self.buf[1 + n:]
        return out


LOGRE = re.compile(r"(?:\[(?:ERR|WARN|INFO|DEBUG|VERBOSE)\] )? (\w{3} \d\d \d{4} \d\d:\d\d:\d\d) \S+: (.*)$", re.S)
JRE = re.compile(r"\[(CONNECT|CONNECT \(SSL\)|LOGIN|WHO|OPEN|LOST|DROP|IDLE_BOOT)\]|Login denied\.$|Login refused for ")


def canon(payload):
    """payload bytes -> str.  A well-formed packet has a type byte, ends with exactly
    one NUL and contains no other; anything else is marked so no model output matches."""
    if len(payload) < 2 or payload[-1] != 0 or b"\0" in payload[:-1]:
        return "!malformed:" + payload.decode("latin-1").replace("\0", "\\0")
    return payload[:-1].decode("latin-1")


class Server:
    def __init__(self, exe, scratch, files=None, tls=False, keep_dir=None, t0=0, log=0, timeout=10.0, dual=False):
        self.exe, self.scratch, self.tls, self.log = exe, scratch, tls, log
        self.timeout = timeout
        self.dual = dual        # listen to IPv6 and IPv4 on one port, as without -b
        self.addr = own_addr()
        if keep_dir:
            self.dir = keep_dir
        else:
            self.dir = tempfile.mkdtemp(prefix="run.", dir=scratch)
            for k, v in dict(DEFAULT_FILES, **(files or {})).items():
                if v is None:
                    continue
                with open(os.path.join(self.dir, k), "wb") as f:
                    f.write(v.encode("latin-1") if isinstance(v, str) else v)
        if tls:
            pem = os.path.join(scratch, "icbd.pem")
            if not os.path.exists(pem):
                make_pem(pem)
            shutil.copy(pem, os.path.join(self.dir, "icbd.pem"))
        self.clockf = os.path.join(self.dir, "clock")
        self.now = t0
        with open(self.clockf, "wb") as f:
            f.write(struct.pack("ll", BASE + t0, 0) + bytes(8 * 1024))
        self.cf = open(self.clockf, "r+b")
        self.cm = mmap.mmap(self.cf.fileno(), 16 + 8 * 1024)
        self.clients = {}
        self.logpos = 0
        self.trng = random.Random(t0)
        self.proc = None
        self.mon = None
        self.start()

    def start(self):
        env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD",)}
        env.update(ICB_VTIME=self.clockf, TZ="UTC", LC_ALL="C",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99")
        err = None
        for attempt in range(8):
            self.port = free_port(self.addr, self.dual)
            self.tport = free_port(self.addr, self.dual) if self.tls else None
            cmd = [self.exe, "-f"] + ([] if self.dual else ["-b", self.addr]) + ["-p", str(self.port), "-l", str(self.log)]
            if self.tls:
                cmd.append("-s%d" % self.tport)
            self.errf = open(os.path.join(self.dir, "stderr"), "wb")
            self.proc = subprocess.Popen(cmd, cwd=self.dir, env=env, stdin=subprocess.DEVNULL,
                                         stdout=self.errf, stderr=subprocess.STDOUT, close_fds=True, preexec_fn=_die_with_parent)
            end = time.time() + self.timeout
            while time.time() < end:
                if self.proc.poll() is not None:
                    err = self.stderr()
                    break
                try:
                    s = socket.create_connection((self.addr, self.port), timeout=5, source_address=("127.0.0.1", 0))
                    self.mon = Client("mon", s)
                    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    self.monbuf = b""
                    p = self.monpkt()          # protocol packet: accepted
                    return
                except ConnectionRefusedError:
                    time.sleep(0.005)
            self.kill()
        raise ServerDied("icbd did not start: %s" % err)

    # -- monitor connection ---------------------------------------------------
    def monpkt(self):
        s = self.mon.sock
        end = time.time() + self.timeout
        while True:
            b = self.monbuf
            if b and len(b) >= 1 + b[0]:
                p, self.monbuf = b[1:1 + b[0]], b[1 + b[0]:]
                return p
            left = end - time.time()
            if left <= 0:
                raise Hang("server does not answer")
            s.settimeout(left)
            try:
                d = s.recv(65536)
            except socket.timeout:
                raise Hang("server does not answer")
            except OSError:
                d = b""
            if d == b"":
                raise ServerDied(self.death())
            self.monbuf += d

    def sync(self, rounds=4):
        for _ in range(rounds):
            try:
                self.mon.sock.sendall(PING)
            except OSError:
                raise ServerDied(self.death())
            while True:
                p = self.monpkt()
                if p.startswith(PINGR):
                    break

    def death(self):
        try:
            rc = self.proc.wait(timeout=5)
        except subprocess.TimeoutExpired:
            rc = None
        return "server gone (rc=%s): %s" % (rc, self.stderr()[-3000:])

    def stderr(self):
        try:
            with open(os.path.join(self.dir, "stderr"), "rb") as f:
                return f.read().decode("latin-1")
        except OSError:
            return ""

    # -- clients --------------------------------------------------------------
    def connect(self, cid, tls=False, src="127.0.0.1", rcvbuf=0, want=0):
        self.cm[-8:] = struct.pack("l", want)
        v6 = ":" in src
        s = socket.socket(socket.AF_INET6 if v6 else socket.AF_INET, socket.SOCK_STREAM)
        s.settimeout(self.timeout)
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.bind((src, 0))
        s.connect(("::1" if v6 else self.addr, self.tport if tls else self.port))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if tls:
            s = TlsSock(s, self.trng.choice([ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3]), self.timeout)
            s.cut = self.cut
        s.setblocking(False)
        self.clients[cid] = Client(cid, s, tls)
        return self.clients[cid]

    def cut(self, n):
        """Now and then a TLS record arrives in two pieces, and the server is busy with others in between."""
        if n == 0:
            self.sync(2)
        elif n > 1 and self.trng.random() < 0.3:
            return self.trng.randrange(1, n)
        return 0

    def spoil(self, cid):
        """A TLS client sends what is no record of its own, or not what it was."""
        c = self.clients[cid]
        c.sock.s.write(b"\x02n\0")
        d = bytearray(c.sock.o.read())
        k = self.trng.randrange(4)
        if k == 0:
            d[self.trng.randrange(5, len(d))] ^= 1 << self.trng.randrange(8)
        elif k == 1:
            d = b"\x17\x03\x03\x00\x20" + bytes(self.trng.randrange(256) for _ in range(32))
        elif k == 2:
            d = b"GET / HTTP/1.0\r\n\r\n"
        else:
            d = b"\x17\x03\x03\xff\xff" + bytes(20)
        try:
            c.sock.push(bytes(d))
        except OSError:
            pass
        self.sync(3)

    def stall(self, data, src="127.0.0.1"):
        """A connection to the TLS port that does not (yet) complete the handshake."""
        v6 = ":" in src
        s = socket.socket(socket.AF_INET6 if v6 else socket.AF_INET, socket.SOCK_STREAM)
        s.settimeout(self.timeout)
        s.bind((src, 0))
        s.connect(("::1" if v6 else self.addr, self.tport))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if data:
            s.sendall(data)
        return s

    def cpu(self):
        """Processor time the server has used, in seconds."""
        with open("/proc/%d/stat" % self.proc.pid) as f:
            x = f.read().rsplit(")", 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")

    def raw(self, cid, data):
        c = self.clients[cid]
        if not c.open or c.eof:
            return
        view = memoryview(data)
        end = time.time() + self.timeout
        while len(view):
            try:
                n = c.sock.send(view)
                view = view[n:]
            except (BlockingIOError, ssl.SSLWantWriteError, ssl.SSLWantReadError):
                if time.time() > end:
                    raise Hang("server does not read")
                select.select([], [c.sock], [], 0.1)
            except OSError:
                return          # peer closed; the recorded EOF tells

    def pkt(self, cid, payload):
        """payload: bytes, type byte first; the NUL terminator is added."""
        self.raw(cid, bytes([len(payload) + 1]) + payload + b"\0")

    def half(self, cid):
        """Close our sending side; keep reading until the server closes."""
        c = self.clients[cid]
        if c.eof:
            return
        try:
            c.sock.shutdown(socket.SHUT_WR)
        except OSError:
            pass

    def restart(self, meanwhile=None):
        """Kill the server and start it again in the same directory; clients are gone."""
        self.kill()
        self.cm[16:] = bytes(len(self.cm) - 16)
        if meanwhile:
            meanwhile(self.dir)
        self.clients = {}
        self.errf.close()
        self.start()

    def journal(self, skip=False):
        """What has been written to the log since the last time: [time, entry], for the entries about users;
        what is not an entry at all is given the time -1."""
        p = os.path.join(self.dir, "icbd.log")
        try:
            with open(p, "rb") as f:
                f.seek(self.logpos)
                b = f.read()
        except FileNotFoundError:
            b = b""
        self.logpos += len(b)
        out = []
        for l in ([] if skip else b.decode("latin-1").split("\n")):
            m = LOGRE.match(l)
            if m and JRE.match(m.group(2)):
                t = calendar.timegm(time.strptime(m.group(1), "%b %d %Y %H:%M:%S"))
                out.append([t - BASE, m.group(2)])
            elif l and not m:
                out.append([-1, l])
        return out

    def rotate(self):
        """The log is moved away and the server told so."""
        p = os.path.join(self.dir, "icbd.log")
        if os.path.exists(p):
            os.rename(p, p + ".old")
            self.logpos = 0
        self.proc.send_signal(signal.SIGHUP)

    def stop(self, sig):
        """Ask the server to end; its exit status."""
        self.proc.send_signal(sig)
        try:
            return self.proc.wait(timeout=self.timeout)
        except subprocess.TimeoutExpired:
            return None

    def fin(self, cid):
        c = self.clients[cid]
        c.open = False
        try:
            c.sock.close()
        except OSError:
            pass

    def rst(self, cid):
        c = self.clients[cid]
        c.open = False
        try:
            c.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        c.sock.close()

    def tick(self, d):
        self.now += d
        self.cm[0:8] = struct.pack("l", BASE + self.now)

    def room(self, fd, n=None, more=False):
        """The network takes n bytes (more) of what the server sends there, and no more for now (None: any)."""
        o = 16 + 8 * fd
        if more:
            n += max(0, struct.unpack("l", self.cm[o:o + 8])[0] - 1)
        self.cm[o:o + 8] = struct.pack("l", 0 if n is None else n + 1)

    def die_at(self, n):
        """The server ends in the n-th operation on its database's files from now on (0: it does not)."""
        self.cm[8:16] = struct.pack("l", n)

    def collect(self, final=True):
        """{cid: [packet,...]}, [cids newly closed by the server]"""
        out, closed = {}, []
        for cid, c in self.clients.items():
            if not c.open or c.paused:
                continue
            was = c.eof
            c.pump()
            fr = [canon(f) for f in c.frames()]
            if c.eof and c.choked:
                c.buf = b""
            if c.eof and c.buf:
                fr.append("!partial:" + c.buf.decode("latin-1").replace("\0", "\\0"))
                c.buf = b""
            elif c.buf and final and not c.choked:
                fr.append("!partial:" + c.buf.decode("latin-1").replace("\0", "\\0"))
                c.buf = b""
            if fr:
                out[cid] = fr
            if c.eof and not was:
                closed.append(cid)
        return out, closed

    def kill(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()
        for c in list(self.clients.values()) + ([self.mon] if self.mon else []):
            try:
                c.sock.close()
            except OSError:
                pass

    def close(self, rm=True):
        self.kill()
        try:
            self.cm.close()
            self.cf.close()
            self.errf.close()
        except Exception:
            pass
        if rm:
            shutil.rmtree(self.dir, ignore_errors=True)


def has_ipv6():
    """Does this machine have IPv6, at least with itself?"""
    try:
        with socket.socket(socket.AF_INET6, socket.SOCK_STREAM) as s:
            s.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 0)
            s.bind(("::1", 0))
        return True
    except OSError:
        return False


def own_addr():
    """A loopback address of our own: no other process can be using its ports."""
    p = os.getpid()
    return "127.%d.%d.%d" % (1 + (p >> 16) % 250, (p >> 8) % 256, 1 + p % 254)


_next_port = [0]


def free_port(addr, dual=False):
    for _ in range(500):
        _next_port[0] = (_next_port[0] + 1) % 10000
        port = 20000 + _next_port[0] if not dual else 30001 + (_next_port[0] + os.getpid() * 37) % 2700
        with socket.socket(socket.AF_INET6 if dual else socket.AF_INET, socket.SOCK_STREAM) as s:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                s.bind(("::" if dual else addr, port))
                return port
            except OSError:
                continue
    raise RuntimeError("no free port")


def make_pem(path):
    d = tempfile.mkdtemp(prefix="pem.", dir=os.path.dirname(path))
    subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", d + "/k",
                    "-out", d + "/c", "-days", "30", "-subj", "/CN=localhost"], check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with open(d + "/p", "wb") as f:
        f.write(open(d + "/k", "rb").read() + b"\n" + open(d + "/c", "rb").read())
    os.rename(d + "/p", path)
    shutil.rmtree(d)
