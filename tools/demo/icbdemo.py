"""Start the icbd built in ./_build in a scratch directory under a clock of our own and talk to it."""
import ctypes, mmap, os, select, shutil, signal, socket, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
ADMIN = "ci_test_pwd"
_libc = ctypes.CDLL(None)


class Client:
    def __init__(self, srv, sock):
        self.srv, self.sock, self.buf, self.closed = srv, sock, b"", False

    def raw(self, b):
        try:
            self.sock.sendall(b)
        except OSError:
            pass
        self.srv.sync()
        return self.take()

    def send(self, p):
        p = p.encode("latin-1")
        return self.raw(bytes([len(p) + 1]) + p + b"\0")

    def cmd(self, name, arg=""):
        return self.send("h" + name + "\x01" + arg)

    def take(self):
        """Packets received since the last call."""
        self.sock.setblocking(False)
        while True:
            try:
                d = self.sock.recv(65536)
                if not d:
                    self.closed = True
                    break
                self.buf += d
            except BlockingIOError:
                break
            except OSError:
                self.closed = True
                break
        self.sock.setblocking(True)
        out = []
        while self.buf and len(self.buf) > self.buf[0]:
            n = self.buf[0]
            out.append(self.buf[1:1 + n].rstrip(b"\0").decode("latin-1"))
            self.buf = self.buf[1 + n:]
        return out

    def quit(self):
        self.sock.close()
        self.srv.sync()


class Icb:
    def __init__(self, files=None, tls=False):
        self.dir = tempfile.mkdtemp(prefix="icbdemo.")
        self.so = os.path.join(self.dir, "vtime.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-w", os.path.join(HERE, "vtime.c"), "-o", self.so], check=True)
        for k, v in dict({"motd": "hi\n"}, **(files or {})).items():
            open(os.path.join(self.dir, k), "w").write(v)
        self.clk = os.path.join(self.dir, "clock")
        open(self.clk, "wb").write(struct.pack("l", 1000080000))
        self.f = open(self.clk, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 8)
        self.start()

    def start(self):
        p = os.getpid()
        self.addr = "127.%d.%d.%d" % (1 + (p >> 16) % 250, (p >> 8) % 256, 1 + p % 254)
        s = socket.socket()
        s.bind((self.addr, 0))
        self.port = s.getsockname()[1]
        s.close()
        self.proc = subprocess.Popen([os.path.join(REPO, "_build/server/icbd"), "-f", "-b", self.addr, "-p", str(self.port), "-l", "0"], cwd=self.dir,
                                     env=dict(os.environ, LD_PRELOAD=self.so, ICB_VTIME=self.clk, TZ="UTC"), stdout=subprocess.DEVNULL,
                                     stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, preexec_fn=lambda: _libc.prctl(1, signal.SIGKILL))
        end = time.time() + 15
        while True:
            try:
                self.mon = socket.create_connection((self.addr, self.port), timeout=10)
                break
            except OSError:
                if time.time() > end:
                    raise
                time.sleep(0.02)
        self.mb = b""
        self.mon.settimeout(10)

    def sync(self, rounds=8):
        for _ in range(rounds):
            self.mon.sendall(b"\x02l\x00")
            got = False
            while not got:
                while self.mb and len(self.mb) > self.mb[0]:
                    n = self.mb[0]
                    p, self.mb = self.mb[1:1 + n], self.mb[1 + n:]
                    got = got or p.startswith(b"e")
                if not got:
                    d = self.mon.recv(65536)
                    if not d:
                        raise SystemExit("the server is gone")
                    self.mb += d

    def connect(self):
        s = socket.create_connection((self.addr, self.port), source_address=("127.0.0.1", 0))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        c = Client(self, s)
        self.sync()
        return c

    def login(self, id_, nick, group="g", pw=None, kind="login"):
        c = self.connect()
        c.first = c.send("a" + "\x01".join([id_, nick, group, kind] + ([pw] if pw is not None else [])))
        return c

    def tick(self, d):
        t = struct.unpack("l", self.m[0:8])[0]
        self.m[0:8] = struct.pack("l", t + d)
        self.sync()

    def restart(self):
        self.proc.kill()
        self.proc.wait()
        self.start()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.proc.kill()
        self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def check(cond, what):
    if not cond:
        print("WRONG: " + what)
        sys.exit(1)
