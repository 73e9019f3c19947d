ID = "c23-mapped"
PROPERTY = "C23"
NEEDS = "a permissions file with an address mask, and an IPv4 client of a port that takes IPv6 ones too"
BREAKS = "address masks do not apply to it: who is to be refused gets in"
EDITS = [("server/msgs.c", "            memcpy(out, &sa6->sin6_addr.s6_addr[12], 4);", "            memcpy(out, &sa6->sin6_addr.s6_addr[8], 4);")]
DEMO = r'''
import icbdemo
class Dual(Icb):
    def start(self):
        self.addr = "127.0.0.1"
        for _ in range(50):
            s = socket.socket()
            s.bind(("", 0))
            self.port = s.getsockname()[1]
            s.close()
            self.proc = subprocess.Popen([os.path.join(REPO, "_build/server/icbd"), "-f", "-p", str(self.port), "-l", "0"], cwd=self.dir,
                                         env=dict(os.environ, LD_PRELOAD=self.so, ICB_VTIME=self.clk, TZ="UTC"), stdout=subprocess.DEVNULL,
                                         stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, preexec_fn=lambda: icbdemo._libc.prctl(1, signal.SIGKILL))
            end = time.time() + 10
            while time.time() < end and self.proc.poll() is None:
                try:
                    self.mon = socket.create_connection((self.addr, self.port), timeout=10)
                    self.mb = b""
                    return
                except OSError:
                    time.sleep(0.02)
            self.proc.kill()
            self.proc.wait()
        raise SystemExit("the server does not start")
with Dual(files={"icbd.perms": "mask 127.0.0.0 255.0.0.0 perm_deny\n"}) as s:
    a = s.login("u1", "alice")
    check(any("Login denied." in p for p in a.first), "alice is not refused: %r" % a.first)
'''
