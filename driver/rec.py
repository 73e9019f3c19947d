"""Record executions of the real server as traces of the specification's actions, and
have TLC decide whether they are behaviours of the specification (spec/IcbTrace.tla)."""
import json, os, re, shutil, socket, struct, subprocess, sys, tempfile, time
from srv import Server, ServerDied, Hang, DEFAULT_FILES, BASE, canon
from build import ADMIN_PWD

import regdb

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ZRE = re.compile(r'^e(\d+): Invalid packet type "z" \(z\)$')


_nodes = {}


def node_name(ip="127.0.0.1"):
    """The name of an address: one that leads back to it, or the address itself."""
    if ip not in _nodes:
        _nodes[ip] = "[%s]" % ip
        try:
            name = socket.getnameinfo((ip, 0), socket.NI_NAMEREQD)[0]
            if ip in [x[4][0] for x in socket.getaddrinfo(name, None, socket.AF_INET6 if ":" in ip else socket.AF_INET, socket.SOCK_STREAM)]:
                _nodes[ip] = name
        except OSError:
            pass
    return _nodes[ip]


def lines(text):
    if isinstance(text, bytes):
        text = text.decode("latin-1")
    l = text.split("\n")
    return l[:-1] if l[-1] == "" else l


def deny_lines(text):
    """An entry is a pattern, indented or not, and the rest of its line the reason."""
    for l in lines(text):
        l = l.lstrip(" \t")
        m = re.match(r"([^ \t]+)[ \t]?(.*)$", l, re.S)
        if m:
            yield m.groups()


def make_cfg(files, host):
    """The specification's view of the server's files."""
    f = dict(DEFAULT_FILES, **(files or {}))
    deny = [list(x) for x in deny_lines(f.get("icbd.deny") or "")]
    perms = f.pop("_perms", None) or []
    return {"adminpw": ADMIN_PWD, "host": host, "node": node_name(),
            "hasmotd": f.get("motd") is not None, "motd": lines(f.get("motd") or ""),
            "hashelp": f.get("icbd_help") is not None, "help": lines(f.get("icbd_help") or ""),
            "news": {k[5:]: lines(v) for k, v in f.items() if k.startswith("news.") and v is not None},
            "deny": deny, "perms": perms, "brick": bool(f.get("_brick")), "log": f.get("_log", 0)}


def frame(payload):
    """payload str (type byte first) -> the bytes of its frame, as latin-1 str"""
    return chr(len(payload) + 1) + payload + "\0"


class Recorder:
    """Every method performs one action on the real server, waits until the server has
    dealt with it, and appends the step with everything the clients saw."""

    def __init__(self, exe, scratch, files=None, tls=False, t0=0, timeout=10.0, rounds=4, log=0, dual=False):
        self.nmark, self.stalled = 0, []
        self.slots = None       # says which slot the next connection should get
        self.files, self.tls, self.exe, self.scratch = dict(files or {}), tls, exe, scratch
        real = {k: v for k, v in self.files.items() if not k.startswith("_")}
        self.srv = Server(exe, scratch, files=real, tls=tls, t0=t0, timeout=timeout, log=self.files.get("_log", log), dual=dual)
        self.rounds = rounds
        self.journal = "_log" in self.files      # what the log says is of interest
        self.host = socket.gethostname() if dual else self.srv.addr
        self.cfg = self.cfg0 = make_cfg(self.files, self.host)
        self.t0 = t0
        self.steps = []
        self.live = []          # connected slots, in order of connection
        self.nconn = 0
        self.inb = {}           # slot -> bytes of an incomplete frame
        self.queued = {}        # slot -> frames a slowed down user may have waiting
        self.slowed = any(x["perm"]["slow"] for x in self.cfg["perms"])
        self.failure = None     # the server died or hung: what and where
        self._newlog()

    def trace(self):
        t = {"now": self.t0, "db": {}, "cfg": self.cfg0, "steps": self.steps}
        return t

    def _newlog(self):
        if self.journal:
            self.srv.sync(1)
            self.srv.journal(True)

    def _jr(self):
        return {"jr": self.srv.journal()} if self.journal else {}

    def _finish(self, a, dead=False):
        burst = a.get("frames", 0) > 4
        if not dead:
            try:
                self.srv.sync(self.rounds + a.pop("frames", 0))
            except ServerDied as e:
                rc = self.srv.proc.poll()
                if rc == 0 and a.get("maydie"):
                    dead = True
                else:
                    a["died"] = str(e)
        out, closed = self.srv.collect(not burst)
        quiet = 0
        while burst and not dead and "died" not in a and quiet < 2:
            # the network may hold back the end of much output until the rest has been acknowledged
            time.sleep(0.001)
            self.srv.sync(1)
            o, c = self.srv.collect(quiet > 0)
            for x, l in o.items():
                out.setdefault(x, []).extend(l)
            closed += c
            quiet = 0 if o or c else quiet + 1
        a.pop("maydie", None)
        a["out"] = [[c, out[c]] for c in sorted(out)]
        a["closed"] = sorted(closed) if not dead else []
        a["dead"] = dead
        if not dead:
            a.update(self._jr())
        for c in closed:
            if c in self.live:
                self.live.remove(c)
        self.steps.append(a)
        if "died" in a:
            raise ServerDied(a["died"])
        return a

    def connect(self, tls=False, src="127.0.0.1", rcvbuf=0):
        for x in [x for x, c in self.srv.clients.items() if c.paused]:
            self.resume(x)          # its slot may be free again
            if x in self.live:
                self.rst(x)
        cid = ("new", self.nconn)
        self.nconn += 1
        self.srv.connect(cid, tls, src, rcvbuf, self.slots() if self.slots else 0)
        self.srv.sync(self.rounds)
        out, closed = self.srv.collect()
        first = out.pop(cid, [])
        if cid in closed:
            out.update({0: first} if first else {})
            self.steps.append({"t": "refused", "out": [[x, out[x]] for x in sorted(out)], "closed": sorted(x for x in closed if x != cid), "dead": False, **self._jr()})
            self.srv.clients.pop(cid)
            return None
        jr = self._jr()
        self.srv.pkt(cid, b"z")
        self.srv.sync(self.rounds)
        out2, closed2 = self.srv.collect()
        zs = out2.pop(cid, [])
        m = ZRE.match(zs[-1]) if zs else None
        slot = int(m.group(1)) if m else 0
        while not m and slot in self.srv.clients:
            slot += 1
        c = self.srv.clients.pop(cid)
        c.cid = slot
        self.srv.clients[slot] = c
        self.live.append(slot)
        self.inb[slot] = ""
        o = dict(out)
        o[slot] = first
        self.steps.append({"t": "conn", "n": slot, "tls": bool(tls), "node": node_name(src), "ip": [] if ":" in src else [int(x) for x in src.split(".")],
                           "at": "::ffff:" + src if self.srv.dual and ":" not in src else src, "out": [[x, o[x]] for x in sorted(o)],
                           "closed": sorted(closed), "dead": False, **jr})
        o = dict(out2)
        o[slot] = zs
        self.steps.append({"t": "bytes", "n": slot, "d": frame("z"), "out": [[x, o[x]] for x in sorted(o)],
                           "closed": sorted(closed2), "dead": False, **self._jr()})
        return slot

    def bytes(self, slot, data, maydie=False):
        raw = data.encode("latin-1")
        b = self.inb.get(slot, "") + data       # the server takes one frame at a time
        k = 0
        while b and len(b) > ord(b[0]):
            b = b[ord(b[0]) + 1:]
            k += 1
        self.inb[slot] = b
        if self.slowed:
            self.queued[slot] = self.queued.get(slot, 0) + k
        self.srv.raw(slot, raw)
        return self._finish({"t": "bytes", "n": slot, "d": data, "maydie": maydie, "frames": k})

    def pkt(self, slot, payload, maydie=False):
        return self.bytes(slot, frame(payload), maydie)

    def fin(self, slot):
        self.srv.half(slot)
        if slot in self.live:       # it may still be listening, but says nothing any more
            self.live.remove(slot)
        return self._finish({"t": "fin", "n": slot})

    def rst(self, slot, spoil=False):
        if spoil and self.srv.clients[slot].tls:
            self.srv.spoil(slot)
        self.srv.rst(slot)
        self.srv.clients[slot].paused = False
        if slot in self.live:
            self.live.remove(slot)
        return self._finish({"t": "rst", "n": slot})

    def pause(self, slot):
        """The client stops reading what it is sent."""
        if slot not in self.live or self.srv.clients[slot].paused:
            return
        a = self._finish({"t": "pause", "n": slot})
        self.srv.clients[slot].paused = True
        self.live.remove(slot)      # it says nothing: the network may be slow to pass that on as well
        return a

    def resume(self, slot):
        """It reads again, to the end: until the answer to something it says now has arrived."""
        c = self.srv.clients[slot]
        got, mark = [], None
        inb = self.inb.get(slot, "")
        fill = "x" * (ord(inb[0]) + 1 - len(inb)) if inb and ord(inb[0]) not in (0, 255) else ""
        end = time.time() + 3 * self.srv.timeout
        sent, wait = 0, 0.02
        while True:
            c.pump()
            new = [canon(f) for f in c.frames()]
            got += new
            if c.eof or (mark and any(mark in x for x in got)):
                break
            if time.time() > end:
                raise Hang("a client reading again is not served")
            if new:
                self.srv.sync(1)
                sent = time.time()
            elif time.time() - sent > wait:
                # nothing more comes: all has been read, or nothing can be sent
                self.nmark += 1
                mark = "(z%d)" % self.nmark
                self.bytes(slot, fill + frame("z%d" % self.nmark))
                fill = ""
                sent, wait = time.time(), min(1, wait * 2)
            else:
                time.sleep(0.001)
                self.srv.sync(1)
        if c.buf:
            if not c.eof:
                got.append("!partial:" + c.buf.decode("latin-1").replace("\0", "\\0"))
            c.buf = b""
        c.paused = False
        if not c.eof:
            self.live.append(slot)
        return self._finish({"t": "resume", "n": slot, "got": got, "eof": c.eof})

    def choke(self, slot, cap):
        """The network takes only cap more bytes of what the server sends this client."""
        self.srv.clients[slot].choked = True
        self.srv.room(slot, cap)
        return self._finish({"t": "choke", "n": slot, "cap": cap})

    def more(self, slot, k):
        self.srv.room(slot, k, True)
        return self._finish({"t": "room", "n": slot, "k": k})

    def unchoke(self, slot):
        self.srv.room(slot)
        a = self._finish({"t": "unchoke", "n": slot})
        self.srv.clients[slot].choked = False
        return a

    def stall(self, data, src="127.0.0.1"):
        self.stalled.append(self.srv.stall(data.encode("latin-1"), src))
        return self._finish({"t": "noise"})

    def unstall(self, i, data=None):
        s = self.stalled[i]
        if data is not None:
            try:
                s.sendall(data.encode("latin-1"))
            except OSError:
                pass
        else:
            self.stalled.pop(i)
            if self.nmark % 2:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.nmark += 1
            s.close()
        return self._finish({"t": "noise"})

    def rest(self):
        """Nothing happens: the server should not be busy."""
        for _ in range(3):
            self.srv.sync(2)
            c, t = self.srv.cpu(), time.time()
            time.sleep(0.25)
            if self.srv.cpu() - c < 0.6 * (time.time() - t):
                return self._finish({"t": "noise"})
        raise Hang("the server is busy although nothing happens")

    def tick(self, d, maydie=False):
        if d > 1 and self.slowed:
            # let the server work off what users slowed down have sent: whether it does so before
            # or after what else the time brings is not determined
            for _ in range(min(40, max(self.queued.values(), default=0))):
                self.tick(1, maydie)
        self.queued = {k: v - 1 for k, v in self.queued.items() if v > 1}
        self.srv.tick(d)
        return self._finish({"t": "tick", "d": d, "maydie": maydie})

    def setfiles(self, files):
        """The administrator changes the server's files; the server looks at them when it needs them."""
        self.files.update(files)
        for k, v in files.items():
            p = os.path.join(self.srv.dir, k)
            if k.startswith("_"):
                continue
            if v is None:
                if os.path.exists(p):
                    os.unlink(p)
                continue
            with open(p + ".new", "wb") as f:
                f.write(v.encode("latin-1"))
            os.rename(p + ".new", p)
        self.cfg = make_cfg(self.files, self.host)
        self.slowed = self.slowed or any(x["perm"]["slow"] for x in self.cfg["perms"])
        return self._finish({"t": "cfg", "cfg": self.cfg})

    def restart(self, sig=None):
        """Stop the server (it is killed, or sent a signal) and start it again on the same files."""
        if sig:
            rc = self.srv.stop(sig)
            if rc != 0:
                raise ServerDied("the server, asked to end by signal %d, %s\n%s" % (sig, "did not" if rc is None else "ended with %d" % rc, self.srv.stderr()[-2000:]))
        self.srv.restart()
        self._newlog()
        self.live = []
        return self._finish({"t": "restart"})

    def hup(self):
        """The log has been moved away."""
        self.srv.rotate()
        return self._finish({"t": "hup"})

    def tool(self, a):
        """The server is stopped, a support tool is run on its database, and it is started again."""
        import tools
        a = dict(a, damaged=False)
        self.srv.restart(lambda d: tools.perform(d, a, self.srv.now))
        self._newlog()
        self.live = []
        return self._finish({"t": "tool", "tool": a})

    def crash(self, slot, payload, n):
        """The server ends in the n-th file operation of the command, and is started again."""
        self.srv.die_at(n)
        d = frame(payload)
        self.srv.raw(slot, d.encode("latin-1"))
        try:
            a = self._finish({"t": "bytes", "n": slot, "d": d, "maydie": False, "frames": 1})
            self.srv.die_at(0)
            return a
        except ServerDied:
            if self.srv.proc.poll() != 77:
                raise
        self.steps.pop()
        db = regdb.parse(os.path.join(self.srv.dir, "icbdb.db"))
        dec = lambda b: b.decode("latin-1")
        st = {"t": "crash", "n": slot, "d": d, "whole": db is not None, "db": {dec(k): dec(v) for k, v in (db or {}).items()}}
        self.srv.die_at(0)
        self.srv.restart()
        self._newlog()
        self.live = []
        return self._finish(st)

    def disk(self, late):
        """What is in the database's file now belongs to the last step."""
        db = regdb.parse(os.path.join(self.srv.dir, "icbdb.db"))
        dec = lambda b: b.decode("latin-1")
        self.steps[-1].update(whole=db is not None, late=late, disk={dec(k): dec(v) for k, v in (db or {}).items()})

    def fault(self, slot, payload, n):
        """Writing the database's files fails during this command: once (n), or from then on (1000 + n)."""
        self.srv.die_at(-n)
        try:
            self.pkt(slot, payload)
        finally:
            self.srv.die_at(0)
        self.disk(True)

    def close(self, rm=True):
        self.srv.close(rm)


# ---------------------------------------------------------------- TLC

class TlcError(Exception):
    pass


def tlc(module, cfg, cwd, workers=8, timeout=800, heap="6g", extra=()):
    cmd = ["java", "-Dfile.encoding=UTF-8", "-Xss64m", "-Djava.io.tmpdir=" + cwd, "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-nowarning", "-noGenerateSpecTE", "-metadir", os.path.join(cwd, "states"),
           "-config", cfg] + list(extra) + [module]
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def spec_dir(scratch):
    d = tempfile.mkdtemp(prefix="tlc.", dir=scratch)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg", ".json")):
            shutil.copy(os.path.join(SPEC, f), d)
    return d


def printed(out, tag):
    """What PrintT(tag \\o json) printed."""
    res = []
    for m in re.finditer(r'^"%s (.*)"$' % tag, out, re.M):
        res.append(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
    return res


def validate(traces, scratch, timeout=800, module="IcbTrace", props=()):
    """Returns (list of mismatch dicts, statistics).  Raises TlcError if TLC fails otherwise."""
    if not traces:
        return [], {"states": 0, "wall": 0}
    d = spec_dir(scratch)
    try:
        with open(os.path.join(d, "traces.json"), "w") as f:
            json.dump(traces, f)
        with open(os.path.join(d, "props.json"), "w") as f:
            json.dump(list(props), f)
        t = time.time()
        rc, out = tlc(module + ".tla", module + ".cfg", d, timeout=timeout)
        bad = [json.loads(x) for x in printed(out, "MISMATCH")]
        done = set(int(x) for x in printed(out, "DONE"))
        want = {i + 1 for i in range(len(traces)) if traces[i]["steps"]}
        missing = want - done - {b["trace"] for b in bad}
        if rc not in (0,) or missing:
            raise TlcError("TLC rc=%d missing=%s\n%s" % (rc, sorted(missing)[:5], out[-6000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        for x in printed(out, "PROPFAIL"):
            x = json.loads(x)
            if not any(b["trace"] == x["trace"] and b["step"] <= x["step"] for b in bad):
                bad.append(x)
        return bad, {"states": int(m.group(2)) if m else 0, "wall": time.time() - t}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def show(traces, b, n=3):
    """Human-readable account of a mismatch."""
    t = traces[b["trace"] - 1]
    i = b["step"] - 1
    r = []
    for j in range(max(0, i - n), i + 1):
        st = t["steps"][j]
        r.append("%s step %d: %s" % ("->" if j == i else "  ", j + 1,
                 {k: v if len(str(v)) < 400 else str(v)[:300] + "...(%d)" % len(str(v)) for k, v in st.items() if k not in ("out", "closed")}))
    st = t["steps"][i]
    exp = {}
    for c, p in b.get("expected", []):
        exp.setdefault(c, []).append(p)
    got = {c: p for c, p in st["out"]}
    for c in sorted(set(exp) | set(got)):
        if exp.get(c) != got.get(c):
            e, g = exp.get(c), got.get(c)
            d = 0
            while e and g and d < min(len(e), len(g)) and e[d] == g[d]:
                d += 1
            e, g = [x and x[d:d + 4] for x in (e, g)]
            r.append("   slot %s specification: %s%r" % (c, d and "(%d) " % d or "", e))
            r.append("   slot %s server:        %s%r" % (c, d and "(%d) " % d or "", g))
    if sorted(b.get("closed", [])) != st["closed"]:
        r.append("   closed: specification %s server %s" % (b.get("closed"), st["closed"]))
    if b.get("props"):
        r.append("   the server does what the specification says, but the property fails: %s" % b["props"])
        return "\n".join(r)
    if b.get("impossible"):
        r.append("   no such step in the specification")
    return "\n".join(r)
