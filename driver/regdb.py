"""The database code (server/icb_dbm.c, server/icbdb.c) under histories, faults and crashes."""
import hashlib, json, os, random, re, shutil, struct, subprocess, tempfile, time
from build import build_harness

SOURCES = ["icb_dbm.c", "icbdb.c", "namelist.c", "strlist.c", "strutil.c", "utf8.c", "wildmat.c"]
WRAP = ["open", "write", "fsync", "fdatasync", "close", "rename", "unlink"]
MAGIC = b"IDB\x01"
MAXREC = 1 << 20
BUF = 4095


def build(scratch):
    return build_harness(scratch, "dbh.c", SOURCES, "dbh", WRAP)


def parse(path):
    """An independent reader of the file: dict of bytes, or None if it is not a whole database."""
    try:
        b = open(path, "rb").read()
    except FileNotFoundError:
        return {}
    if len(b) < 8 or b[:4] != MAGIC:
        return None
    n, p, m = struct.unpack("<I", b[4:8])[0], 8, {}
    for _ in range(n):
        if p + 8 > len(b):
            return None
        k, v = struct.unpack("<II", b[p:p + 8])
        p += 8
        if p + k + v > len(b) or k > MAXREC or v > MAXREC:
            return None
        key = b[p:p + k]
        if key in m:
            return None
        m[key] = b[p + k:p + k + v]
        p += k + v
    return m if p == len(b) else None


class Died(Exception):
    pass


class Dbm:
    """Performs operations on the real code and records them as steps of IcbDbm."""

    def __init__(self, exe, scratch):
        self.exe = exe
        self.dir = tempfile.mkdtemp(prefix="dbm.", dir=scratch)
        self.main = "icbdb.db"
        self.path = os.path.join(self.dir, "icbdb.db")
        self.steps, self.cut = [], {}
        self.p = None

    def start(self):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
        self.p = subprocess.Popen([self.exe], cwd=self.dir, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(os.path.join(self.dir, "err"), "wb"), env=env)

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def trace(self):
        return {"main": self.main, "cut": self.cut, "steps": self.steps}

    # names of byte strings in the trace
    def raw(self, b):
        return b.hex() if len(b) <= 40 else "#%d:%s" % (len(b), hashlib.sha1(b).hexdigest()[:16])

    def text(self, b):
        if len(b) <= 300:
            return b.decode("latin-1")
        t = "#%d:%s" % (len(b), hashlib.sha1(b).hexdigest()[:16])
        if len(b) > BUF:
            self.cut[t] = self.text(b[:BUF])
        return t

    def disk(self, icb):
        m = parse(self.path)
        private = not os.path.exists(self.path) or not os.stat(self.path).st_mode & 0o077
        if m is None:
            return {"ok": False, "private": private}
        st = {"m": {}, "l": {}}
        if not icb:
            st["m"] = {self.raw(k): self.raw(v) for k, v in m.items()}
        else:
            lists = {k[:-4]: int(v) for k, v in m.items() if k.endswith(b".max") and v.isdigit()}
            for k, v in m.items():
                base, _, x = k.rpartition(b".")
                if base in lists and (x == b"max" or x.isdigit() and int(x) <= lists[base]):
                    if x != b"max":
                        st["l"].setdefault(self.text(base), []).append(self.text(v))
                else:
                    st["m"][self.text(k)] = self.text(v)
        return {"ok": True, "private": private, "st": st}

    def op(self, step, line, fault=None, look=True, icb=False):
        """step: the specification's action; line: the harness command; fault: (kind, n)."""
        if self.p is None:
            self.start()
        cmd = ("fault %s %d\n" % fault if fault else "") + line + "\n"
        ans, ev, ops = None, [], None
        try:
            self.p.stdin.write(cmd.encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        while True:
            l = self.p.stdout.readline().decode("latin-1")
            if not l:
                break
            w = l.split()
            if w[0] == "ev":
                a = w[1:]
                ev.append([a[0]] + [int(x) if re.fullmatch(r"-?\d+", x) else os.path.normpath(x) for x in a[1:]])
                if a[0] == "open":
                    ev[-1][3] = ev[-1][3] != 0
            elif w[0] == "ops":
                ops = int(w[1])
                break
            else:
                ans = w
        if ops is None:
            rc = self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None
            if rc != 77:
                err = open(os.path.join(self.dir, "err"), "rb").read().decode("latin-1")
                self.steps.append({"t": "died", "op": step, "ev": ev})
                raise Died("the database code ended (rc %d) in %s after %s\n%s" % (rc, line[:200], cmd[:40].split("\n")[0], err[-3000:]))
            step = {"t": "die", "op": step, "ret": 0}
        else:
            step = dict(step, fault=bool(fault and fault[0] in ("fail", "failall") and ops >= fault[1]))
            step["ret"] = self.answer(step["t"], ans, icb)
        step["ev"] = ev
        if look:
            step["disk"] = self.disk(icb)
        self.steps.append(step)
        return ops

    def answer(self, t, ans, icb):
        name = self.text if icb else self.raw
        if ans[0] == "none":
            return {"found": False}
        if ans[0] in ("val", "int"):
            v = bytes.fromhex(ans[1]) if ans[0] == "val" and ans[1] != "-" else ans[1].encode() if ans[0] == "int" else b""
            return {"found": True, "v": name(v)}
        if ans[0] == "list":
            return {"list": [name(bytes.fromhex(x)) for x in ans[1:]]}
        return int(ans[1]) if not icb else {"done": True}

    # ---- the map
    def h(self, b):
        return b.hex() or "-"

    def do(self, t, k=b"", v=b"", replace=True, fault=None, look=True):
        if t == "open":
            return self.op({"t": t}, "open ./icbdb", fault, look)
        if t in ("sync", "close"):
            return self.op({"t": t}, t, fault, look)
        if t == "store":
            return self.op({"t": t, "k": self.raw(k), "v": self.raw(v), "replace": replace, "big": max(len(k), len(v)) > MAXREC},
                           "store %s %s %d" % (self.h(k), self.h(v), replace), fault, look)
        return self.op({"t": t, "k": self.raw(k)}, "%s %s" % (t, self.h(k)), fault, look)

    def kill(self):
        """The process ends between operations."""
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.p = None

    def damage(self, rng):
        b = open(self.path, "rb").read()
        how = rng.randrange(4 if len(b) > 16 else 2)
        if how == 0:
            b = b[:rng.randrange(len(b))]
        elif how == 1:
            b = b"X" + b[1:]
        elif how == 2:
            b = b[:8] + struct.pack("<I", rng.choice([0xffffffff, MAXREC + 1, 0x80000000])) + b[12:]
        else:
            b = b[:12] + struct.pack("<I", rng.choice([0xffffffff, MAXREC + 1, 0x7fffffff])) + b[16:]
        open(self.path, "wb").write(b)
        self.steps.append({"t": "damage", "ret": 0, "ev": []})

    def repair(self):
        os.unlink(self.path)
        self.steps.append({"t": "repair", "ret": 0, "ev": []})

    # ---- named values and lists
    def ido(self, t, c=b"", n=b"", v=b"", number=False, fault=None, look=True):
        a = {"t": t, "c": c.decode("latin-1"), "n": n.decode("latin-1")}
        args = [self.h(c), self.h(n)]
        if t in ("iset", "ladd", "ldel"):
            a["v"] = self.text(v)
            args.append(self.h(v))
        word = t
        if number:
            word += "i"
            if t == "iset":
                args[2] = v.decode()
        return self.op(a, word + " " + " ".join(args), fault, look, icb=True)

    def multi(self, on, fault=None, look=True):
        self.op({"t": "multi", "on": on}, "multi %d" % on, fault, look, icb=True)
        self.steps[-1]["ret"] = 0


# ---------------------------------------------------------------- histories

def colliding(n, rng):
    """Keys that share a bucket of 128 (and of 256, often)."""
    def h(b):
        x = 2166136261
        for c in b:
            x = ((x ^ c) * 16777619) & 0xffffffff
        return x
    want, res = rng.randrange(128), []
    while len(res) < n:
        b = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 6)))
        if h(b) % 128 == want and b not in res:
            res.append(b)
    return res


def pick_fault(rng, p):
    if rng.random() < p:
        return rng.choice(["fail", "fail", "short", "die", "die", "failall"]), rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 14, 20, 40])
    return None


def random_map(exe, scratch, seed, steps):
    rng = random.Random(seed)
    d = Dbm(exe, scratch)
    fail = None
    big = seed % 40 == 0
    many = seed % 7 == 0        # enough keys for the table to grow
    faulty = rng.choice([0, 0.2, 0.6])
    keys = colliding(6, rng) + [b"", b"\0", b"\0\0", b"a", b"a\0", b"A", b"u1.password", bytes(range(256))]
    if many:
        keys += [b"k%d" % i for i in range(rng.choice([100, 150, 400]))]
    try:
        opened = False
        for _ in range(steps * (4 if many else 1)):
            if not opened and d.p is None and rng.random() < 0.12 and os.path.exists(d.path):
                d.damage(rng)
                if rng.random() < 0.9:
                    d.do("open", fault=None)
                    d.do("open", fault=None)
                d.repair()
            if not opened:
                d.do("open", look=rng.random() < 0.5)
                opened = True
            r = rng.random()
            k = rng.choice(keys)
            f = pick_fault(rng, faulty)
            if r < 0.45:
                v = rng.choice([b"", b"\0", b"x", b"1", b"2", bytes(rng.randrange(256) for _ in range(rng.choice([3, 30, 4096, 70000] if rng.random() < 0.1 else [3, 30])))])
                if big and rng.random() < 0.1:
                    v = b"v" * rng.choice([MAXREC, MAXREC + 1, MAXREC - 1])
                d.do("store", k, v, rng.random() < 0.8, look=rng.random() < 0.2)
            elif r < 0.62:
                d.do("fetch", k, look=False)
            elif r < 0.78:
                d.do("delete", k, look=rng.random() < 0.1)
            elif r < 0.9:
                d.do("sync", fault=f, look=rng.random() < 0.9)
            elif r < 0.96:
                d.do("close", fault=f)
                opened = False
                if rng.random() < 0.5 and d.p:
                    d.kill()
            else:
                d.kill()
                d.steps.append({"t": "die", "op": {"t": "none"}, "ret": 0, "ev": [], "disk": d.disk(False)})
                opened = False
            if d.p is None:
                opened = False
        return d.trace(), None
    except Died as e:
        return d.trace(), str(e)
    finally:
        d.close()


def random_icb(exe, scratch, seed, steps):
    rng = random.Random(seed)
    d = Dbm(exe, scratch)
    faulty = rng.choice([0, 0.15, 0.5])
    cats = [b"alice", b"Alice", b"ALICE", b"bob", b"b", b"caf\xe9", b"\xff", b"x.y"]
    attrs = [b"password", b"Password", b"nummsg", b"header1", b"y"]
    vals = [b"", b"1", b"secret", b"Secret", b" sp ace ", b"\x01\x02\xff", b"%s%n", b"v" * 255]
    try:
        for _ in range(steps):
            f = pick_fault(rng, faulty)
            c, n, v = rng.choice(cats), rng.choice(attrs), rng.choice(vals)
            r = rng.random()
            look = rng.random() < 0.85
            if r < 0.28:
                if rng.random() < 0.03:
                    v = b"w" * rng.choice([4094, 4095, 4096, 4097, 9000])
                d.ido("iset", c, n, v, fault=f, look=look)
            elif r < 0.36:
                d.ido("iset", c, b"num", b"%d" % rng.choice([0, 1, -1, 99, 2147483647, -2147483648]), number=True, fault=f, look=look)
            elif r < 0.41:
                d.ido("iget", c, b"num", number=True, look=look)
            elif r < 0.58:
                d.ido("iget", c, n, look=look)
            elif r < 0.68:
                d.ido("idel", c, n, fault=f, look=look)
            elif r < 0.80:
                d.ido("ladd", rng.choice(cats[:4]), b"lst", rng.choice([b"p", b"q", b"r", b"s", b"t", b"u"]), fault=f, look=look)
            elif r < 0.87:
                d.ido("ldel", rng.choice(cats[:4]), b"lst", rng.choice([b"p", b"q", b"r", b"s", b"t", b"u"]), fault=f, look=look)
            elif r < 0.94:
                d.ido("lload", rng.choice(cats[:4]), b"lst", look=look)
            elif r < 0.95:
                d.ido("lclear", rng.choice(cats[:4]), b"lst", fault=f, look=look)
            elif r < 0.98:
                d.multi(rng.random() < 0.4, fault=f)
            elif d.p:
                d.kill()
                d.steps.append({"t": "die", "op": {"t": "none"}, "ret": 0, "ev": [], "disk": d.disk(True)})
                if rng.random() < 0.3 and os.path.exists(d.path):
                    d.damage(rng)
                    for _ in range(rng.randrange(4)):
                        d.ido(rng.choice(["iset", "iget", "idel"]), c, n, v)
                    if d.p:
                        d.kill()
                        d.steps.append({"t": "die", "op": {"t": "none"}, "ret": 0, "ev": [], "disk": d.disk(True)})
                    d.repair()
        return d.trace(), None
    except Died as e:
        return d.trace(), str(e)
    finally:
        d.close()


# ---------------------------------------------------------------- model checked scopes

FAULTS = [("fail", n) for n in (1, 2, 3, 4, 5, 6)] + [("failall", 3), ("die", 1), ("die", 2), ("die", 3), ("die", 4), ("die", 5), ("die", 6), ("die", 7), ("die", 8), ("die", 9), ("die", 10)]


def map_scope(depth, nkeys=2):
    A = [{"t": "open"}, {"t": "sync", "fault": False}, {"t": "sync", "fault": True}, {"t": "close", "fault": False}, {"t": "close", "fault": True},
         {"t": "die", "op": {"t": "sync"}}, {"t": "die", "op": {"t": "close"}}, {"t": "die", "op": {"t": "none"}}, {"t": "damage"}, {"t": "repair"}]
    for k in ["6b", "00"][:nkeys]:
        for v in ["61", "62"]:
            A.append({"t": "store", "k": k, "v": v, "replace": True, "big": False})
        A.append({"t": "store", "k": k, "v": "63", "replace": False, "big": False})
        A += [{"t": "delete", "k": k}, {"t": "fetch", "k": k}]
    return {"name": "map", "acts": A, "depth": depth}


def icb_scope(depth):
    A = []
    for f in (False, True):
        for c in ("a", "A"):
            A.append({"t": "iset", "c": c, "n": "p", "v": "1" if c == "a" else "2", "fault": f})
        A += [{"t": "idel", "c": "a", "n": "P", "fault": f}, {"t": "ladd", "c": "a", "n": "lst", "v": "p", "fault": f},
              {"t": "ladd", "c": "a", "n": "lst", "v": "q", "fault": f}, {"t": "ladd", "c": "a", "n": "lst", "v": "r", "fault": f},
              {"t": "ldel", "c": "a", "n": "lst", "v": "p", "fault": f}, {"t": "ldel", "c": "a", "n": "lst", "v": "q", "fault": f},
              {"t": "ldel", "c": "a", "n": "lst", "v": "r", "fault": f},
              {"t": "lclear", "c": "a", "n": "lst", "fault": f}, {"t": "multi", "on": True, "fault": f}, {"t": "multi", "on": False, "fault": f}]
    A += [{"t": "iget", "c": "A", "n": "P", "fault": False}, {"t": "lload", "c": "A", "n": "lst", "fault": False}]
    A += [{"t": "die", "op": dict(a)} for a in A if a["t"] in ("iset", "idel", "ladd", "ldel", "lclear") and not a["fault"]]
    return {"name": "named values and lists", "acts": A, "depth": depth}


def explore(scope, scratch, timeout=900):
    import rec
    d = rec.spec_dir(scratch)
    try:
        json.dump(scope, open(os.path.join(d, "scope.json"), "w"))
        t = time.time()
        rc, out = rec.tlc("IcbDbmMC.tla", "IcbDbmMC.cfg", d, timeout=timeout)
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        if rc != 0 or not m:
            raise rec.TlcError("scope %s: TLC rc=%d\n%s" % (scope["name"], rc, out[-6000:]))
        E = {}
        for x in rec.printed(out, "EDGE"):
            a, i, b = x.split()
            E.setdefault(a, {})[int(i)] = b
        return {"init": rec.printed(out, "INIT")[0], "edges": E, "states": int(m.group(2)), "transitions": sum(len(e) for e in E.values()), "wall": time.time() - t}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def perform(exe, scratch, scope, walk, seed):
    """The walk on the real code; where it leaves a choice (which fault, where) take one at random."""
    rng = random.Random(seed)
    d = Dbm(exe, scratch)
    icb = scope["name"] != "map"
    opened = False
    try:
        for i in walk:
            a = scope["acts"][i - 1]
            t, f = a["t"], None
            if a.get("fault"):
                f = rng.choice([x for x in FAULTS if x[0] != "die"])
            if t == "die":
                f = rng.choice([x for x in FAULTS if x[0] == "die"])
                a = a["op"]
                t = a["t"]
            if t == "none":
                if d.p:
                    d.kill()
                    d.steps.append({"t": "die", "op": {"t": "none"}, "ret": 0, "ev": [], "disk": d.disk(icb)})
                opened = False
            elif t == "damage":
                if not opened and os.path.exists(d.path) and parse(d.path):
                    d.damage(rng)
            elif t == "repair":
                if not opened and os.path.exists(d.path) and parse(d.path) is None:
                    d.repair()
            elif t == "multi":
                d.multi(a["on"], f)
            elif icb:
                d.ido(t, a["c"].encode(), a["n"].encode(), a.get("v", "").encode(), fault=f)
            elif t == "open":
                if not opened:
                    d.do("open")
                    opened = d.steps[-1]["ret"] == 0
            elif opened:
                d.do(t, bytes.fromhex(a.get("k", "")), bytes.fromhex(a.get("v", "")), a.get("replace", True), f)
                opened = t != "close" and d.p is not None
        return d.trace(), None
    except Died as e:
        return d.trace(), str(e)
    finally:
        d.close()


def show(traces, b, n=3):
    t = traces[b["trace"] - 1]
    i = b["step"] - 1
    r = ["%s step %d: %s" % ("->" if j == i else "  ", j + 1, json.dumps(t["steps"][j])[:700]) for j in range(max(0, i - n), i + 1)]
    r.append("   %s; the specification allows: %s" % (b["what"], json.dumps(b["expected"])[:900]))
    return "\n".join(r)


# ---------------------------------------------------------------- the engine

def job(kind, exe, scratch, *a):
    return {"map": random_map, "icb": random_icb, "walk": perform}[kind](exe, scratch, *a)


def judge(ctx, args, what, module="IcbDbmTrace", job=job):
    import rec
    res = list(ctx.pool().map(job, *zip(*args), chunksize=2))
    for i, (tr, fail) in enumerate(res):
        if fail:
            tr2, fail2 = job(*args[i])
            if fail2:
                ctx.violation = ("%s: %s" % (what(i), fail2[:3000]), {"how": what(i), "failure": fail2, "trace": tr2})
                return True
    trs = [r[0] for r in res if not r[1]]
    idx = [i for i, r in enumerate(res) if not r[1]]
    bad, st = rec.validate(trs, ctx.scratch, module=module)
    ctx.add("traces_validated_against_impl", len(trs))
    ctx.add("steps_validated", sum(len(t["steps"]) for t in trs))
    ctx.add("crashes", sum(1 for t in trs for s in t["steps"] if s["t"] == "die"))
    ctx.add("faulty_saves", sum(1 for t in trs for s in t["steps"] if s.get("fault")))
    for b in bad[:3]:
        i = idx[b["trace"] - 1]
        tr2, fail2 = job(*args[i])
        if fail2:
            ctx.violation = ("%s: %s" % (what(i), fail2[:3000]), {"how": what(i), "failure": fail2, "trace": tr2})
            return True
        bad2, _ = rec.validate([tr2], ctx.scratch, module=module)
        if bad2:
            txt = show([tr2], bad2[0])
            ctx.violation = ("%s\n%s" % (what(i), txt), {"how": what(i), "mismatch": bad2[0], "text": txt, "trace": dict(tr2, steps=tr2["steps"][:bad2[0]["step"]])})
            return True
        ctx.notes.append("not repeated: %s: %s" % (what(i), show(trs, b)[:600]))
    return False


def engine(ctx):
    import mc
    exe = build(ctx.scratch)
    for scope in (map_scope(9 if ctx.thorough else 7), icb_scope(7 if ctx.thorough else 4)):
        g = explore(scope, ctx.scratch, 3000 if ctx.thorough else 600)
        walks, left = mc.tours(g, seed=ctx.seed, maxwalks=6000 if ctx.thorough else 300)
        ctx.add("states", g["states"])
        ctx.add("transitions", g["transitions"])
        ctx.cov.setdefault("scopes", []).append({"scope": scope["name"], "states": g["states"], "transitions": g["transitions"], "depth": scope["depth"],
                                                 "tlc_s": round(g["wall"], 1), "tours": len(walks), "edges_replayed": g["transitions"] - left})
        for lo in range(0, len(walks), 400):
            args = [("walk", exe, ctx.scratch, scope, w, ctx.seed * 7919 + lo + j) for j, w in enumerate(walks[lo:lo + 400])]
            if judge(ctx, args, lambda i: "tour of scope %s: %s" % (scope["name"], args[i][4])):
                return
    n = 1600 if ctx.thorough else 120
    for kind, st in (("map", 150), ("icb", 150)):
        for lo in range(0, n, 200):
            args = [(kind, exe, ctx.scratch, ctx.seed * 1000003 + j, st) for j in range(lo, min(n, lo + 200))]
            if judge(ctx, args, lambda i: "%s history seed=%d" % (kind, args[i][3])):
                return
