"""The database tools in support/ against spec/IcbTools.tla."""
import importlib, json, os, random, shutil, struct, subprocess, sys, tempfile
import build, regdb
from srv import BASE

RUN = os.path.join(build.VERIF, "harness", "toolrun.py")
ENV = dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1")
NICKS = ["alice", "bob", "carol", "al.ice", "server", "admin", "Dave", "x"]
ATTRS = ["addr", "email", "home", "nick", "nummsg", "password", "phone", "realname", "secure", "signoff", "signon", "text", "www"]
VALUES = ["", "x", "pw1", "two words", " lead", "trail ", "a|b", "a=b", "\xe9", "caf\xc3\xa9", "\xff\xfe", "back\\slash", "\\n", "\\\\", "line\nfeed", "cr\rhere", "tab\there", "\xe2\x80\xa8", "\xc2\x85x",
          "%s", "\x01\x02", "\xed\xa0\x80", "v" * 300, "\x0b\x0c\x1c", "last\\", "\n", "\r\n", "u1@localhost"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def enc(db):
    """The file the server would write for this map."""
    out = [b"IDB\x01", struct.pack("<I", len(db))]
    for k, v in db.items():
        k, v = k.encode("latin-1"), v.encode("latin-1")
        out += [struct.pack("<II", len(k), len(v)), k, v]
    return b"".join(out)


def dec(m):
    return {k.decode("latin-1"): v.decode("latin-1") for k, v in m.items()}


def tool(name, args, dirname, now, fault=None, stdin=b""):
    spec = {"script": os.path.join(build.REPO, "support", name), "now": BASE + now, "fault": fault}
    p = subprocess.run([sys.executable, RUN, json.dumps(spec)] + [a.encode("latin-1") for a in args], cwd=dirname, input=stdin, capture_output=True, env=ENV, timeout=60)
    return p


def saidlines(b):
    q = b.decode("latin-1").split("\n")
    return q[:-1] if q and q[-1] == "" else q


def perform(d, a, now, fault=None, base=None):
    """Run the tool of action a in directory d on icbdb.db; fills in what happened."""
    path = os.path.join(d, "icbdb.db")
    before = open(path, "rb").read() if os.path.exists(path) else None
    t = a["t"]
    if t == "set":
        p = tool("setdb.py", ["-d", "./icbdb", a["k"], a["v"]], d, now, fault)
    elif t == "del":
        p = tool("deldb.py", (["-q"] if a["quiet"] else []) + ["-d", "./icbdb", "--"] + a["nicks"], d, now, fault)
    elif t == "cat":
        p = tool("catdb.py", ["./icbdb"], d, now)
    elif t == "export":
        p = tool("dbexport.py", ["./icbdb"], d, now)
    elif t == "count":
        p = tool("countdb.py", ["./icbdb"], d, now)
    elif t == "find":
        p = tool("finddb.py", ["-d", "./icbdb"] + a["nicks"], d, now)
    elif t == "move":
        p = tool("dbexport.py", ["./icbdb"], d, now)
        if p.returncode == 0 and before is not None:
            os.rename(path, path + ".was")
            p = tool("dbimport.py", ["./icbdb"], d, now, fault, p.stdout)
            if not os.path.exists(path):
                os.rename(path + ".was", path)      # nothing came of it (or there was nothing)
            else:
                os.unlink(path + ".was")
    elif t == "merge":
        with open(os.path.join(d, "other.db"), "wb") as f:
            f.write(enc(a["e"]))
        p = tool("dbexport.py", ["./other"], d, now)
        os.unlink(os.path.join(d, "other.db"))
        if p.returncode == 0:
            p = tool("dbimport.py", ["./icbdb"], d, now, fault, p.stdout)
    elif t == "migrate":
        mod = importlib.import_module("dbm." + a["kind"])
        old = mod.open(os.path.join(d, "legacy"), "n")
        for k, v in (regdb.parse(path) or {}).items():
            old[k] = v
        old.close()
        p = tool("dbm2icbdb.py", ["-o", "./fresh", "./legacy"], d, now, fault)
        fresh = os.path.join(d, "fresh.db")
        if os.path.exists(fresh):
            os.replace(fresh, path)
        for f in os.listdir(d):
            if f.startswith("legacy"):
                os.unlink(os.path.join(d, f))
    elif t == "mk":
        p = tool("mkdb.py", ["./icbdb"], d, now, fault, ("".join(x + "\n" for x in a["typed"])).encode("latin-1"))
    elif t == "prune":
        args = ["-d", str(a["days"]), "--database", "./icbdb"] + (["-y"] if a["how"] == "-y" else []) + (["-q"] if a["quiet"] else [])
        p = tool("nickprune.py", args, d, now, None, (a["how"] + "\n").encode() * 60 if a["how"] != "-y" else b"")
    a["rc"] = p.returncode
    a["said"] = saidlines(p.stdout)
    a["fault"] = bool(fault)
    after = open(path, "rb").read() if os.path.exists(path) else None
    a["same"] = before == after
    m = regdb.parse(path)
    a["whole"] = m is not None
    a["db"] = dec(m or {})
    strays = [f for f in os.listdir(d) if f.endswith(".tmp") or f.startswith(("fresh", "legacy", "other"))]
    for f in strays:
        os.unlink(os.path.join(d, f))
    a["strays"] = 0 if fault and fault[1].startswith("exit") else len(strays)
    if p.returncode and not fault:
        a["err"] = p.stderr.decode("latin-1")[-500:]
    return a


def kinds():
    ks = ["dumb"]
    try:
        __import__("dbm.ndbm")
        ks.append("ndbm")
    except ImportError:
        pass
    return ks


def date(r, now):
    x = r.random()
    if x < 0.15:
        return r.choice(["", "garbage", "6-Jan-1997", "6-jan-1997 21:27 PST", "-Jan-1997 x", "31-Feb-2001 00:00 UTC", "9-Foo-2000 x", "x 6-Jan-1997 21:27"])
    day = (BASE + now) // 86400 - r.choice([0, 1, 29, 30, 31, 59, 60, 364, 365, 366, 367, 400, 1000, 5000])
    import datetime
    t = datetime.date(1970, 1, 1) + datetime.timedelta(days=day)
    return "%s-%s-%d %02d:%02d UTC" % (r.choice(["%2d", "%d", "%02d"]) % t.day, MONTHS[t.month - 1], t.year, r.randrange(24), r.randrange(60))


def entry(r, n, now, db):
    for a in ATTRS:
        if a == "nick":
            v = n if r.random() < 0.9 else r.choice([n.upper(), "other", ""])
        elif a == "nummsg":
            v = str(r.choice([0, 0, 1, 2, 3]))
            for i in range(1, int(v) + 1 + (r.random() < 0.2)):
                for x in ("header", "from", "message"):
                    if r.random() < 0.9:
                        db["%s.%s%d" % (n, x, i)] = r.choice(VALUES)
        elif a in ("signon", "signoff"):
            v = date(r, now)
        else:
            v = r.choice(VALUES)
        if r.random() < 0.8:
            db["%s.%s" % (n, a)] = v
    return db


def action(r, now, db):
    some = lambda: r.choice(NICKS + ["ALICE", "Bob", "nobody"])
    t = r.choice(["set"] * 6 + ["del"] * 4 + ["cat", "count", "find", "find", "move", "move", "move", "merge", "merge", "migrate", "mk", "prune", "prune", "prune"])
    if t == "set":
        v = r.choice(VALUES).replace("\0", "")
        k = r.choice(sorted(db) or ["a.b"]) if r.random() < 0.4 else some() + "." + r.choice(ATTRS)
        return {"t": t, "k": k, "v": r.choice("0123") if k.endswith(".nummsg") else v}
    if t in ("del", "find"):
        return {"t": t, "nicks": [some() for _ in range(r.choice([1, 1, 1, 2, 3]))], "quiet": r.random() < 0.3}
    if t == "merge":
        e = {}
        for _ in range(r.randrange(0, 3)):
            entry(r, r.choice(NICKS), now, e)
        return {"t": t, "e": e}
    if t == "migrate":
        return {"t": t, "kind": r.choice(kinds())}
    if t == "mk":
        typed = [r.choice(["", "", "Some One", "\xe9", "a@b", "caf\xc3\xa9"]) for _ in range(3)]
        return {"t": t, "typed": typed, "ans": [x or y for x, y in zip(typed, ["Server Admin", "icb@yourdomain.com", "icbadmin@yourdomain.com"])]}
    if t == "prune":
        how = r.choice(["-y", "-y", "-y", "y", "Yes", "n", "", "q"])
        return {"t": t, "days": r.choice([365, 365, 30, 60, 0, 1000]), "how": how, "yes": how in ("-y", "y", "Yes"), "quiet": r.random() < 0.3,
                "day": (BASE + now) // 86400, "sec": (BASE + now) % 86400}
    return {"t": t}


def damage(r, b):
    x = r.random()
    if x < 0.15:
        return b[:r.randrange(0, 8)]
    if x < 0.25:
        return b"XXX\x01" + b[4:]
    return b[:r.randrange(8, len(b))] if len(b) > 9 else b[:4]


def run(scratch, seed, steps):
    """A random history of tool runs on one database."""
    r = random.Random(seed)
    d = tempfile.mkdtemp(prefix="tools.", dir=scratch)
    try:
        now = r.randrange(0, 80000)
        db = {}
        for _ in range(r.randrange(0, 5)):
            entry(r, r.choice(NICKS), now, db)
        if db or r.random() < 0.5:
            with open(os.path.join(d, "icbdb.db"), "wb") as f:
                f.write(enc(db))
        tr = {"db": dict(db), "steps": []}
        for _ in range(steps):
            a = action(r, now, db)
            a["damaged"] = False
            fault = None
            if a["t"] in ("set", "del", "merge", "mk", "move") and r.random() < 0.15:
                fault = [r.choice(["fsync", "replace"]), r.choice(["raise", "raise", "exit", "exit-after"])]
            path = os.path.join(d, "icbdb.db")
            if os.path.exists(path) and r.random() < 0.1 and a["t"] in ("set", "del", "cat", "count", "find", "merge", "mk", "prune"):
                keep = open(path, "rb").read()
                with open(path, "wb") as f:
                    f.write(damage(r, keep))
                a["damaged"] = True
                perform(d, a, now)
                a["db"] = dict(db)
                with open(path, "wb") as f:
                    f.write(keep)
            else:
                perform(d, a, now, fault)
            tr["steps"].append(a)
            db = a["db"]
            if not a["whole"] and not a["damaged"]:
                break
            now += r.choice([0, 0, 3600, 86400, 86400 * 40])
        return tr, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def job(kind, exe, scratch, seed, steps):
    return run(scratch, seed, steps)


def engine(ctx):
    import rec
    n, st = (1200, 40) if ctx.thorough else (72, 30)
    for lo in range(0, n, 96):
        args = [("tools", None, ctx.scratch, ctx.seed * 1000003 + j, st) for j in range(lo, min(n, lo + 96))]
        if regdb.judge(ctx, args, lambda i: "tools on a database, seed=%d" % args[i][3], module="IcbToolsTrace", job=job):
            return
