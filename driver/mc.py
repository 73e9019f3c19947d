"""Model checking of a small scope of the specification, and tours: walks over every
transition TLC found, performed on the real server and validated like any recording."""
import json, os, re, shutil, time, random
from collections import deque
import rec
from rec import TlcError, spec_dir, tlc, printed, Recorder, make_cfg
from srv import ServerDied, Hang
from build import ADMIN_PWD

SOH = "\x01"


def login(id_, nick, group, pw=None, kind="login"):
    f = [id_, nick, group, kind]
    if pw is not None:
        f.append(pw)
    return "a" + SOH.join(f)


def cmd(name, arg=""):
    return "h" + name + SOH + arg


class Scope:
    """clients: list of login packets; acts: (client index from 1, packet) or dicts."""

    def __init__(self, name, logons, acts, prefix=(), depth=99, files=None, leave=("rst",), ticks=(), now=1000, relog=True):
        self.name, self.depth, self.files, self.now = name, depth, files or {}, now
        self.clients = len(logons)
        A = []
        for c, l in enumerate(logons, 1):
            for p in (l if isinstance(l, (list, tuple)) else [l]):
                if relog:
                    A.append(dict(p, t="on", c=c) if isinstance(p, dict) else {"t": "on", "c": c, "d": p})
            for k in leave:
                A.append({"t": k, "c": c})
        for a in acts:
            if isinstance(a, dict):
                A.append(a)
            else:
                who, p = a
                for c in (range(1, self.clients + 1) if who == 0 else [who] if isinstance(who, int) else who):
                    A.append({"t": "pkt", "c": c, "d": p})
        for t in ticks:
            A.append({"t": "tick", "d": t})
        self.acts = A
        P = []
        for a in prefix:
            if isinstance(a, dict):
                P.append(a)
            elif isinstance(a, int):
                l = logons[a - 1]
                P.append({"t": "on", "c": a, "d": l if isinstance(l, str) else l[0]})
            else:
                P.append({"t": "pkt", "c": a[0], "d": a[1]})
        self.prefix = P

    def act(self, a):
        if a["t"] == "files":
            return {"t": "cfg", "cfg": make_cfg(dict(self.files, **a["files"]), "127.9.9.9")}
        if "src" in a:
            return dict(a, ip=[int(x) for x in a["src"].split(".")], node=rec.node_name(a["src"]), at=a["src"])
        return a

    def json(self):
        cfg = make_cfg(self.files, "127.9.9.9")
        return {"cfg": cfg, "now": self.now, "first": 6, "db": {}, "prefix": self.prefix, "acts": [self.act(a) for a in self.acts],
                "clients": self.clients, "depth": self.depth}


def explore(scope, props, scratch, timeout=600, heap="8g"):
    d = spec_dir(scratch)
    try:
        with open(os.path.join(d, "scope.json"), "w") as f:
            json.dump(scope.json(), f)
        with open(os.path.join(d, "props.json"), "w") as f:
            json.dump(list(props), f)
        t = time.time()
        rc, out = tlc("IcbMC.tla", "IcbMC.cfg", d, timeout=timeout, heap=heap)
        broken = printed(out, "BROKEN")
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        if rc != 0 and not broken or not m:
            raise TlcError("scope %s: TLC rc=%d\n%s" % (scope.name, rc, out[-6000:]))
        init = printed(out, "INIT")[0]
        edges = {}
        for x in printed(out, "EDGE"):
            a, i, b = x.split()
            edges.setdefault(a, {})[int(i)] = b
        trace = out[out.find("Error: "):][:6000] if broken else ""
        return {"init": init, "edges": edges, "states": int(m.group(2)), "transitions": sum(len(e) for e in edges.values()),
                "broken": broken, "trace": trace, "wall": time.time() - t, "complete": scope.depth >= 99}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tours(graph, maxlen=150, budget=None, seed=1, maxwalks=None):
    """Walks from the initial state that together take every edge (or budget edges)."""
    E = graph["edges"]
    todo = {a: set(e) for a, e in E.items()}
    rng = random.Random(seed)
    left = sum(len(x) for x in todo.values())
    goal = 0 if budget is None else max(0, left - budget)
    walks = []
    while left > goal and (maxwalks is None or len(walks) < maxwalks):
        cur, walk, new = graph["init"], [], 0
        while len(walk) < maxlen and left > goal:
            if todo.get(cur):
                i = rng.choice(sorted(todo[cur]))
                todo[cur].discard(i)
                left -= 1
                new += 1
                walk.append(i)
                cur = E[cur][i]
                continue
            par, q, hit = {cur: None}, deque([cur]), None
            while q:
                x = q.popleft()
                if todo.get(x):
                    hit = x
                    break
                for i, y in E.get(x, {}).items():
                    if y not in par:
                        par[y] = (x, i)
                        q.append(y)
            if hit is None:
                break
            path = []
            while par[hit] is not None:
                hit, i = par[hit]
                path.append(i)
            if len(walk) + len(path) > maxlen and walk and new:
                break
            for i in reversed(path):
                walk.append(i)
                cur = E[cur][i]
        if not new:
            break
        walks.append(walk)
    return walks, left


def perform(exe, scratch, scope, walk, tls=False):
    """Do the walk on a real server; returns (trace, failure)."""
    r = Recorder(exe, scratch, files=scope.files, t0=scope.now, tls=tls)
    fail = None
    if sum(walk) % 3 == 0:      # the users have the last slots
        r.slots = iter(range(253, 0, -1)).__next__
    try:
        slot = {}
        try:
            for a in scope.prefix + [scope.acts[i - 1] for i in walk]:
                t = a["t"]
                if t == "on":
                    if slot.get(a["c"]) in r.live:
                        continue
                    s = r.connect(tls, a.get("src", "127.0.0.1"))
                    slot[a["c"]] = s
                    if s is not None and a["d"]:
                        r.pkt(s, a["d"], True)
                elif t == "tick":
                    r.tick(a["d"], True)
                elif t == "restart":
                    r.restart(a.get("sig"))
                elif t == "hup":
                    r.hup()
                elif t == "files":
                    r.setfiles(dict(scope.files, **a["files"]))
                elif t == "tool":
                    r.tool(a["tool"])
                else:
                    s = slot.get(a["c"])
                    if s is None or s not in r.live:
                        continue
                    if t == "pkt":
                        r.pkt(s, a["d"], True)
                    elif t == "bytes":
                        r.bytes(s, a["d"], True)
                    elif t == "choke":
                        if not r.srv.clients[s].choked:
                            r.choke(s, a["cap"])
                    elif t in ("room", "unchoke"):
                        if r.srv.clients[s].choked:
                            r.more(s, a["k"]) if t == "room" else r.unchoke(s)
                    else:
                        getattr(r, t)(s)
                if r.steps and r.steps[-1]["dead"]:
                    break
        except (ServerDied, Hang) as e:
            fail = "%s: %s" % (type(e).__name__, e)
        return r.trace(), fail
    finally:
        r.close()
