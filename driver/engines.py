"""Engines of the properties that need more than the generic one."""
import os, re, shutil, signal, subprocess, time
import build, props, rec, regdb, fun, tools
from srv import Server, ServerDied, Hang
from build import ADMIN_PWD


def generic(ctx):
    p = props.P[ctx.pid]
    for sc in p["quick"] + (p["thorough"] if ctx.thorough else []):
        if ctx.scope(sc, p["rel"], tls=p.get("tls", False)):
            return
    n, st = p.get("traces", 160), p.get("steps", 600)
    if ctx.thorough:
        n *= 12
    ctx.random(p["profile"], p["rel"], n, st, files=p.get("files"), tls=p.get("tls", False))


def crowd(ctx):
    """A server with no place left."""
    p = props.P[ctx.pid]
    for k, n in enumerate((8, 40)):
        prof = dict(p["profile"], crowd={"in": n, "out": 2 + k}, clients=5, crash=0)
        if ctx.random(prof, p["rel"], (8 if ctx.thorough else 2), 760 if n < 20 else 700, seed0=700000 + 100 * k, name="crowded"):
            return


def restart_finding(ctx):
    """The known finding: the administrator's restart does not bring the server back."""
    s = Server(ctx.server(), ctx.scratch)
    try:
        s.connect("a")
        s.pkt("a", ("au1\x01admin\x01g\x01login\x01" + ADMIN_PWD).encode())
        s.sync()
        s.pkt("a", b"hrestart\x01")
        try:
            s.sync()
        except (ServerDied, Hang):
            ctx.known.append("restart-command")
    except (ServerDied, Hang) as e:
        ctx.notes.append("restart probe: %s" % e)
    finally:
        s.close()
        # whatever the server turned itself into
        subprocess.run(["pkill", "-KILL", "-f", ctx.scratch + "/"], check=False)


def channel(ctx):
    """The channel to a client that does not keep up, explored by itself."""
    d = rec.spec_dir(ctx.scratch)
    try:
        for size, cap, queue, most in [(3, 7, 2, 7), (2, 3, 3, 8)] + ([(3, 8, 4, 11), (5, 4, 3, 9)] if ctx.thorough else []):
            with open(os.path.join(d, "IcbNetMC.cfg")) as f:
                c = f.read()
            for k, v in (("Size", size), ("Cap", cap), ("Queue", queue), ("Most", most)):
                c = re.sub(r"\b%s = \d+" % k, "%s = %d" % (k, v), c)
            with open(os.path.join(d, "IcbNetMC.cfg"), "w") as f:
                f.write(c)
            rc, out = rec.tlc("IcbNetMC.tla", "IcbNetMC.cfg", d, timeout=600)
            m = re.search(r"(\d+) states generated, (\d+) distinct", out)
            if rc != 0 or not m:
                raise rec.TlcError("channel: TLC rc=%d\n%s" % (rc, out[-3000:]))
            ctx.cov["states"] = ctx.cov.get("states", 0) + int(m.group(2))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def soft(engine):
    """An engine that calls the server's functions directly: if they cannot be found any more
    under their names, the property is decided on the whole server alone."""
    def run(ctx):
        try:
            engine(ctx)
        except build.BuildError as e:
            ctx.server()            # it does build, does it?
            ctx.notes.append("the functions cannot be called directly: %s" % str(e)[-600:])
    return run


ENGINES = {
    "C15": [soft(regdb.engine), generic],
    "C29": [channel, generic],
    "C27": [soft(fun.wild), generic],
    "C28": [soft(fun.text), generic],
    "C33": [soft(fun.lists), generic],
    "C31": [tools.engine, generic],
    "C24": [generic, crowd, restart_finding],
    "C25": [generic, crowd],
    "C02": [generic, crowd],
}
