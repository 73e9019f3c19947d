#!/usr/bin/env python3
"""check.py <property> [quick|thorough] — decide one property on /repo's working tree.

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: it did not.
Anything else: the check could not decide (build failure, tool failure)."""
import concurrent.futures as cf
import json, os, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "driver"))
import build, engines, gen, mc, rec, props            # noqa: E402
from srv import ServerDied, Hang             # noqa: E402

WORKERS = 8


def job_random(exe, scratch, seed, profile, steps, files, tls):
    try:
        return gen.run(exe, scratch, seed, profile, steps, files, tls)
    except (ServerDied, Hang, OSError) as e:
        return {"now": 0, "db": {}, "cfg": {}, "steps": []}, "%s: %s" % (type(e).__name__, e)


def job_walk(exe, scratch, scope, walk, tls):
    try:
        return mc.perform(exe, scratch, scope, walk, tls)
    except (ServerDied, Hang, OSError) as e:
        return {"now": 0, "db": {}, "cfg": {}, "steps": []}, "%s: %s" % (type(e).__name__, e)


def command_of(step):
    """The kind of action a step is: a command name, or open, login, conn, tick, ..."""
    if step["t"] != "bytes":
        return step["t"]
    d = step["d"]
    if len(d) < 2 or ord(d[0]) != len(d) - 1:
        return "frames"
    p = d[1:].split("\0")[0]
    if p[:1] == "h":
        name = p[1:].split("\x01")[0].lower()
        arg = p.split("\x01")[1] if "\x01" in p else ""
        if name == "m" and arg.lower().startswith("server"):
            w = arg.split()
            return w[1].lower() if len(w) > 1 else "m"
        return name or "bogus"
    return {"a": "login", "b": "open", "m": "pong", "l": "ping", "n": "n"}.get(p[:1], "bogus")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="icbcheck.")
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "steps_validated": 0, "samples": []}
        self.violation = None        # (what, replay dict)
        self.known = []
        self.notes = []
        self._pool = None
        self.exe = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def server(self):
        if self.exe is None:
            self.exe = build.build_server(self.scratch, brick=props.P.get(self.pid, {}).get("brick", False))
        return self.exe

    def pool(self):
        if self._pool is None:
            self._pool = cf.ProcessPoolExecutor(WORKERS)
        return self._pool

    def elapsed(self):
        return time.time() - self.t0

    def close(self):
        if self._pool:
            procs = list(self._pool._processes.values())
            self._pool.shutdown(wait=False, cancel_futures=True)
            for p in procs:         # their servers die with them
                p.kill()
            for p in procs:
                p.join(5)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def add(self, k, n):
        self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    # -- validation of a batch of executions --------------------------------
    def relevant(self, tr, b, rel):
        if rel == props.ANY or b.get("props"):
            return True
        if callable(rel):
            return rel(tr["steps"][b["step"] - 1], b)
        c = command_of(tr["steps"][b["step"] - 1])
        return c in rel or c == "frames"      # several commands, or the end of one

    def judge(self, jobs, results, again, rel, what, pids):
        """jobs[i] produced results[i]; again(i) performs it anew.  True if a violation was found."""
        for i, (tr, fail) in enumerate(results):
            if fail:
                for _ in range(2):
                    tr2, fail2 = again(i)
                    if fail2:
                        last = tr2["steps"][-12:]
                        self.violation = ("%s: %s" % (what(i), fail2[:2000]), {"how": what(i), "failure": fail2, "trace": tr2, "last_steps": last})
                        return True
                self.notes.append("not repeated: %s: %s" % (what(i), fail[:300]))
        good = [r[0] for r in results]
        bad, st = rec.validate(good, self.scratch, props=pids)
        self.add("traces_validated_against_impl", len(good))
        self.add("steps_validated", sum(len(t["steps"]) for t in good))
        self.add("states", st["states"])
        if good and good[0]["steps"]:
            self.sample({"execution": what(0), "step": {k: v for k, v in good[0]["steps"][len(good[0]["steps"]) // 2].items()}})
        seen = 0
        for b in bad:
            i = b["trace"] - 1
            if not self.relevant(good[i], b, rel):
                self.notes.append("divergence outside this property at %s: %s" % (what(i), rec.show(good, b)[:600]))
                continue
            seen += 1
            if seen > 4:
                break
            for _ in range(2):
                tr2, fail2 = again(i)
                if fail2:
                    self.violation = ("%s: %s" % (what(i), fail2[:2000]), {"how": what(i), "failure": fail2, "trace": tr2})
                    return True
                bad2, _st = rec.validate([tr2], self.scratch, props=pids)
                bad2 = [x for x in bad2 if self.relevant(tr2, x, rel)]
                if bad2:
                    txt = rec.show([tr2], bad2[0])
                    self.violation = ("%s\n%s" % (what(i), txt), {"how": what(i), "mismatch": bad2[0], "text": txt,
                                                                  "trace": dict(tr2, steps=tr2["steps"][:bad2[0]["step"]])})
                    return True
            self.notes.append("not repeated: %s: %s" % (what(i), rec.show(good, b)[:600]))
        return False

    # -- engines --------------------------------------------------------------
    def random(self, profile, rel, traces, steps, files=None, tls=False, seed0=0, pids=None, name="random"):
        exe = self.server()
        base = self.seed * 1000003 + seed0
        chunk = 200
        pids = [self.pid] if pids is None else pids
        for lo in range(0, traces, chunk):
            ks = list(range(lo, min(traces, lo + chunk)))
            fl = [files(k) if callable(files) else files for k in ks]
            args = [(exe, self.scratch, base + k, profile, steps, f, tls) for k, f in zip(ks, fl)]
            res = list(self.pool().map(job_random, *zip(*args)))
            if self.judge(args, res, lambda i: job_random(*args[i]), rel, lambda i: "%s execution seed=%d steps=%d" % (name, args[i][2], steps), pids):
                return True
        return False

    def scope(self, scope, rel, budget=None, tls=False, pids=None):
        exe = self.server()
        pids = [self.pid] if pids is None else pids
        g = mc.explore(scope, pids, self.scratch, timeout=5000 if self.thorough else 600)
        self.add("states", g["states"])
        self.add("transitions", g["transitions"])
        self.cov.setdefault("scopes", []).append({"scope": scope.name, "states": g["states"], "transitions": g["transitions"], "depth": scope.depth, "tlc_s": round(g["wall"], 1)})
        if g["broken"]:
            # a failing predicate on the model alone: the specification itself breaks the property
            raise rec.TlcError("the specification violates %s in scope %s:\n%s" % (self.pid, scope.name, g["trace"]))
        walks, left = mc.tours(g, budget=budget, seed=self.seed, maxwalks=None if self.thorough else 700)
        self.cov["scopes"][-1].update({"tours": len(walks), "edges_replayed": g["transitions"] - left})
        chunk = 400
        for lo in range(0, len(walks), chunk):
            ws = walks[lo:lo + chunk]
            args = [(exe, self.scratch, scope, w, tls) for w in ws]
            res = list(self.pool().map(job_walk, *zip(*args), chunksize=4))
            if self.judge(args, res, lambda i: job_walk(*args[i]), rel, lambda i: "tour of scope %s: %s" % (scope.name, args[i][3]), pids):
                return True
        return False




def load_known():
    path = os.path.join(VERIF, "known-findings.json")
    try:
        return json.load(open(path))
    except OSError:
        return {"findings": [], "fixed": []}


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    try:
        for e in engines.ENGINES.get(pid, [engines.generic]):
            e(ctx)
            if ctx.violation:
                break
        for k in load_known()["findings"]:
            if k["property"] == pid and k["id"] in ctx.known:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        manifest = {}
        try:
            manifest = {c["property"]: c for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}
        except (OSError, ValueError):
            pass
        ev = {"property": pid, "tier": tier, "seed": seed, "level": manifest.get(pid, {}).get("level", "model_checking"),
              "coverage": ctx.cov, "wall_s": round(ctx.elapsed(), 1), "violations": 1 if ctx.violation else 0}
        if ctx.notes:
            ev["coverage"]["notes"] = ctx.notes[:20]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for n in ctx.notes[:10]:
            print("NOTE: " + n)
        if ctx.violation:
            what, data = ctx.violation
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, tier))
            with open(path, "w") as f:
                json.dump(data, f, indent=1)
            print(what[:6000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("property %s held: %s (%.0f s)" % (pid, {k: v for k, v in ctx.cov.items() if isinstance(v, int)}, ctx.elapsed()))
        return 0
    except build.BuildError as e:
        print("cannot build: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
