"""The server's text functions against spec/IcbFun.tla: exhaustively over small alphabets, and at random."""
import itertools, json, os, random, re, shutil, subprocess
import rec
from build import build_harness

SOURCES = ["namelist.c", "strlist.c", "strutil.c", "utf8.c", "wildmat.c"]


def h(s):
    return s.encode("latin-1").hex() or "-"


def un(x):
    return "" if x == "-" else bytes.fromhex(x).decode("latin-1")


def line(c):
    f = c["f"]
    if f == "wild":
        return "wild %s %s" % (h(c["a"]), h(c["b"]))
    if f == "text":
        return "text %s %d %d" % (h(c["a"]), c["n"], c["n"] + 1)
    if f == "fmt":
        return "fmt %s %d" % (h(c["a"]), c["n"])
    return "%s %s" % (f, h(c["a"]))


class Died(Exception):
    pass


def call(exe, lines):
    p = subprocess.run([exe], input="\n".join(lines) + "\n", capture_output=True, encoding="latin-1",
                       env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", LC_ALL="C"))
    out = p.stdout.split("\n")[:-1]
    if p.returncode != 0 or len(out) != len(lines):
        raise Died("the function ended (rc %d) at %s\n%s" % (p.returncode, lines[min(len(out), len(lines) - 1)][:300], p.stderr[-3000:]))
    return out


def fill(exe, cases):
    """Perform the cases on the real functions and enter the results."""
    lines, where = [], []
    for c in cases:
        if c["f"] == "list":
            lines.append("linit %d" % c["n"])
            where.append(None)
        elif c["f"] == "sort":
            lines.append("snew")
            where.append(None)
        if "ops" in c:
            for o in c["ops"]:
                lines.append(o[0] + (" " + h(o[1]) if o[1] is not None else "") + (" %d" % c["n"] if o[0] in ("salpha", "sdel") else ""))
                where.append((c, o))
        else:
            lines.append(line(c))
            where.append((c, None))
    for w, r in zip(where, call(exe, lines)):
        if w is None:
            continue
        c, o = w
        if o is not None:
            x = r.split()
            v = x[:1] + [un(y) for y in x[1:]] if o[0] in ("lall", "sall") and x[0] not in ("tail", "links") else x if o[0] == "sall" else un(r) if o[0] == "lget" else r
            if o[1] is None:
                o[1] = ""
            o.append(v)
        elif c["f"] == "split":
            c["r"] = [un(y) for y in r.split(" ")]
        else:
            c["r"] = r if c["f"] in ("wild", "fmt") else un(r)


def judge(ctx, exe, cases, what, chunk=400):
    try:
        fill(exe, cases)
    except Died as e:
        ctx.violation = ("%s: %s" % (what, e), {"how": what, "failure": str(e)})
        return True
    d = rec.spec_dir(ctx.scratch)
    try:
        ch = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
        with open(os.path.join(d, "cases.json"), "w") as f:
            json.dump(ch, f)
        rc, out = rec.tlc("IcbFun.tla", "IcbFun.cfg", d, timeout=3000 if ctx.thorough else 700, extra=("-fpmem", "0.1"))
        bad = [json.loads(x) for x in rec.printed(out, "WRONG")]
        good = rec.printed(out, "GOOD")
        if rc != 0 or len(bad) + len(good) != len(ch):
            raise rec.TlcError("TLC rc=%d on %s\n%s" % (rc, what, out[-5000:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.add("calls", sum(len(c.get("ops", [1])) for c in cases))
    ctx.add("states", len(ch) * 2)
    ctx.add("traces_validated_against_impl", len(cases))
    if cases:
        ctx.sample({k: v for k, v in cases[len(cases) // 2].items() if k != "ops"})
    if bad:
        b = bad[0]
        c = ch[b["chunk"] - 1][b["case"] - 1]
        if "ops" in c:
            txt = "%s of at most %s names: after %s the specification disagrees at operation %d" % (c["f"], c["n"], c["ops"][:b["at"]], b["at"])
        else:
            txt = "%s: the server says %r, the specification %r (and %d more of its kind)" % ({k: v for k, v in c.items() if k != "r"}, c["r"], b["expected"], b["wrong"] - 1)
        ctx.violation = ("%s\n%s" % (what, txt), {"how": what, "case": c, "expected": b["expected"], "text": txt})
        return True
    return False


def strings(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


def wild(ctx):
    exe = build_harness(ctx.scratch, "funh.c", SOURCES, "funh")
    rng = random.Random(ctx.seed)
    texts = list(strings("ab", 3))
    cases = [{"f": "wild", "a": t, "b": p} for p in strings("ab*?[]", 3 if not ctx.thorough else 5) for t in texts]
    if judge(ctx, exe, cases, "all patterns over ab*?[] up to 3"):
        return
    cases = [{"f": "wild", "a": t, "b": p} for p in strings("a*?b", 5 if not ctx.thorough else 7) for t in (texts if ctx.thorough else texts[3:])]
    if judge(ctx, exe, cases, "all patterns over a*?b"):
        return
    cl = list(strings("ac]-^\\", 3 if not ctx.thorough else 5))
    cases = [{"f": "wild", "a": t, "b": "[" + p + "]" + s} for p in cl for s in ("", "*") for t in ("", "a", "b", "c", "]", "-", "^", "\\", "ab", "[a")]
    if judge(ctx, exe, cases, "all classes over ac]-^\\"):
        return
    al = "aabbc@.!*-[]^\\?\xe9\xff\x80A0"
    cases = []
    for _ in range(4000 if not ctx.thorough else 100000):
        p = "".join(rng.choice(al) for _ in range(rng.randrange(0, 14)))
        t = "".join(rng.choice(al) for _ in range(rng.randrange(0, 14)))
        if rng.random() < 0.6:       # a text that nearly matches
            t = "".join("".join(rng.choice("abc@.") for _ in range(rng.randrange(3))) if c == "*" else rng.choice(al) if c == "?" else c for c in p if c not in "[]\\")
        cases.append({"f": "wild", "a": t, "b": p})
    for u in ("root", "u1", "~u1", "a.b"):
        for hst in ("localhost", "127.0.0.1", "a.example.com", "b.a.example.com"):
            for p in ("*", "*@*", u + "@*", "*@" + hst, "?*@*.example.com", "*@*.example.*", "[ru]*@*", "[^r]*@*", "*.*.*", u + "@" + hst, "\\*@*", "*[0-9]@*", "*@127.0.0.[1-9]", "*@127.0.0.[2-9]"):
                cases.append({"f": "wild", "a": u + "@" + hst, "b": p})
    judge(ctx, exe, cases, "random patterns and texts")


def text(ctx):
    exe = build_harness(ctx.scratch, "funh.c", SOURCES, "funh")
    rng = random.Random(ctx.seed)
    reps = ["A", " ", "\x1f", "\x7f", "\x80", "\x8f", "\x90", "\x9f", "\xa0", "\xbf", "\xc0", "\xc1", "\xc2", "\xdf", "\xe0", "\xe1", "\xed", "\xee", "\xef", "\xf0", "\xf1", "\xf4", "\xf5", "\xff"]
    cases = [{"f": "text", "a": a, "n": n} for a in strings(reps, 2) for n in range(4)]
    cases += [{"f": "text", "a": "".join(t), "n": n} for t in itertools.product(reps, repeat=3) for n in (2, 3)]
    four = itertools.product([c for c in reps if c > "\xc1"], [c for c in reps if c > "\x7f"] + ["A"], ["A", "\x80", "\xbf", "\xc2", "\xe0"], ["A", "\x80", "\xbf", "\xff"])
    cases += [{"f": "text", "a": "".join(t) + "z", "n": 5} for t in four]
    if judge(ctx, exe, cases, "all texts over the boundary bytes"):
        return
    cases = []
    bs = [chr(i) for i in range(1, 256)]
    uni = ["\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xed\x9f\xbf", "\xed\xa0\x80", "\xf4\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xe0\x80\x80", "\xc0\x80", "hello", "%s", " ", "\t", "\x01"]
    for _ in range(3000 if not ctx.thorough else 60000):
        a = "".join(rng.choice(bs) if rng.random() < 0.3 else rng.choice(uni) for _ in range(rng.randrange(0, 40)))
        cases.append({"f": "text", "a": a, "n": rng.choice([0, 1, 5, 30, 100, 250, 254, max(0, len(a) - 1), len(a)])})
    for f in ("nick", "group", "lower", "upper", "word", "tail"):
        cases += [{"f": f, "a": b} for b in bs]
        cases += [{"f": f, "a": a} for a in strings("a \t", 4)] if f in ("word", "tail") else []
        cases += [{"f": f, "a": "".join(rng.choice(bs) if rng.random() < 0.5 else rng.choice("ab XY \t") for _ in range(rng.randrange(0, 80)))} for _ in range(300)]
    cases += [{"f": f, "a": "w" * n + " tail"} for f in ("word", "tail") for n in (62, 63, 64, 65, 200)]
    cases += [{"f": "fmt", "a": a, "n": n} for a in strings("%sdx", 4) for n in (0, 1)]
    cases += [{"f": "split", "a": a} for a in strings("a\x01", 4)]
    cases += [{"f": "split", "a": "\x01".join(rng.choice(["", "x", "yy"]) for _ in range(k))} for k in range(1, 30) for _ in range(4)]
    judge(ctx, exe, cases, "text, names, words and fields at random")


def lists(ctx):
    exe = build_harness(ctx.scratch, "funh.c", SOURCES, "funh")
    rng = random.Random(ctx.seed)
    # every short history of a short list
    A = [["lput", "a"], ["lput", "B"], ["lput", "A"], ["lput", "c"], ["ldel", "a"], ["ldel", "b"], ["lget", None], ["lall", None]]
    cases = []
    for m in (1, 2, 3):
        for t in itertools.product(range(len(A)), repeat=4 if not ctx.thorough else 6):
            n, ops, ok = 0, [], True
            have = []
            for i in t:
                o = A[i]
                k = (o[1] or "").lower()
                if o[0] == "lput":
                    have = ([k] + [x for x in have if x != k])[:m]
                elif o[0] == "ldel":
                    have = [x for x in have if x != k]
                elif o[0] == "lget" and not have:
                    ok = False
                    break
                ops.append(list(o))
            if ok:
                cases.append({"f": "list", "n": m, "ops": ops + [["lhas", "a"], ["lhas", "C"], ["lall", None]]})
    if judge(ctx, exe, cases, "all short histories of a name list", 200):
        return
    cases = []
    names = ["alice", "Alice", "ALICE", "bob", "b", "bo", "carol", "x@y", "*", "a*", "?ob", "[ab]*", "\xe9", "\xc9", "root@host", "*@*", ""]
    for _ in range(400 if not ctx.thorough else 8000):
        m, have, ops = rng.choice([1, 2, 3, 5, 20]), 0, []
        have = []
        for _ in range(rng.choice([10, 40, 120])):
            o = rng.choice(["lput", "lput", "lput", "ldel", "ldel", "lhas", "lmatch", "lget", "lall", "lclear" if rng.random() < 0.2 else "lhas"])
            k = rng.choice(names)
            if o == "lget" and not have:
                continue
            kl = "".join(c.lower() if c < "\x7f" else c for c in k)
            if o == "lput":
                have = ([kl] + [x for x in have if x != kl])[:m]
            elif o == "ldel":
                have = [x for x in have if x != kl]
            elif o == "lclear":
                have = []
            ops.append([o, None if o in ("lget", "lall", "lclear") else k])
        cases.append({"f": "list", "n": m, "ops": ops + [["lall", None]]})
    for _ in range(300 if not ctx.thorough else 4000):
        ops = []
        for _ in range(rng.choice([5, 20, 60])):
            o = rng.choice(["salpha", "salpha", "sdel", "sall"])
            ops.append([o, None if o == "sall" else rng.choice(["a", "A", "b", "B", "ab", "Ab", "", "_", "\xe9", "z", "Z1"])])
        cases.append({"f": "sort", "n": rng.randrange(2), "ops": ops + [["sall", None]]})
    judge(ctx, exe, cases, "name lists at random", 40)
