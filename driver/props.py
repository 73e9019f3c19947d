"""What each property's check explores: the random profile, the model-checking scopes and
which divergences from the specification are about the property."""
from gen import ALL, MACROS, PROFILES
from mc import Scope, login, cmd
from build import ADMIN_PWD

NOISE = {a: 0.25 for a in ALL}


def prof(acts, macros, macro=0.6, noise=True, **kw):
    """Focus on acts (dict name -> weight) and macros; everything else happens now and then."""
    a = dict(NOISE) if noise else {}
    a.update(acts)
    m = {k: 0.04 for k in MACROS}
    m.update(macros)
    d = {"clients": 5, "acts": a, "macros": m, "macro": macro}
    d.update(kw)
    return d


A, B, C, D = "alice", "bob", "carol", "dave"
LA, LB, LC = login("u1", A, "g"), login("u2", B, "g"), login("u3", C, "h")


def L(id_, nick, group="g", pw=None, kind="login"):
    return login(id_, nick, group, pw, kind)


ANY = "*"
P = {}


def prop(id_, profile, rel, quick=(), thorough=(), **kw):
    P[id_] = dict(profile=profile, rel=rel, quick=list(quick), thorough=list(thorough), **kw)


# ---------------------------------------------------------------- C01 identity
prop("C01", prof({"name": 6, "relogin": 2, "p": 2}, {"name": 6, "slot": 1, "badlogin": 3, "reg": 2, "admin": 2}, odd=0.25, admin=0.1, grow=0.5, leave=0.08),
     {"login", "name", "conn", "fin", "rst", "open", "m", "w", "whereis", "beep", "p", "drop", "tick", "bogus"},
     [Scope("names", [[L("u1", "alice"), L("u1", "ALICE"), L("u1", "al ice")], [L("u2", "alice"), L("u2", "bob")], [L("u3", "Server"), L("u3", "admin", "g", ADMIN_PWD), L("u3", "admin", "g", "bad")]],
            [((1, 2), cmd("name", "alice")), ((1, 2), cmd("name", "BOB")), ((1, 2), cmd("name", "admin")), (2, cmd("name", "server")), (2, cmd("name", "")), (1, cmd("m", "bob hi"))])],
     [Scope("names3", [[L("u1", "alice"), L("u1", "ALICE"), L("u1", "twelvechars12")], [L("u2", "alice"), L("u2", "bob"), L("u2", "twelvechars1")], [L("u3", "Server"), L("u3", "admin", "g", ADMIN_PWD), L("u3", "admin", "g", "bad"), L("u3", "bob", "h")]],
            [(0, cmd("name", "alice")), (0, cmd("name", "BOB")), (0, cmd("name", "admin")), (0, cmd("name", "server")), (2, cmd("name", "")), ((2, 3), cmd("p", "pw1")), (1, cmd("m", "bob hi"))])])

# ---------------------------------------------------------------- C02 login
prop("C02", prof({"relogin": 4, "bogus": 3, "group": 3}, {"badlogin": 8, "restrict": 1, "secret": 1, "reg": 1, "name": 1, "frames": 1}, odd=0.2, grow=0.6, leave=0.1),
     {"login", "conn", "fin", "rst", "bogus", "w", "g", "open", "m", "tick", "whereis", "name", "pong", "other", "p", "drop"},
     [Scope("logins", [[L("u1", "alice"), L("u1", "alice", "g", None, "w"), L("u1", "", "g"), L("u1", "alice", "g", None, "bogus")],
                       [L("u2", "bob"), L("u2", "bob", "@alice"), L("u2", "alice"), L("u2", "bob", ""), ""]],
            [(1, cmd("status", "r")), (1, cmd("status", "i")), (2, cmd("g", "g")), (2, "bhi"), (2, L("u2", "carol", "h")), (0, cmd("w", ""))], leave=("fin",))],
     [Scope("logins3", [[L("u1", "alice"), L("u1", "alice", "g", None, "w"), L("u1", "", "g"), L("u1", "alice", ".g")],
                        [L("u2", "bob"), L("u2", "bob", "@alice"), L("u2", "alice"), ""], [L("u3", "carol", "@bob"), L("u3", "carol", "ICB"), ""]],
            [(1, cmd("status", "r")), (1, cmd("status", "i")), (2, cmd("g", "g")), ((2, 3), "bhi"), ((2, 3), L("u2", "dave", "h")), (0, cmd("w", ""))], leave=("fin",))])

# ---------------------------------------------------------------- C03 open messages
prop("C03", prof({"open": 10, "group": 4, "echo": 2, "hush": 2, "status": 2, "exclude": 2, "name": 1}, {"open": 8, "spam": 3, "hush": 2, "control": 1, "rename": 1, "slot": 1}),
     {"open", "exclude", "g", "echoback", "hush", "shush", "frames", "login", "name", "status", "boot", "fin", "rst"},
     [Scope("open", [LA, LB, LC], [(0, "bhi"), (1, cmd("echoback", "on")), (2, cmd("hush", "-o alice")), ((1, 3), cmd("g", "g")), ((1, 3), cmd("g", "h"))],
            prefix=[1, 2, 3], relog=False, leave=()),
Scope("thrown", [L("u1", A, "1"), L("u2", B, "1"), L("u3", C, "ICB")], [(1, "bx"), (2, "by"), (3, "bz"), (1, cmd("g", "1"))], prefix=[1, 2, 3], ticks=(1,), relog=False, leave=(), depth=6),
      Scope("one", [L("u1", A, "1"), L("u2", B, "1")], [(0, "bx"), (1, cmd("echoback", "verbose"))], prefix=[1, 2], ticks=(1,), depth=6, relog=False, leave=())],
     [Scope("open3", [LA, LB, LC], [(0, "bhi"), (1, cmd("echoback", "on")), (2, cmd("hush", "-o alice")), ((1, 3), cmd("g", "g")), ((1, 3), cmd("g", "h")), (1, cmd("status", "q"))])])

# ---------------------------------------------------------------- C04 private messages
prop("C04", prof({"m": 10, "name": 2, "echo": 2, "hush": 3, "away": 2, "noaway": 1}, {"private": 8, "hush": 3, "slot": 2, "beep": 1}),
     {"m", "login", "name", "hush", "shush", "echoback", "away", "noaway", "fin", "rst", "conn", "whereis"},
     [Scope("priv", [LA, LB, LC], [(1, cmd("m", "bob hi")), ((2, 3), cmd("m", "alice yo")), (1, cmd("m", "nobody x")), (1, cmd("echoback", "verbose")), (2, cmd("hush", "-p alice")),
                                   (2, cmd("away", "out %s")), (2, cmd("noaway", "")), (3, cmd("name", "bob")), (2, cmd("name", "zed"))], leave=("rst",), depth=5)],
     [Scope("priv3", [LA, LB, LC], [(1, cmd("m", "bob hi")), ((2, 3), cmd("m", "alice yo")), (1, cmd("m", "nobody x")), (1, cmd("echoback", "verbose")), (2, cmd("hush", "-p alice")),
                                    (2, cmd("away", "out %s")), (2, cmd("noaway", "")), (3, cmd("name", "bob")), (2, cmd("name", "zed"))], ticks=(11,), depth=8)])

# ---------------------------------------------------------------- C05 groups
prop("C05", prof({"group": 12, "status": 4, "who": 4, "topic": 2, "boot": 2}, {"rename": 4, "size": 1, "modleave": 2, "secret": 1, "mod": 1, "idle": 1}, odd=0.2, leave=0.08, grow=0.4),
     ANY,
     [Scope("groups", [LA, LB, LC], [((1, 2), cmd("g", "g")), ((1, 2, 3), cmd("g", "h")), (1, cmd("g", ".g")), ((1, 2), cmd("status", "name k")), (2, cmd("w", ""))], depth=5)],
     [Scope("groups3", [LA, LB, LC], [((1, 2), cmd("g", "g")), ((1, 2, 3), cmd("g", "h")), (1, cmd("g", ".g")), (0, cmd("g", "k")), ((1, 2), cmd("status", "name k")), (1, cmd("topic", "t")), (2, cmd("w", ""))], depth=9)])

# ---------------------------------------------------------------- C06 admission
prop("C06", prof({"group": 8, "invite": 5, "cancel": 3, "status": 5, "name": 2, "p": 2}, {"restrict": 10, "relist": 3, "size": 5, "fillinv": 0.3, "reg": 1, "secret": 1}, status=["r", "# 2", "m", "c", "r i"]),
     {"g", "login", "invite", "cancel", "status", "name", "p", "boot", "pass", "tick", "rst", "fin", "open", "w"},
     [Scope("restricted", [LA, LB], [(1, cmd("status", "r")), (1, cmd("status", "p")), (1, cmd("invite", B)), (1, cmd("invite", "-r " + B)), (1, cmd("invite", "-s u2@*")), (1, cmd("cancel", B)),
                                     (1, cmd("cancel", "-s u2@*")), (2, cmd("g", "g")), (2, cmd("g", "k")), (2, cmd("p", "pw")), (1, cmd("boot", B))], prefix=[1, 2], relog=False, leave=(), depth=7),
      Scope("size", [LA, LB, LC], [(1, cmd("status", "# 1")), (1, cmd("status", "# 2")), (1, cmd("status", "m")), ((2, 3), cmd("g", "g")), (0, cmd("g", "k"))], prefix=[1], depth=5)],
     [Scope("restricted3", [LA, LB, LC], [(1, cmd("status", "r")), (1, cmd("status", "m")), (1, cmd("invite", B)), (1, cmd("invite", "-r " + B)), (1, cmd("invite", "-s u2@*")), (1, cmd("invite", "-rs u3@*")), (1, cmd("cancel", B)),
                                     (1, cmd("cancel", "-s u2@*")), ((2, 3), cmd("g", "g")), (2, cmd("g", "k")), ((2, 3), cmd("p", "pw")), (2, cmd("name", "zed")), (1, cmd("boot", B)), (1, cmd("status", "# 1"))], prefix=[1, 2, 3], depth=5)])

# ---------------------------------------------------------------- C07 authority
prop("C07", prof({"status": 10, "topic": 4, "boot": 4, "pass": 3, "invite": 3, "cancel": 3, "talk": 3, "group": 4}, {"mod": 10, "rename": 3, "modleave": 2, "admin": 2, "restrict": 1, "control": 1}),
     {"status", "topic", "boot", "pass", "invite", "cancel", "talk", "g", "login", "rst", "fin", "tick", "open"},
     [Scope("authority", [LA, LB], [(0, cmd("status", "r")), (0, cmd("status", "c q")), (0, cmd("status", "m")), (0, cmd("topic", "t")), ((1, 2), cmd("boot", A)), (1, cmd("boot", B)), (0, cmd("pass", B)),
                                    (1, cmd("pass", "")), (2, cmd("g", "g")), (0, cmd("invite", B)), (0, cmd("talk", "-a " + B))], prefix=[1, 2], relog=False, leave=("rst",), depth=5)],
     [Scope("authority3", [LA, LB, login("u4", "admin", "g", ADMIN_PWD)], [(0, cmd("status", "r")), (0, cmd("status", "c q")), (0, cmd("status", "p")), (0, cmd("topic", "t")), (0, cmd("boot", A)), (0, cmd("boot", B)), (0, cmd("pass", B)),
                                    (0, cmd("pass", "")), ((2, 3), cmd("g", "g")), (0, cmd("invite", B)), (0, cmd("talk", "-a " + B))], prefix=[1, 2, 3], leave=("rst",), depth=5)])

# ---------------------------------------------------------------- C08 succession
prop("C08", prof({"pass": 4, "group": 4, "away": 2, "open": 3, "boot": 2, "p": 2}, {"modleave": 10, "idle": 4, "mod": 2, "reg": 1}, leave=0.08, tick=0.15, ticks=[1, 2, 61, 299, 300, 301, 3600, 3601]),
     ANY,
     [Scope("succession", [[L("u1", A, "g", "pw")], LB, LC], [(1, cmd("p", "pw")), (1, cmd("pass", "")), (1, cmd("pass", B)), (2, "bx"), ((1, 3), cmd("g", "g")), (2, cmd("away", "z %s"))], prefix=[1, 2, 3], ticks=(300, 1), depth=4),
      Scope("idlemod", [LA, LB], [(1, cmd("status", "m im 60")), (0, "bx"), (2, cmd("away", "z %s")), (2, cmd("g", "g")), (1, cmd("g", "h"))], prefix=[1, 2], ticks=(60, 1, 3541), relog=False, leave=(), depth=6),
      Scope("return", [[L("u1", A, "k"), L("u1", A, "k", "pw")], LB, L("u1", "zed", "k"), login("u4", "admin", "g", ADMIN_PWD)],
            [{"t": "on", "c": 1, "d": L("u1", A, "k")}, {"t": "on", "c": 1, "d": L("u9", A, "k", "pw")}, (3, cmd("name", A)), (3, cmd("p", "pw")), (4, cmd("pass", "")), (4, cmd("pass", "admin")), (2, cmd("w", "."))],
            prefix=[{"t": "on", "c": 1, "d": L("u1", A, "g")}, 2, (1, cmd("p", "pw")), 3, 4, {"t": "rst", "c": 1}], ticks=(301,), relog=False, leave=(), depth=4)],
     [Scope("succession3", [[L("u1", A, "g", "pw"), L("u9", A, "g")], LB, LC], [(1, cmd("p", "pw")), (1, cmd("pass", "")), (1, cmd("pass", B)), (2, "bx"), ((1, 3), cmd("g", "g")), (2, cmd("away", "z %s"))], prefix=[1, 2, 3], ticks=(300, 1), depth=6)])

# ---------------------------------------------------------------- C09 secrecy
prop("C09", prof({"who": 10, "group": 5, "status": 5, "whereis": 3, "notify": 2, "invite": 2}, {"secret": 12, "notify": 2, "restrict": 1, "rename": 1}, status=["s", "i", "v", "s r"]),
     {"w", "g", "login", "status", "whereis", "notify", "rst", "fin", "invite", "cancel", "name", "open", "whois"},
     [Scope("secret", [LA, LB], [(1, cmd("status", "s")), (1, cmd("status", "i")), (1, cmd("status", "v")), (1, cmd("invite", B)), (2, cmd("w", "")), (2, cmd("w", "-g")), (2, cmd("w", "g")), (2, cmd("w", "@alice")),
                                 (2, cmd("g", "g")), (2, cmd("g", "h")), (2, cmd("g", "@alice")), (1, cmd("g", "..x")), (1, cmd("g", ".y"))], prefix=[1, 2], relog=False, leave=(), depth=7)],
     [Scope("secret3", [LA, LB, LC], [(1, cmd("status", "s")), (1, cmd("status", "i")), (1, cmd("status", "v")), (1, cmd("invite", B)), ((2, 3), cmd("w", "")), (2, cmd("w", "-g")), (2, cmd("w", "g")), (2, cmd("w", "@alice")),
                                 (2, cmd("g", "g")), (2, cmd("g", "h")), ((2, 3), cmd("g", "@alice")), (1, cmd("g", "..x")), (1, cmd("g", ".y")), (2, cmd("notify", C))], prefix=[1, 2, 3], depth=6)])

# ---------------------------------------------------------------- C10 controlled and quiet groups
prop("C10", prof({"open": 8, "talk": 6, "exclude": 4, "status": 5, "p": 2, "name": 2, "pass": 2, "group": 3}, {"control": 12, "filltalk": 0.3, "mod": 1}, status=["c", "c", "q", "n", "l", "p", "m"]),
     {"open", "exclude", "talk", "status", "p", "name", "pass", "g", "login", "rst", "fin", "boot"},
     [Scope("controlled", [LA, LB], [(1, cmd("status", "c")), (1, cmd("status", "q")), (1, cmd("status", "p l")), (1, cmd("talk", "-a " + B)), (1, cmd("talk", "-ar " + B)), (1, cmd("talk", "-d " + B)), (0, "bhi"), (2, cmd("exclude", "x hi")),
                                     (2, cmd("p", "pw")), (1, cmd("pass", B)), (1, cmd("pass", ""))], prefix=[1, 2], relog=False, leave=(), depth=6)],
     [Scope("controlled3", [LA, LB, L("u3", C, "g")], [(1, cmd("status", "c")), (1, cmd("status", "q")), (1, cmd("status", "p l")), (1, cmd("talk", "-a " + B)), (1, cmd("talk", "-ar " + B)), (1, cmd("talk", "-d " + B)), (1, cmd("talk", "-a carol")), (0, "bhi"), (2, cmd("exclude", "carol hi")),
                                     (2, cmd("p", "pw")), (1, cmd("pass", B)), (1, cmd("pass", "")), (2, cmd("name", "zed"))], prefix=[1, 2, 3], depth=6)])

# ---------------------------------------------------------------- C11 hush
prop("C11", prof({"hush": 10, "open": 6, "m": 5, "exclude": 2, "name": 2, "beep": 1, "away": 1}, {"hush": 12, "filllist": 0.4, "slot": 1, "private": 1}),
     {"hush", "shush", "open", "m", "exclude", "beep", "ping", "name", "login", "away", "echoback", "rst", "fin"},
     [Scope("hush", [LA, LB], [(2, cmd("hush", A)), (2, cmd("hush", "-p " + A)), (2, cmd("hush", "-o a*")), (2, cmd("hush", "-s u1@*")), (2, cmd("hush", "-so *@*")), (2, cmd("hush", "")), (1, "bhi"), (1, cmd("m", "bob hi")),
                               (1, cmd("exclude", "x hi")), (1, cmd("name", "zed")), (1, cmd("name", A))], prefix=[1, 2], relog=False, leave=())],
     [Scope("hush3", [LA, LB, L("u3", C, "g")], [(2, cmd("hush", A)), (2, cmd("hush", "-p " + A)), (2, cmd("hush", "-o a*")), (2, cmd("hush", "-s u1@*")), (2, cmd("hush", "-so *@*")), (3, cmd("hush", "-q " + A)), (2, cmd("hush", "")), ((1, 3), "bhi"), (1, cmd("m", "bob hi")),
                               (1, cmd("exclude", "carol hi")), (1, cmd("name", "zed")), (1, cmd("name", A))], prefix=[1, 2, 3], depth=7)])

# ---------------------------------------------------------------- C12 notify
prop("C12", prof({"notify": 8, "name": 2, "group": 3}, {"notify": 12, "filllist": 0.4, "secret": 1}, grow=0.6, leave=0.12),
     {"notify", "login", "fin", "rst", "name", "g", "tick", "conn", "drop", "status", "frames"},
     [Scope("notify", [LA, [L("u2", B, "g"), L("u2", B, "..x"), L("u9", "zed", ".y")], LC], [((1, 3), cmd("notify", B)), (1, cmd("notify", "-s u2@*")), (1, cmd("notify", "-q b*")), (1, cmd("notify", "")), (2, cmd("name", "zed")), (2, cmd("g", "..x"))],
            prefix=[1, 3], depth=5)],
     [Scope("notify3", [LA, [L("u2", B, "g"), L("u2", B, "..x"), L("u9", "zed", ".y")], LC], [((1, 3), cmd("notify", B)), (1, cmd("notify", "-s u2@*")), (1, cmd("notify", "-q b*")), (1, cmd("notify", "")), (2, cmd("name", "zed")), (2, cmd("g", "..x"))],
            prefix=[1, 3], leave=("rst", "fin"), depth=8)])

# ---------------------------------------------------------------- C13 registration
prop("C13", prof({"p": 6, "cp": 4, "delete": 3, "secure": 3, "name": 3, "whois": 2, "info": 2, "drop": 2}, {"reg": 14, "slot": 1, "mail": 1}, grow=0.4, leave=0.08),
     {"p", "cp", "delete", "secure", "nosecure", "name", "login", "whois", "m", "drop", "info", "read", "write", "rst", "fin"},
     [Scope("reg", [[L("u1", A, "g"), L("u1", A, "g", "pw1"), L("u2", A, "g", "bad"), L("u2", A, "g")]], [(1, cmd("p", "pw1")), (1, cmd("p", "pw2")), (1, cmd("cp", "pw1 pw2")), (1, cmd("cp", "pw2 pw1")), (1, cmd("secure", "")), (1, cmd("nosecure", "")),
                   (1, cmd("delete", "pw1")), (1, cmd("name", "zed")), (1, cmd("name", A)), (1, cmd("whois", A))], depth=6)],
     [Scope("reg2", [[L("u1", A, "g"), L("u1", A, "g", "pw1"), L("u2", A, "g", "bad"), L("u2", A, "g")], [L("u3", B, "g", "pw1"), L("u1", B)]], [((1, 2), cmd("p", "pw1")), (1, cmd("p", "pw2")), (1, cmd("cp", "pw1 pw2")), (1, cmd("cp", "pw2 pw1")), (1, cmd("secure", "")), (1, cmd("nosecure", "")),
                   (1, cmd("delete", "pw1")), (1, cmd("name", "zed")), ((1, 2), cmd("name", A)), (2, cmd("whois", A))], depth=7)])

# ---------------------------------------------------------------- C14 stored messages
prop("C14", prof({"write": 6, "read": 5, "p": 3, "delete": 1, "name": 1}, {"mail": 14, "reg": 3}, grow=0.4, leave=0.06),
     {"write", "read", "delete", "p", "cp", "login", "m", "name", "whois", "rst", "fin"},
     [Scope("mail", [[L("u1", A, "g", "pw"), L("u9", A)], LB], [(2, cmd("write", A + " one")), (2, cmd("write", "ALICE two")), (0, cmd("read", "")), (2, cmd("p", "pw")), (1, cmd("write", A + " self")), (1, cmd("p", "pw"))],
            prefix=[1, 2, (1, cmd("p", "pw")), (2, cmd("p", "pw"))], depth=5)],
     [Scope("mail2", [[L("u1", A, "g", "pw"), L("u9", A)], LB], [(2, cmd("write", A + " one")), (2, cmd("write", "ALICE two")), (0, cmd("read", "")), (2, cmd("p", "pw")), (1, cmd("write", A + " self")), (1, cmd("write", B + " x")), (1, cmd("p", "pw")), (1, cmd("delete", "pw"))],
            prefix=[1, 2, (1, cmd("p", "pw")), (2, cmd("p", "pw"))], depth=7)])

# ---------------------------------------------------------------- C16 persistence across restarts
prop("C16", prof({"p": 5, "cp": 2, "delete": 2, "secure": 3, "info": 4, "whois": 4, "write": 3, "read": 2}, {"restart": 8, "reg": 5, "mail": 4}, grow=0.5, leave=0.06, macro=0.7, crash=0.12),
     ANY,
     [Scope("persist", [[L("u1", A, "g"), L("u1", A, "g", "pw1")], LB], [(1, cmd("p", "pw1")), (1, cmd("cp", "pw1 pw2")), (1, cmd("delete", "pw1")), (1, cmd("secure", "")), (2, cmd("whois", A)), (1, cmd("rname", "Al")), (1, cmd("read", "")), {"t": "restart"}], depth=5)],
     [Scope("persist2", [[L("u1", A, "g"), L("u1", A, "g", "pw1")], [LB, L("u2", B, "g", "pw2")]], [(1, cmd("p", "pw1")), (2, cmd("p", "pw2")), (2, cmd("write", A + " x")), (1, cmd("cp", "pw1 pw2")), (1, cmd("delete", "pw1")), (1, cmd("secure", "")), (2, cmd("whois", A)), (1, cmd("rname", "Al")), (1, cmd("read", "")), {"t": "restart"}], depth=6)])

# ---------------------------------------------------------------- C17 framing
prop("C17", prof({"open": 4, "m": 3, "bogus": 4, "who": 2, "pong": 2}, {"frames": 14, "badlogin": 2}, split=0.3, leave=0.06),
     ANY,
     [Scope("frames", [[L("u1", A), ""], LB], [{"t": "bytes", "c": 1, "d": x} for x in ["\x03bx\0", "\x03b", "y\0", "\x04bab\x05", "b\0c\0\0", "\x02n\0\x03bz\0", "\0", "\xff", "\x02"]] + [(2, "bx")], leave=("fin", "rst"), depth=4)],
     [Scope("frames2", [[L("u1", A), ""], LB], [{"t": "bytes", "c": 1, "d": x} for x in ["\x03bx\0", "\x03b", "y\0", "\x04bab\x05", "b\0c\0\0", "\x02n\0\x03bz\0", "\0", "\xff", "\x02"]] + [(2, "bx")], leave=("fin", "rst"), depth=6)])

# ---------------------------------------------------------------- C18 output well-formed
prop("C18", prof({"open": 4, "m": 4, "topic": 3, "status": 3, "info": 3, "whois": 3, "away": 2, "boot": 2, "who": 2, "wall": 1}, {k: 1 for k in ("open", "private", "mod", "rename", "reg", "restrict", "admin", "name", "idle", "mail")}, odd=0.4),
     ANY,
     [Scope("odd", [[L("u1", "al\x02ice", "g"), L("u1\x07", A, "g\x03x")], L("u2", B, "\xe9")], [(1, "ba\x02b\tc"), (1, "b" + "\xc3\xa9" * 120), (1, "b" + "x" * 252), (1, cmd("m", "bob " + "y" * 239)), (1, cmd("topic", "a\x02" + "t" * 200)),
                   (2, cmd("w", "")), (1, cmd("boot", "bob %s" + "k" * 200)), (1, cmd("name", "n\x02m")), (2, cmd("g", "g"))], depth=4)],
     [Scope("odd2", [[L("u1", "al\x02ice", "g"), L("u1\x07", A, "g\x03x")], L("u2", B, "\xe9")], [(1, "ba\x02b\tc"), (1, "b" + "\xc3\xa9" * 120), (1, "b" + "x" * 252), (1, cmd("m", "bob " + "y" * 239)), (1, cmd("topic", "a\x02" + "t" * 200)),
                   (2, cmd("w", "")), (1, cmd("boot", "bob %s" + "k" * 200)), (1, cmd("name", "n\x02m")), (2, cmd("g", "g"))], depth=6)])

# ---------------------------------------------------------------- C19 sessions are isolated
prop("C19", prof({"m": 4, "hush": 3, "notify": 3, "away": 3, "ping": 3, "pong": 2, "beep": 2, "echo": 2, "p": 2}, {"slot": 14, "modleave": 2, "private": 1, "beep": 1}, grow=0.5, leave=0.15),
     ANY,
     [Scope("slots", [LA, [LB, L("u4", D, "h")]], [(2, cmd("away", "z %s")), (2, cmd("hush", A)), (2, cmd("echoback", "verbose")), (2, cmd("nobeep", "on")), (1, cmd("ping", B)), (1, cmd("m", "bob hi")), (2, cmd("m", "alice hi")), (1, cmd("m", "dave hi")), (2, "m"),
                   (1, "bhi"), (2, cmd("p", "pw")), (1, cmd("whereis", ""))], prefix=[1], depth=5)],
     [Scope("slots3", [LA, [LB, L("u4", D, "h")], LC], [(2, cmd("away", "z %s")), (2, cmd("hush", A)), (2, cmd("echoback", "verbose")), (2, cmd("nobeep", "on")), (1, cmd("ping", B)), (1, cmd("m", "bob hi")), (2, cmd("m", "alice hi")), (1, cmd("m", "dave hi")), (2, "m"),
                   (1, "bhi"), (2, cmd("p", "pw")), (1, cmd("whereis", "")), (2, cmd("notify", C))], prefix=[1], depth=6)])

# ---------------------------------------------------------------- C20 administration
prop("C20", prof({"wall": 3, "drop": 4, "stats": 3, "log": 2, "shutdown": 1.5, "name": 2, "p": 1, "boot": 2}, {"admin": 12, "shutdown": 1, "name": 1, "reg": 1}, admin=0.25, maydie=True, grow=0.4),
     {"wall", "drop", "stats", "log", "shutdown", "restart", "login", "name", "boot", "p", "shuttime", "tick", "g", "w", "topic", "status", "pass", "conn", "fin", "rst"},
     [Scope("admin", [[L("u1", "admin", "g", ADMIN_PWD), L("u1", "Admin", "g", ADMIN_PWD), L("u1", "admin", "g", "bad"), L("u1", "admin")], LB], [(0, cmd("wall", "hey")), (0, cmd("drop", B)), (0, cmd("drop", "bob pw")), (0, cmd("stats", "reset")), (2, cmd("p", "pw")),
                   (2, cmd("name", "admin")), (1, cmd("name", A)), (1, cmd("p", ADMIN_PWD)), (2, cmd("shutdown", "1")), (2, cmd("log", "0")), (1, cmd("boot", B))], depth=5)],
     [Scope("admin2", [[L("u1", "admin", "g", ADMIN_PWD), L("u1", "Admin", "g", ADMIN_PWD), L("u1", "admin", "g", "bad"), L("u1", "admin")], [LB, L("u2", B, "g", ADMIN_PWD)]], [(0, cmd("wall", "hey")), (0, cmd("drop", B)), (0, cmd("drop", "bob pw")), (0, cmd("stats", "reset")), (2, cmd("p", "pw")),
                   (2, cmd("name", "admin")), (1, cmd("name", A)), (1, cmd("p", ADMIN_PWD)), (0, cmd("shutdown", "1")), (2, cmd("log", "0")), (1, cmd("boot", B))], ticks=(30,), depth=6)])

# ---------------------------------------------------------------- C21 idling
prop("C21", prof({"status": 3, "open": 3, "away": 2, "group": 3, "pong": 1, "ping": 1}, {"idle": 12, "modleave": 2}, tick=0.2, ticks=[1, 29, 30, 31, 59, 60, 61, 3599, 3600, 3601], status=["b 1", "im 1", "b 2", "b 0"]),
     ANY,
     [Scope("idle", [LA, LB], [(1, cmd("status", "b 60")), (1, cmd("status", "im 60 m")), (0, "bx"), (0, "m"), (0, cmd("g", "g")), (2, cmd("away", "z %s"))], prefix=[1, 2], ticks=(60, 1, 3600), relog=False, leave=(), depth=5),
      Scope("idlegroup", [LA, LB], [(1, cmd("g", "~idle~")), (0, cmd("g", "~IDLE~")), (1, cmd("status", "b 1 n")), (0, "bx")], prefix=[1, 2], ticks=(61, 3601), relog=False, leave=(), depth=5)],
     [Scope("idle3", [LA, LB, LC], [(1, cmd("status", "b 60")), (1, cmd("status", "im 60 m")), (0, "bx"), (0, "m"), (0, cmd("g", "g")), (2, cmd("away", "z %s"))], prefix=[1, 2, 3], ticks=(60, 1, 3600), relog=False, leave=(), depth=6)])

# ---------------------------------------------------------------- C22 away, beep, ping
prop("C22", prof({"away": 5, "noaway": 3, "beep": 5, "nobeep": 4, "ping": 4, "pong": 4, "m": 5, "echo": 2, "open": 3}, {"beep": 10, "private": 5, "slot": 2}, tick=0.15, ticks=[1, 2, 9, 10, 11, 12]),
     {"away", "noaway", "beep", "nobeep", "ping", "pong", "m", "open", "echoback", "tick", "login", "rst", "fin", "exclude", "n"},
     [Scope("away", [LA, LB], [(2, cmd("away", "out %s")), (2, cmd("noaway", "")), (1, cmd("m", "bob hi")), (2, cmd("m", "alice hi")), (2, "bhi"), (1, cmd("beep", B)), (2, cmd("nobeep", "verbose")), (2, cmd("nobeep", "off")), (1, cmd("ping", B)), (2, "m"), (1, cmd("ping", ""))],
            prefix=[1, 2], ticks=(10, 1), relog=False, leave=(), depth=4)],
     [Scope("away3", [LA, LB, LC], [(2, cmd("away", "out %s")), (2, cmd("noaway", "")), ((1, 3), cmd("m", "bob hi")), (2, cmd("m", "alice hi")), (2, "bhi"), (1, cmd("beep", B)), (2, cmd("nobeep", "verbose")), (2, cmd("nobeep", "on")), ((1, 3), cmd("ping", B)), (2, "m"), (1, cmd("ping", ""))],
            prefix=[1, 2, 3], ticks=(10, 1), relog=False, leave=(), depth=5)])

# ---------------------------------------------------------------- C23 who may log in
prop("C23", prof({"relogin": 1, "motd": 1, "news": 2, "help": 1, "open": 2, "who": 1}, {"files": 12, "badlogin": 1, "restart": 0.3, "idle": 0, "modleave": 0, "restrict": 0.2}, macro=0.8, status=["r", "m", "p", "i", "v", "s", "q", "l", "#", ""], statusopts=1, home=0.4, dual=0.4, clients=6, tick=0.1, ticks=[1, 2]),
     {"cfg", "login", "conn", "motd", "news", "?", "s_help", "open", "frames", "tick", "restart", "w", "whereis"},
     [Scope("access", [[L("u1", A), L("U1", A)], [{"d": L("u2", B), "src": "127.0.0.2"}, {"d": L("u1", B), "src": "127.0.1.77"}]],
            [{"t": "files", "files": {"icbd.deny": "u1@localhost no u1\n  *@?127.0.0.2? \n", "icbd.perms": "", "_perms": []}},
             {"t": "files", "files": {"icbd.deny": "# none\n\nU2@*\tgo away\n", "icbd.perms": "user u1 localhost perm_slowmsgs\n",
                                      "_perms": [{"type": "user", "a": "u1", "b": "localhost", "perm": {"deny": False, "slow": True}}]}},
             {"t": "files", "files": {"icbd.deny": None, "icbd.perms": "mask 127.0.0.2 255.255.255.255 perm_null\nmask 127.0.0.0 255.255.255.0 perm_deny|perm_slowmsgs\nmask 0.0.0.0 0.0.0.0 perm_slowmsgs\n",
                                      "_perms": [{"type": "mask", "a": [127, 0, 0, 2], "b": [255] * 4, "perm": {"deny": False, "slow": False}}, {"type": "mask", "a": [127, 0, 0, 0], "b": [255, 255, 255, 0], "perm": {"deny": True, "slow": True}},
                                                 {"type": "mask", "a": [0] * 4, "b": [0] * 4, "perm": {"deny": False, "slow": True}}]}},
             (0, "bhi"), (0, cmd("g", "h"))], ticks=(1,), depth=5, leave=("rst",))])

# ---------------------------------------------------------------- C24 robustness
def unserved(st, b):
    """Somebody is cut off who should not be, or gets no answer at all, or a number is misread."""
    got = {c for c, p in st["out"]}
    return sorted(b.get("closed", [])) != st["closed"] or any(c not in got for c, p in b.get("expected", [])) or b.get("impossible") or numeric(st)


def numeric(st):
    d = st.get("d", "")
    return any(x in d for x in ("hstatus\x01", "hshutdown\x01", "hnews\x01", "m\x01server"))


prop("C24", prof({a: 1 for a in ALL}, {k: v for k, v in MACROS.items()}, macro=0.3, odd=0.5, split=0.1, leave=0.06), unserved,
     [P["C17"]["quick"][0]])

# ---------------------------------------------------------------- C25 reports
prop("C25", prof({"who": 8, "whereis": 5, "whois": 5, "stats": 4, "v": 1, "motd": 2, "news": 3, "help": 1, "info": 4, "shuttime": 1, "status": 4, "topic": 3, "invite": 1, "notify": 1, "hush": 1, "group": 4},
                 {"reg": 2, "mod": 2, "secret": 2, "idle": 1, "restrict": 1, "admin": 1, "size": 1, "files": 0.7}, tick=0.15),
     {"w", "whereis", "whois", "stats", "v", "motd", "news", "s_help", "info", "shuttime", "status", "topic", "rname", "addr", "phone", "email", "text", "www", "login", "m"},
     [Scope("reports", [LA, LB], [(0, cmd("w", "")), (2, cmd("w", "-s")), (2, cmd("w", "g")), (2, cmd("w", ".")), (2, cmd("whereis", A)), (1, cmd("status", "")), (1, cmd("topic", "t")), (1, cmd("status", "r s")), (1, cmd("status", "# 2 c q")), (2, cmd("stats", "")), (2, cmd("news", "")),
                    (2, cmd("news", "2")), (2, cmd("motd", "")), (1, cmd("p", "pw"))], prefix=[1, 2], ticks=(61,), relog=False, leave=(), depth=4)],
     [Scope("reports3", [LA, LB, LC], [(0, cmd("w", "")), (2, cmd("w", "-s")), (2, cmd("w", "g")), (2, cmd("w", ".")), (2, cmd("whereis", A)), (1, cmd("status", "")), (1, cmd("topic", "t")), (1, cmd("status", "r s")), (1, cmd("status", "# 2 c q")), (2, cmd("stats", "")), (2, cmd("news", "")),
                    (2, cmd("news", "2")), (2, cmd("motd", "")), (1, cmd("p", "pw")), (1, cmd("rname", "Al")), (2, cmd("whois", A))], prefix=[1, 2], ticks=(61,), depth=5)])

# ---------------------------------------------------------------- C26 lists
prop("C26", prof({"hush": 5, "notify": 5, "invite": 4, "cancel": 3, "talk": 4, "group": 2}, {"filllist": 4, "fillinv": 2, "filltalk": 2, "restrict": 2, "relist": 2, "control": 2, "hush": 2, "notify": 2}),
     {"hush", "shush", "notify", "invite", "cancel", "talk", "g", "open", "m", "login", "rst", "fin", "status"},
     [Scope("lists", [LA, LB], [(1, cmd("notify", B)), (1, cmd("notify", "BOB")), (1, cmd("notify", "-s *@x")), (1, cmd("hush", "-q bob")), (1, cmd("hush", "-p zed")), (1, cmd("invite", B)), (1, cmd("invite", "-r bob")), (1, cmd("cancel", B)), (1, cmd("talk", "-a bob")), (1, cmd("talk", "-d bob")),
                  (1, cmd("status", "c")), (1, cmd("notify", "")), (1, cmd("hush", "")), (1, cmd("invite", ""))], prefix=[1, 2], relog=False, leave=(), depth=5)],
     [])

# ---------------------------------------------------------------- C29 those who do not read
def burst(c, *ps):
    return {"t": "bytes", "c": c, "d": "".join(chr(len(p) + 1) + p + "\0" for p in ps)}


_SIX = burst(1, "bone", cmd("m", "bob two" + "x" * 200), "bthree", "bfour", cmd("m", "bob five"), "bsix" + "y" * 100)
prop("C29", prof({"open": 4, "m": 4, "who": 2, "motd": 1, "group": 2}, {"choke": 10, "trickle": 6, "slow": 1, "open": 1, "private": 1}, macro=0.6), ANY,
     [Scope("choked", [LA, LB], [{"t": "choke", "c": 2, "cap": 0}, {"t": "choke", "c": 2, "cap": 30}, {"t": "room", "c": 2, "k": 300}, {"t": "unchoke", "c": 2}, _SIX, (1, "bx"), (2, "by"), (2, cmd("m", "bob self")), (2, cmd("g", "k")), (1, cmd("boot", B))],
            prefix=[1, 2], leave=("rst", "fin"), depth=6),
      Scope("trickle", [LA, LB], [(1, "bxyz"), (1, cmd("m", "bob hi")), {"t": "room", "c": 2, "k": 3}, {"t": "room", "c": 2, "k": 11}, {"t": "unchoke", "c": 2}], prefix=[1, 2, {"t": "choke", "c": 2, "cap": 2}], relog=False, leave=(), depth=6),
      Scope("dropped", [L("u1", "admin", "g", ADMIN_PWD), LB], [{"t": "choke", "c": 2, "cap": 0}, {"t": "choke", "c": 2, "cap": 3}, {"t": "unchoke", "c": 2}, (1, "bx"), (2, "by"), (1, cmd("drop", B)), (1, cmd("w", ""))], prefix=[1, 2], leave=("fin",), depth=5)],
     [Scope("choked2", [LA, LB, L("u3", C, "g")], [{"t": "choke", "c": 2, "cap": 0}, {"t": "choke", "c": 1, "cap": 30}, {"t": "room", "c": 1, "k": 300}, {"t": "unchoke", "c": 1}, {"t": "unchoke", "c": 2}, _SIX, (1, "bx"), (2, "by"), (3, "bz"), (3, cmd("g", "k"))],
            prefix=[1, 2, 3], depth=8)], traces=120, steps=300)

# ---------------------------------------------------------------- C32 TLS
prop("C32", prof({a: 1 for a in ALL}, dict({k: v for k, v in MACROS.items()}, frames=6, stall=4, choke=2, slow=0.2), macro=0.4, odd=0.3, split=0.2, leave=0.06), ANY,
     [P["C17"]["quick"][0]], [P["C19"]["quick"][0]], traces=80, steps=500, tls=True)

# ---------------------------------------------------------------- C30 shutdown
prop("C30", prof({"shutdown": 2, "shuttime": 3, "open": 2}, {"shutdown": 12, "admin": 1}, admin=0.3, maydie=True, tick=0.2, ticks=[1, 29, 30, 59, 60, 61, 240, 300]),
     {"shutdown", "shuttime", "tick", "login", "conn", "open", "m", "w", "fin", "rst", "bogus"},
     [Scope("shutdown", [L("u1", "admin", "g", ADMIN_PWD), LB], [(0, cmd("shutdown", "1")), (1, cmd("shutdown", "6")), (1, cmd("shutdown", "10")), (2, cmd("shuttime", "")), (2, "bx")], prefix=[1, 2], ticks=(59, 60, 1, 240, 300), depth=5)],
     [Scope("shutdown2", [L("u1", "admin", "g", ADMIN_PWD), LB], [(0, cmd("shutdown", "1")), (1, cmd("shutdown", "6")), (1, cmd("shutdown", "10")), (1, cmd("shutdown", "400")), (2, cmd("shuttime", "")), (2, "bx")], prefix=[1, 2], ticks=(59, 60, 1, 240, 300, 3600), depth=7)],
     steps=150, traces=300)

# ---------------------------------------------------------------- the whole server, for what is also checked function by function
prop("C15", dict(P["C16"]["profile"], clients=4), P["C16"]["rel"], P["C16"]["quick"], traces=60, steps=500)
prop("C27", prof({"hush": 6, "notify": 5, "invite": 5, "open": 4, "m": 3, "group": 2}, {"hush": 8, "notify": 6, "restrict": 5, "files": 3}, home=0.4, idle=0, status=["r", "m", "p", "i", "v"], statusopts=1),
     {"hush", "shush", "notify", "invite", "cancel", "talk", "g", "open", "m", "login", "conn", "rst", "fin", "status", "exclude", "cfg"},
     [Scope("sites", [[LA, {"d": LA, "src": "127.0.0.2"}], LB], [(2, cmd("hush", "-os *@local*")), (2, cmd("hush", "-os *@[[]127*")), (2, cmd("hush", "-os u[^2]@*")), (2, cmd("notify", "-s *@?127.0.0.2]")), (1, "bhi"), (2, cmd("invite", "-s u1@l*")), (2, cmd("status", "r"))],
            prefix=[2], leave=("rst",), depth=6)], traces=80, steps=500)
P["C27"]["profile"]["macros"].update(idle=0, modleave=0)
prop("C28", dict(P["C18"]["profile"]), P["C18"]["rel"], P["C18"]["quick"], traces=80, steps=500)
prop("C33", dict(P["C26"]["profile"]), P["C26"]["rel"], P["C26"]["quick"], traces=60, steps=500)
prop("C31", prof({"p": 5, "cp": 2, "secure": 2, "info": 4, "whois": 4, "write": 3, "read": 2}, {"tools": 12, "reg": 2, "mail": 2}, grow=0.5, macro=0.8, tick=0.1, ticks=[1, 3600, 86400]), ANY,
     [Scope("tools", [[L("u1", A, "g"), L("u1", A, "g", "pw1"), L("u1", A, "g", "pw3")]],
            [(1, cmd("p", "pw1")), (1, cmd("secure", "")), (1, cmd("rname", "A\xe9 \\n")), (1, cmd("write", A + " x")), (1, cmd("whois", A)), (1, cmd("read", "")),
             {"t": "tool", "tool": {"t": "set", "k": "alice.password", "v": "pw3", "fault": False}}, {"t": "tool", "tool": {"t": "del", "nicks": ["ALICE"], "quiet": False, "fault": False}},
             {"t": "tool", "tool": {"t": "move", "fault": False}}], depth=6, leave=())],
     traces=64, steps=250)

# ---------------------------------------------------------------- C34 bricks
_BR = {"_brick": True}
prop("C34", prof({"brick": 12, "group": 3, "name": 1, "m": 1, "open": 1}, {"brick": 10, "slot": 1, "open": 1}, macro=0.6, grow=0.6, clients=6, tick=0.05),
     {"brick", "m", "login", "g", "name", "open", "fin", "rst", "conn", "frames", "tick"},
     [Scope("bricks", [LA, [LB, L("u2", B, "h")]], [(1, cmd("brick", B)), (1, cmd("brick", "")), (2, cmd("brick", "ALICE")), (2, cmd("brick", "")), (1, cmd("brick", "x"))],
            prefix=[1, 2], files=_BR, leave=("rst",))],
     [Scope("bricks3", [LA, LB, LC], [(1, cmd("brick", B)), (1, cmd("brick", C)), (2, cmd("brick", "ALICE")), (3, cmd("brick", B)), (3, cmd("brick", "server")), (3, cmd("g", "g"))],
            prefix=[1, 2, 3], files=_BR, leave=("rst",), depth=12)],
     brick=True, files=_BR, traces=120, steps=500)

# ---------------------------------------------------------------- C35 the log
def _jrel(st, b):
    return st["t"] in ("hup", "restart") or st.get("jr") != b.get("jr")


_LOG = {"_log": 3}
prop("C35", prof({"open": 4, "relogin": 3, "drop": 3, "log": 0.5, "who": 1}, {"journal": 12, "badlogin": 4, "idle": 2, "restart": 2, "open": 1, "admin": 1, "files": 1.5}, macro=0.6, leave=0.08, home=0.3),
     _jrel,
     [Scope("log", [[L("u1", A, "g"), L("u1", "x", "g", None, "w"), L("u1", "")], [LB, L("u1", A, "g")]], [(1, "bhi"), (2, "bhi"), (1, cmd("drop", "bob")), (2, cmd("p", "pw")), (1, cmd("drop", "bob pw")), (1, "zz\n[INFO]  Sep 10 2001 00:16:40 h: [LOGIN] 9: a@b"), {"t": "hup"}, {"t": "restart", "sig": 15}],
            files=_LOG, leave=("rst", "fin"), depth=5),
      Scope("level", [L("u1", "admin", "g", ADMIN_PWD), LB], [(1, cmd("log", "0")), (1, cmd("log", "2")), (1, cmd("log", "3")), (2, "bhi"), {"t": "hup"}, {"t": "restart"}], files=_LOG, leave=("fin",), depth=6)],
     [Scope("log3", [[L("u1", A, "g"), L("u1", "x", "g", None, "w"), L("u1", "")], [LB, L("u1", A, "g")], LC], [(1, "bhi"), (2, "bhi"), (1, cmd("drop", "bob")), (2, cmd("p", "pw")), (1, cmd("drop", "bob pw")), {"t": "hup"}, {"t": "restart", "sig": 2}],
            files=_LOG, leave=("rst", "fin"), depth=6)],
     files=_LOG, traces=120, steps=400)
