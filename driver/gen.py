"""Random workloads for a real server, recorded step by step.

A workload is driven by a profile: how many clients, which kinds of action with which
weight, and how much time passes.  Names, groups, patterns and texts come from small
pools so that users keep running into each other."""
import random, re, signal
from srv import ServerDied, Hang, has_ipv6, client_hello
from srv import BASE
from rec import Recorder
from build import ADMIN_PWD

SOH = "\x01"
NICKS = ["alice", "bob", "carol", "dave", "eve", "Zed"]
ODD_NICKS = ["ALICE", "Bob", "x y", "a\tb", "nick12345678", "nick1234567890", "admin", "Admin", "ADMIN", "server", "Server",
             "\xe9t\xe9", "a\x02b", "", "a|b", "c&d", "e;f:", "(g)", "h\"<i>", "=j#", "{k}^", "l`", "~x", "-q", "@bob", "ALIce", "caRol", "*", "[", "al%s"]
IDS = ["u1", "u2", "u3", "U1", "guest"]
ODD_IDS = ["", "a-b", "abcdefghijkl", "abcdefghijklm", "u 1", "\xe9"]
GROUPS = ["g", "h", "1", "G", "k"]
ODD_GROUPS = [".sec", "..inv", "sec", "inv", "longgroup", "longgrou", "ICB", "icb", "~IDLE~", "~reseda~", "", ".", "..", "a b",
              ".g", "..h", ".longername", "@", "@nobody", "g\x02", "\xe9", "...", "~RESEDA~", "g%s"]
PASSES = ["pw1", "pw2", "secret"]
ODD_PASSES = ["", "PW1", "averyverylongpassword", "averyverylong", "pw 1", ADMIN_PWD, ADMIN_PWD.upper(), "\xe9"]
SITES = ["*@localhost", "u1@localhost", "U?@*", "*@*", "u[12]@local*", "u2@*", "guest@localhost", "*", "*@\\[127.0.0.2\\]", "*@?127.0.0.*", "u1@?127*"]
ODD_SITES = ["[", "u[", "\\*", "u[^1]@*", "x@y", "[a-", "*@*@*", "u1@127.0.0.1", "?[]?", "*@[127.0.0.2]"]
TEXTS = ["hello", "hi there", "a b c d", "x"]
ODD_TEXTS = ["", " ", "  lead", "trail  ", "a\x02b\x1f", "caf\xc3\xa9", "bad\xc3", "\xff\xfe", "100%", "%s", "%d", "%%", "tab\there",
             "\xe2\x82\xac euro", "\xe2\x82", "w" * 100, "y" * 235, "z" * 239, "q " * 118, "\xc3\xa9" * 100, "a|b|c", "\x7f", "-q",
             "it's %s ok", "\xf0\x9f\x98\x80 smile", "\xed\xa0\x80", "line\nbreak", "cr\r"]


def w(rng, usual, odd, p=0.15):
    return rng.choice(odd) if rng.random() < p else rng.choice(usual)


class Gen:
    def __init__(self, rng, rec, profile):
        self.rng, self.rec, self.p = rng, rec, profile
        self.odd = profile.get("odd", 0.12)
        self.nick = {}          # slot -> nick as we believe it
        self.inn = set()        # slots we believe logged in
        self.secure = {}

    # ---- words
    def anynick(self):
        r = self.rng.random()
        on = [self.nick[s] for s in self.inn if s in self.nick]
        if on and r < 0.65:
            n = self.rng.choice(on)
            return n.swapcase() if self.rng.random() < 0.08 else n
        if self.rng.random() < self.odd / 5:        # a word longer than any name
            return "k" * self.rng.choice([13, 14, 31, 32, 33, 62, 63, 64, 65, 80])
        return w(self.rng, NICKS, ODD_NICKS, self.odd)

    def group(self):
        if self.rng.random() < 0.06:
            return "@" + self.anynick()
        return w(self.rng, self.p.get("groups", GROUPS), ODD_GROUPS, self.odd)

    def site(self):
        return w(self.rng, SITES, ODD_SITES, self.odd)

    def text(self, limit=238):
        return w(self.rng, TEXTS, ODD_TEXTS, 2.5 * self.odd)[:limit]

    def pw(self):
        return w(self.rng, PASSES, ODD_PASSES, self.odd)

    def flags(self, letters, p=0.4):
        fl = ""
        while self.rng.random() < p:
            c = self.rng.choice(letters)
            if self.rng.random() < 0.1:
                c = self.rng.choice(letters + "xqz")
            fl += self.rng.choice(["-" + c + " ", "-" + c + " ", "-" + c + self.rng.choice(letters) + " "])
        return fl

    def number(self, small=(0, 1, 2, 3)):
        r = self.rng.random()
        if r < 0.7:
            return str(self.rng.choice(small))
        return self.rng.choice(["-1", "255", "254", "240", "241", "999", "abc", "", "1x", "+2", "300000", "60", "59", "61", " 1"])

    # ---- actions
    def cmd(self, name, arg=None):
        if self.rng.random() < 0.03:
            name = name.swapcase()
        if arg is None:
            return "h" + name
        r = self.rng.random()
        if r < 0.015:
            return "h" + name                       # argument missing
        if r < 0.03:
            return "h" + name + SOH + arg + SOH + "x"
        return ("h" + name + SOH + arg)[:253]

    def a_open(self): return "b" + self.text() + (SOH + "x" if self.rng.random() < 0.02 else "")
    def a_m(self): return self.cmd("m", self.anynick() + " " + self.text(220))
    def a_group(self): return self.cmd("g", self.group())
    def a_who(self):
        return self.cmd("w", self.rng.choice(["", "", "-g", "-s", ".", "-g .", "-s " + self.group(), self.group(),
                                              "@" + self.anynick(), "?", "-S", "-s @" + self.anynick()]))
    def a_whereis(self): return self.cmd("whereis", self.anynick() if self.rng.random() < 0.8 else "")
    def a_name(self): return self.cmd("name", w(self.rng, NICKS, ODD_NICKS, 2 * self.odd))
    def a_topic(self): return self.cmd("topic", self.text(100) if self.rng.random() < 0.8 else "")
    def a_pass(self): return self.cmd("pass", self.anynick() if self.rng.random() < 0.75 else "")
    def a_boot(self):
        t = self.anynick()
        if self.rng.random() < 0.3:
            t += " " + self.rng.choice(["bye", "kicked %s out", "%s %s", "100%", "%d", "%%", "x" * 100, "x" * 150 + "%s"])
        return self.cmd("boot", t)
    def a_invite(self):
        f = self.flags("nsqr")
        x = self.site() if "s" in f else self.anynick()
        return self.cmd("invite", f + (x if self.rng.random() < 0.85 else ""))
    def a_cancel(self):
        f = self.flags("nsq")
        return self.cmd("cancel", f + (self.site() if "s" in f else self.anynick()))
    def a_talk(self): return self.cmd("talk", self.flags("aqrd", 0.5) + self.anynick())
    def a_exclude(self): return self.cmd("exclude", self.anynick() + " " + self.text(220))
    def a_hush(self):
        f = self.flags("qpons", 0.5)
        return self.cmd(self.rng.choice(["hush", "hush", "shush"]),
                        f + ((self.site() if "s" in f else self.anynick()) if self.rng.random() < 0.85 else ""))
    def a_notify(self):
        f = self.flags("qns")
        return self.cmd("notify", f + ((self.site() if "s" in f else self.anynick()) if self.rng.random() < 0.85 else ""))
    def status_opt(self):
        r = self.rng
        o = r.choice(["r", "m", "c", "p", "i", "s", "v", "q", "n", "l", "#", "b", "im", "name", "idlebootmsg", "?", "R", "zz"])
        if o == "#": return "# " + (self.number((0, 1, 2, 3)) if r.random() < 0.9 else r.choice(["", "-1"]))
        if o == "b": return "b " + (self.number((0, 1, 2, 60)) if r.random() < 0.9 else r.choice(["", "-1"]))
        if o == "im": return "im " + (self.number((0, 1, 2, 60)) if r.random() < 0.9 else r.choice(["", "-1"]))
        if o == "name": return "name " + w(r, ["g", "h", "k", "new"], ODD_GROUPS, 0.4)
        if o == "idlebootmsg": return "idlebootmsg " + r.choice(["bye %s", "%s went %%", "nope", "%d", "x" * 54, "x" * 52 + "%s", "x" * 53 + "%s", "x" * r.randrange(45, 60) + "%s", "%s %s", ""])
        return o
    def a_status(self):
        opts = self.p.get("status")
        if opts and self.rng.random() < self.p.get("statusopts", 0.7):
            return self.cmd("status", self.rng.choice(opts))
        if self.rng.random() < 0.2:
            return self.cmd("status", "")
        return self.cmd("status", " ".join(self.status_opt() for _ in range(self.rng.choice([1, 1, 1, 2, 3]))))
    def a_away(self):
        return self.cmd("away", self.rng.choice(["gone %s", "%s lunch", "", "no conv", "%d", "%s %s", "%%%s", "z" * 230 + "%s", "\xc3\xa9 %s"]))
    def a_noaway(self): return self.cmd("noaway", "" if self.rng.random() < 0.7 else None)
    def a_echo(self): return self.cmd("echoback", self.rng.choice(["on", "off", "verbose", "VERBOSE", "x", "verbose"]))
    def a_nobeep(self): return self.cmd("nobeep", self.rng.choice(["on", "off", "verbose", "x"]))
    def a_beep(self): return self.cmd("beep", self.anynick() if self.rng.random() < 0.93 else self.rng.choice(["server", "Server", "server x"]))
    def a_ping(self): return self.cmd("ping", self.anynick() if self.rng.random() < 0.9 else "")
    def a_pong(self): return self.rng.choice(["m", "m", "mx"])
    def a_p(self): return self.srvcmd("p " + self.pw())
    def srvcmd(self, line):
        c = line.split(" ", 1)
        if self.rng.random() < 0.5:
            return self.cmd("m", "server " + line)
        return self.cmd(c[0], c[1] if len(c) > 1 else "")
    def a_cp(self): return self.srvcmd("cp " + self.pw() + " " + self.pw())
    def a_delete(self): return self.srvcmd("delete " + self.pw())
    def a_secure(self): return self.srvcmd(self.rng.choice(["secure", "nosecure"]))
    def a_info(self):
        f = self.rng.choice(["rname", "email", "phone", "addr", "text", "www"])
        t = self.rng.choice([self.text(200), "1 Main St|Town|Z", "word " * 30, "x" * 130, "a" * 40 + " " + "b" * 60, "",
                             "first\nsecond " + "x" * self.rng.randrange(55, 66) + "\n\nlast", "\n", "y" * self.rng.randrange(58, 66) + "\n" + "z " * 33])
        return self.srvcmd(f + " " + t[:200])
    def a_whois(self): return self.srvcmd("whois " + self.anynick())
    def a_write(self): return self.srvcmd("write " + self.anynick() + " " + self.text(self.rng.choice([200, 239])))
    def a_read(self): return self.srvcmd("read")
    def a_srvmisc(self): return self.srvcmd(self.rng.choice(["help", "?", "info", "bogus", "read x", ""]))
    def a_motd(self): return self.cmd("motd", "")
    def a_help(self): return self.cmd("s_help", "")
    def a_news(self): return self.cmd("news", self.rng.choice(["", "1", "2", "3", "../motd", "x", "(null)"]))
    def a_v(self): return self.cmd("v", "")
    def a_stats(self): return self.cmd("stats", self.rng.choice(["", "", "reset", "x"]))
    def a_shuttime(self): return self.cmd("shuttime", "")
    def a_log(self): return self.cmd("log", self.rng.choice(["", "0", "1"]))
    def a_brick(self):
        w = self.rng.choice([self.anynick(), self.anynick(), self.anynick(), "", "server", "nobody", "x y", self.anynick() + " now"])
        return self.rng.choice([self.cmd("brick", w)] * 4 + [self.srvcmd("brick " + w), "hbrick"])
    def a_wall(self): return self.cmd("wall", self.text(200))
    def a_shutdown(self): return self.cmd("shutdown", self.rng.choice(["1", "2", "6", "10", "400"]))
    def a_drop(self):
        n = self.anynick()
        if n.lower() == "server":
            n = "bob"
        return self.cmd("drop", n + self.rng.choice(["", " " + self.pw()]))
    def a_restartcmd(self): return "hrestart" + SOH
    def a_bogus(self): return self.rng.choice(["hfoo" + SOH + "x", "h", "h" + SOH, "cfoo", "dfoo", "e", "fx", "gx", "i", "jx", "kx", "n",
                                               "\x02", "Z", "\xe9", "b", "hg", "hw", "l", "hm" + SOH, "hbeep" + SOH, "a"])
    def a_relogin(self): return self.loginpkt()[0]

    def src(self):
        return "127.0.0.1" if self.rng.random() < self.p.get("home", 0.75) else self.rng.choice(["127.0.0.2", "127.0.0.2", "127.0.1.77"] + ["::1"] * (2 * self.rec.srv.dual))

    def loginpkt(self, nick=None):
        r = self.rng
        nick = nick if nick is not None else w(r, NICKS, ODD_NICKS, self.odd)
        f = [w(r, IDS, ODD_IDS, self.odd / 2), nick, self.group() if r.random() < 0.9 else "",
             r.choice(["login"] * 20 + ["w", "wg", "Login", "bogus"]), self.pw() if r.random() < 0.4 else ""]
        if nick.lower() == "admin" and r.random() < 0.8:
            f[4] = ADMIN_PWD
        if f[4] == "" and r.random() < 0.5:
            f.pop()
        return ("a" + SOH.join(f))[:253], nick

    def login(self, slot, nick=None):
        if nick is None and self.rng.random() < self.p.get("admin", 0.04):
            nick = "admin"
        if nick is None:
            free = [n for n in NICKS if n not in self.nick.values()]
            nick = self.rng.choice(free) if free and self.rng.random() < 0.75 else None
        p, nick = self.loginpkt(nick)
        self.step_pkt(slot, p)
        if slot in self.rec.live:
            self.nick[slot] = nick
            self.inn.add(slot)

    def step_pkt(self, slot, payload):
        payload = payload[:253]
        die = self.p.get("maydie", False)
        r = self.rng
        if payload.lower().startswith("hrestart") and self.nk(slot).lower() == "admin":
            return                  # a known finding, tried separately
        if payload.lower().startswith("hshutdown") and self.nk(slot).lower() == "admin" and not die:
            return
        if r.random() < self.p.get("crash", 0) and slot in self.rec.live and len(payload) < 254 and not self.rec.inb.get(slot):
            if re.match("a|h(p|cp|delete|secure|info|rname|addr|phone|email|text|www|write|read|m)" + SOH, payload, re.I):
                n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 16, 20, 25, 30, 40, 60])
                if r.random() < 0.3:        # writing fails, but the server goes on; the next use makes it good
                    self.rec.fault(slot, payload, n + r.choice([0, 0, 1000]))
                    self.prune()
                    if slot in self.rec.live and slot in self.inn:
                        self.rec.pkt(slot, self.c("whois", r.choice(NICKS)))
                        self.rec.disk(False)
                    else:
                        p, self.p = self.p, dict(self.p, crash=0, split=0)
                        s = self.user(nick="z%d" % r.randrange(1000), group="1")
                        self.p = p
                        if s is not None and s in self.rec.live:
                            self.rec.pkt(s, self.c("whois", r.choice(NICKS)))
                            self.rec.disk(False)
                    return
                self.rec.crash(slot, payload, n)
                self.prune()
                return
        fr = chr(len(payload) + 1) + payload + "\0"
        if r.random() < self.p.get("split", 0.02) and len(fr) > 2:
            k = r.randrange(1, len(fr))
            self.rec.bytes(slot, fr[:k], die)
            self.rec.bytes(slot, fr[k:], die)
        else:
            self.rec.bytes(slot, fr, die)
        if payload.startswith("hname" + SOH) and self.rec.steps[-1]["out"]:
            for c, ps in self.rec.steps[-1]["out"]:
                if c == slot and any(x.startswith("dName") for x in ps):
                    self.nick[slot] = payload.split(SOH, 1)[1][:12].strip() or "x"
        self.prune()

    def prune(self):
        for s in list(self.nick):
            if s not in self.rec.live:
                self.nick.pop(s, None)
                self.inn.discard(s)
        if self.rec.steps and self.rec.steps[-1]["dead"]:
            raise StopIteration

    # ---- macros: several steps that bring about one kind of situation
    def say(self, slot, payload):
        """One step of a macro; now and then something else happens first."""
        if self.rng.random() < self.p.get("noise", 0.06):
            self.single()
        if slot in self.rec.live:
            self.step_pkt(slot, payload)

    def c(self, name, arg=""):
        return "h" + name + SOH + arg

    def wait(self, d):
        self.rec.tick(d, self.p.get("maydie", False))
        self.prune()

    def user(self, nick=None, group=None, id_=None, pw=None, slot=None, avoid=(), rcvbuf=0):
        """A logged-in user's slot: an existing one (nick None) or a new connection."""
        r = self.rng
        if nick is None and slot is None and not rcvbuf:
            have = [s for s in self.rec.live if s in self.inn and s not in avoid]
            if have and (len(self.rec.live) >= self.p.get("clients", 4) or r.random() < 0.6):
                s = r.choice(have)
                if group is not None:
                    self.say(s, self.c("g", group))
                return s
        if nick is None:
            free = [n for n in NICKS if n not in self.nick.values()]
            nick = r.choice(free) if free else "n%d" % r.randrange(100)
        s = self.rec.connect(tls=self.rec.tls and r.random() < 0.5, src=self.src(), rcvbuf=rcvbuf)
        if s is None:
            return None
        f = [id_ or r.choice(IDS), nick, group if group is not None else self.group(), "login"]
        if pw is not None:
            f.append(pw)
        self.step_pkt(s, "a" + SOH.join(f))
        if s in self.rec.live:
            self.nick[s] = nick
            self.inn.add(s)
        return s

    def leave(self, s):
        if s in self.rec.live:
            if self.rec.tls and self.rng.random() < 0.2:
                self.rec.rst(s, spoil=True)
            else:
                (self.rec.fin if self.rng.random() < 0.5 else self.rec.rst)(s)
            self.prune()

    def newgroup(self):
        self.ng = getattr(self, "ng", 0) + 1
        return self.rng.choice(["", "", "", ".", ".."]) + "q%d" % self.ng

    def pair(self, n=2, group=None):
        """n users in one fresh group; the first created it."""
        g = group or self.newgroup()
        a = self.user(group=g)
        us = [a]
        for _ in range(n - 1):
            u = self.user(group=g.lstrip("."), avoid=us)
            if u is not None and u not in us:
                us.append(u)
        return g.lstrip("."), us

    def nk(self, s):
        return self.nick.get(s, "nobody")

    def x_open(self):
        g, us = self.pair(self.rng.choice([2, 3, 4]))
        r = self.rng
        for s in us:
            if r.random() < 0.25:
                self.say(s, self.c("echoback", r.choice(["on", "verbose"])))
            if r.random() < 0.15:
                self.say(s, self.c("hush", "-o " + self.nk(r.choice(us))))
        for _ in range(r.randrange(1, 6)):
            s = r.choice(us)
            n = r.choice([0, 1, 5, 100, 238, 239, 240, 241, 242, 250, 252])
            x = r.choice(["o", "\xc3\xa9", "\xe2\x82\xac"])
            tx = (x * 252)[:n] if r.random() < 0.4 else self.text(250)
            self.say(s, ("b" + tx)[:253])

    def x_spam(self):
        r = self.rng
        s = self.user(group="1")
        t = self.user(group="1", avoid=[s])
        for _ in range(r.randrange(2, 7)):
            self.say(r.choice([s, s, s, t]), "b" + r.choice(["x", "spam"]))
            if r.random() < 0.2:
                self.wait(1)

    def x_private(self):
        r = self.rng
        g, us = self.pair(2)
        a, b = us[0], us[-1]
        for _ in range(r.randrange(1, 5)):
            k = r.random()
            if k < 0.15:
                self.say(b, self.c("away", r.choice(["out %s", "%s later", "%s" + "z" * 190])))
            elif k < 0.25:
                self.say(r.choice(us), self.c("echoback", r.choice(["verbose", "verbose", "off"])))
            elif k < 0.35:
                self.say(b, self.c("hush", r.choice(["", "-p ", "-o ", "-q "]) + self.nk(a)))
            elif k < 0.42:
                self.say(b, self.c("hush", "-s " + self.site()))
            elif k < 0.5:
                self.wait(r.choice([1, 9, 10, 11, 12]))
            elif k < 0.56:
                self.say(b, self.c("whereis"))
            else:
                s, d = r.choice([(a, b), (a, b), (b, a)])
                n = r.choice([1, 100, 220, 225, 230, 235, 240])
                tx = ("m" * 250)[:n] if r.random() < 0.3 else self.text(230)
                nm = self.nk(d)
                self.say(s, self.c("m", (nm.upper() if r.random() < 0.2 else nm) + " " + tx)[:253])

    def x_restrict(self):
        r = self.rng
        g, us = self.pair(r.choice([1, 2]))
        a = us[0]
        b = self.user(group="h", avoid=us)
        self.say(a, self.c("status", r.choice(["r", "r", "r s", "r q", "r n", "r i"])))
        for _ in range(r.randrange(1, 6)):
            k = r.random()
            nm = self.nk(r.choice([b, b] + us))
            if k < 0.3:
                self.say(a, self.c("invite", r.choice(["", "", "-q ", "-r ", "-rq ", "-n "]) + nm))
            elif k < 0.42:
                self.say(a, self.c("invite", r.choice(["-s ", "-s -r ", "-sq "]) + self.site()))
            elif k < 0.52:
                self.say(a, self.c("cancel", r.choice(["", "-q ", "-n "]) + nm))
            elif k < 0.58:
                self.say(a, self.c("cancel", "-s " + self.site()))
            elif k < 0.66:
                self.say(b, self.c("p", "pw1"))
            elif k < 0.72:
                self.say(b, self.c("name", self.rng.choice(NICKS)))
            elif k < 0.76:
                self.say(a, self.c("boot", nm))
            elif k < 0.8:
                self.say(a, self.c("status", r.choice(["m", "p", "c", "r"])))
            elif k < 0.84:
                self.say(a, self.c("invite"))
            elif k < 0.87:
                self.say(b, self.c("g", "k"))
            else:
                self.say(b, self.c("g", r.choice(["", "", ".", ".."]) + g))
        self.say(b, self.c("g", g))

    def x_relist(self):
        """Invitations of every kind, and what is left of them when the group's control changes."""
        r = self.rng
        g, us = self.pair(r.choice([1, 2]))
        a = us[0]
        b = self.user(group="h", avoid=us)
        if r.random() < 0.5:
            self.say(b, self.c("p", "pw1"))
        self.say(a, self.c("status", r.choice(["r", "r", "r s", "r i"])))
        for _ in range(r.choice([1, 2])):
            for f, x in (("-q ", self.nk(b)), ("-qr ", self.nk(b)), ("-qs ", self.site()), ("-qsr ", self.site())):
                if r.random() < 0.7:
                    self.say(a, self.c("invite", f + x))
            for c in [r.choice(["p", "m", "c", "r"])] + ["r"] * (r.random() < 0.3):
                self.say(a, self.c("status", c))
                self.say(a, self.c("invite"))
            k = r.random()
            if k < 0.3:
                self.say(b, self.c("w"))
            elif k < 0.5:
                self.user(group="h", avoid=us)
            elif k < 0.8:
                self.say(b, self.c("g", g))

    def x_fillinv(self):
        r = self.rng
        g, us = self.pair(1)
        a = us[0]
        self.say(a, self.c("status", "r"))
        fl = r.choice(["-q ", "-qr ", "-qs ", "-qrs "])
        n = r.choice([48, 49, 50, 51, 53])
        for k in range(n):
            self.step_pkt(a, self.c("invite", fl + ("u%d@*" % k if "s" in fl else "i%02d" % k)))
        self.say(a, self.c("invite"))
        for k in (0, 1, 2, n - 1):
            b = self.user(nick="i%02d" % k, id_="u%d" % k, group=g, pw=None)
            if b is not None and b in self.rec.live:
                self.leave(b)

    def x_size(self):
        r = self.rng
        g, us = self.pair(r.choice([1, 2, 3]))
        a = us[0]
        self.say(a, self.c("status", r.choice(["", "m ", "c ", "r ", "p ", "n ", "l "]) + "# " + str(r.choice([1, 2, 3, 4]))))
        for _ in range(r.randrange(1, 5)):
            b = self.user(group="k")
            if r.random() < 0.5:
                self.say(a, self.c("invite", r.choice(["", "-q ", "-r "]) + self.nk(b)))
            self.say(b, self.c("g", r.choice([g, g, "@" + self.nk(a)])))
            if r.random() < 0.25:
                self.leave(r.choice(us))

    def x_modleave(self):
        """A moderator, registered or not, goes; perhaps comes back; somebody else takes over."""
        r = self.rng
        nm = r.choice(NICKS)
        reg = r.random() < 0.7
        old = [s for s in self.nick if self.nick[s] == nm]
        for s in old:
            self.leave(s)
        g = self.newgroup()
        pw = r.choice(["pw1", "pw2"])
        a = self.user(nick=nm, id_="u1", group=g, pw=pw if r.random() < 0.5 else None)
        if a is None or a not in self.rec.live:
            return
        if reg:
            self.say(a, self.c("p", pw))
            if r.random() < 0.3:
                self.say(a, self.c(r.choice(["secure", "nosecure"])))
        g = g.lstrip(".")
        us = [self.user(group=g, avoid=[a]) for _ in range(r.choice([0, 1, 2, 2]))]
        for s in us:
            if r.random() < 0.25:
                self.say(s, self.c("away", "brb %s"))
            if r.random() < 0.3:
                self.wait(r.choice([1, 2, 7]))
                self.say(s, "bx")
        if r.random() < 0.3:
            self.say(a, self.c("status", r.choice(["q", "r", "c", "n"])))
        k = r.random()
        if k < 0.15:
            self.say(a, self.c("g", "k"))
        if k < 0.6:
            self.leave(a)
        elif k < 0.7:
            self.say(a, self.c("pass", self.nk(r.choice(us)) if us else ""))
        elif k < 0.8:
            self.say(a, self.c("pass"))
        elif k < 0.85:
            self.say(a, self.c("name", "newname"))
            self.leave(a)
        else:
            self.leave(a)
        self.wait(r.choice([0, 1, 100, 298, 299, 300, 301, 302, 400]))
        if r.random() < 0.4:
            self.wait(r.choice([1, 2, 299]))
        if us and r.random() < 0.5:
            self.say(r.choice(us), self.c(r.choice(["w", "status", "topic"]), r.choice(["", ".", "x"])))
        k = r.random()
        if k < 0.2:                                     # the administrator looks in
            adm = self.user(nick="admin", pw=ADMIN_PWD, group=g)
            if adm is not None:
                self.say(adm, self.c("pass", r.choice(["", "admin", self.nk(us[0]) if us else "admin"])))
                if us and r.random() < 0.5:
                    self.say(r.choice(us), "bx")
                    self.wait(r.choice([299, 300, 301, 302]))
        k = r.random()
        b = None
        if k < 0.55:
            b = self.user(nick=r.choice([nm, nm, nm, nm.swapcase()]), id_=r.choice(["u1", "u1", "u1", "u2"]),
                          group=r.choice([g, g, "k"]), pw=r.choice([None, None, pw, "bad"]))
        elif k < 0.85:                                  # back by taking the name again
            b = self.user(nick="zed2", id_=r.choice(["u1", "u1", "u2"]), group=r.choice([g, g, "k"]))
            if b is not None and b in self.rec.live:
                self.say(b, self.c("name", r.choice([nm, nm, nm, nm.swapcase()])))
        if b is not None and b in self.rec.live and r.random() < 0.5:
            self.say(b, self.c("p", r.choice([pw, pw, "bad"])))
        if us:
            self.say(r.choice(us), self.c("w", "."))
        self.wait(r.choice([1, 300, 301]))
        if us and r.random() < 0.5:
            self.say(r.choice(us), self.c(r.choice(["w", "status"]), r.choice(["", "."])))
        if b is not None and r.random() < 0.3:
            self.leave(b)

    def x_idle(self):
        r = self.rng
        g, us = self.pair(r.choice([1, 2, 3]))
        a = us[0]
        m = r.choice([1, 2, 60, 61])
        o = r.choice(["b %d" % m, "im %d" % m, "b %d im %d" % (m, r.choice([1, 2, 60])), "b 0", "im 0", ""])
        if r.random() < 0.3:
            o = (o + " idlebootmsg " + r.choice(["go %s", "%s is 100%% idle"])).strip()
        if o:
            self.say(a, self.c("status", o))
        if r.random() < 0.3:
            self.say(a, self.c("status", r.choice(["q", "n", "r", "c", "p"])))
        for _ in range(r.randrange(2, 8)):
            k = r.random()
            if k < 0.55:
                self.wait(r.choice([m * 60 - 1, m * 60, m * 60 + 1, 1, 30, 3599, 3600, 3601, 14400, 14401]))
            elif k < 0.8:
                self.say(r.choice(us), r.choice(["bhi", self.c("w", "."), "m", self.c("ping"), "n", self.c("status"), "z"]))
            elif k < 0.9:
                self.say(r.choice(us), self.c("away", "zz %s"))
            else:
                self.say(r.choice(us), self.c("g", r.choice(["~IDLE~", "~idle~", "k", g])))
        if r.random() < 0.5:
            self.say(r.choice(us), self.c("g", g))

    def x_control(self):
        r = self.rng
        g, us = self.pair(r.choice([2, 3]))
        a = us[0]
        self.say(a, self.c("status", r.choice(["c", "c", "c", "q", "c q", "c r"])))
        for _ in range(r.randrange(2, 8)):
            b = r.choice(us)
            k = r.random()
            if k < 0.3:
                self.say(a, self.c("talk", r.choice(["-a ", "", "-r ", "-ar ", "-q ", "-d ", "-dq ", "-aq "]) + self.nk(b)))
            elif k < 0.4:
                self.say(b, self.c("p", "pw1"))
            elif k < 0.45:
                self.say(b, self.c("name", r.choice(NICKS)))
            elif k < 0.5:
                self.say(a, self.c("status", r.choice(["p", "m", "c", "n", "l", "q", ""])))
            elif k < 0.55:
                self.say(a, self.c("pass", self.nk(b) if r.random() < 0.7 else ""))
            elif k < 0.65:
                self.say(b, self.c("exclude", self.nk(r.choice(us)) + " psst"))
            else:
                self.say(b, "bmay i")

    def x_filltalk(self):
        r = self.rng
        g, us = self.pair(2)
        a, b = us[0], us[-1]
        self.say(a, self.c("status", "c"))
        n = r.choice([49, 50, 51, 52])
        fl = r.choice(["-aq ", "-aqr "])
        self.step_pkt(a, self.c("talk", fl + self.nk(b)))
        for k in range(n):
            self.step_pkt(a, self.c("talk", fl + "t%02d" % k))
        self.say(b, "bhi")
        self.say(b, self.c("status"))

    def x_hush(self):
        r = self.rng
        g, us = self.pair(r.choice([2, 3]))
        b = r.choice(us)
        for _ in range(r.randrange(2, 8)):
            a = r.choice(us)
            k = r.random()
            if k < 0.35:
                f = r.choice(["", "-p ", "-o ", "-q ", "-po ", "-n ", "-pq "])
                self.say(b, self.c("hush", f + r.choice([self.nk(a), self.nk(a).upper(), self.nk(a)[:1] + "*", "*"])))
            elif k < 0.5:
                self.say(b, self.c("hush", r.choice(["-s ", "-sp ", "-so ", "-s -q "]) + self.site()))
            elif k < 0.55:
                self.say(b, self.c("hush"))
            elif k < 0.6:
                self.say(a, self.c("name", r.choice(NICKS)))
            elif k < 0.7:
                self.say(a, self.c("m", self.nk(b) + " psst"))
            elif k < 0.76:
                self.say(a, self.c(r.choice(["beep", "ping"]), self.nk(b)))
            elif k < 0.82:
                self.say(a, self.c("exclude", "nobody psst"))
            else:
                self.say(a, "bhello")

    def x_filllist(self):
        r = self.rng
        b = self.user()
        what, lim = r.choice([("hush", 32), ("notify", 40)])
        fl = r.choice(["-q ", "-q -s ", "-qs "] + (["-qp ", "-qo "] if what == "hush" else []))
        n = lim + r.choice([-1, 0, 1, 2])
        for k in range(n):
            self.step_pkt(b, self.c(what, fl + ("v%d@*" % k if "s" in fl else "v%02d" % k)))
        self.say(b, self.c(what))
        self.say(b, self.c(what, fl + ("v%d@*" % 3 if "s" in fl else "v03")))
        self.say(b, self.c(what, fl + ("w@*" if "s" in fl else "ww")))
        self.say(b, self.c(what, fl.replace("q", "n") if "s" not in fl else fl + "x@*"))

    def x_notify(self):
        r = self.rng
        b = self.user()
        nm = r.choice([n for n in NICKS if n not in self.nick.values()] or NICKS)
        self.say(b, self.c("notify", r.choice([nm, nm.upper(), nm[:2] + "*", "-q " + nm, "-s u3@*", "-s *@localhost", "*", "-n ?" + nm[1:]])))
        if r.random() < 0.3:
            self.say(b, self.c("notify"))
        a = self.user(nick=nm, id_="u3", group=r.choice(["g", "h", ".sec", "..inv", "..q", "1", "rr"]))
        if a is not None:
            if r.random() < 0.3:
                self.say(a, self.c("name", r.choice(NICKS)))
            if r.random() < 0.3:
                self.say(a, self.c("g", r.choice(["..inv2", "g", ".s2"])))
            if r.random() < 0.3:
                self.say(b, self.c("notify", nm))
            self.leave(a)

    def x_reg(self):
        r = self.rng
        nm = r.choice(NICKS)
        for s in [s for s in self.nick if self.nick[s] == nm]:
            self.leave(s)
        a = self.user(nick=nm, id_=r.choice(["u1", "u2"]), pw=r.choice([None, "pw1", "pw2"]))
        for _ in range(r.randrange(2, 9)):
            if a not in self.rec.live:
                a = self.user(nick=nm if r.random() < 0.7 else nm.swapcase(), id_=r.choice(["u1", "u2"]), pw=r.choice([None, "pw1", "pw2", "bad"]))
                if a is None:
                    return
            k = r.random()
            if k < 0.25:
                self.say(a, self.c("p", r.choice(["pw1", "pw1", "pw2", "averylongpass", "averylongpasX", "averylongpassword"])))
            elif k < 0.4:
                self.say(a, self.c("cp", r.choice(["pw1", "pw2"]) + " " + r.choice(["pw1", "pw2", "", "averylongpass"])))
            elif k < 0.5:
                self.say(a, self.c(r.choice(["secure", "nosecure"])))
            elif k < 0.58:
                self.say(a, self.c("delete", r.choice(["pw1", "pw2", "bad"])))
            elif k < 0.68:
                self.say(a, self.c("name", r.choice([nm, "temp", nm.upper()])))
            elif k < 0.8:
                self.say(self.user(), self.c("whois", r.choice([nm, nm.upper(), "temp"])))
            elif k < 0.85:
                self.wait(r.choice([60, 3600]))
            elif k < 0.88:
                self.say(a, self.a_info())
            else:
                self.leave(a)

    def x_mail(self):
        r = self.rng
        nm, other = r.sample(NICKS, 2)
        for x, i in ((nm, "u1"), (other, "u2")):
            if x not in self.nick.values():
                self.user(nick=x, id_=i)
            s = [s for s in self.nick if self.nick[s] == x]
            if s:
                self.say(s[0], self.c("p", "pw1"))
        if r.random() < 0.5:
            for s in [s for s in self.nick if self.nick[s] == nm]:
                self.leave(s)
        n = r.choice([1, 2, 3, 19, 20, 21]) if r.random() < 0.35 else r.choice([1, 2, 3])
        for k in range(n):
            s = [s for s in self.nick if self.nick[s] == other]
            if s:
                self.step_pkt(s[0], self.c("write", r.choice([nm, nm, nm.upper()]) + " " + r.choice(["msg %d" % k, self.text(200), self.text(), "l" * r.randrange(200, 250)])))
        if nm not in self.nick.values():
            self.user(nick=nm, id_=r.choice(["u1", "u1", "u3"]), pw=r.choice([None, "pw1"]))
        for s in [s for s in self.nick if self.nick[s] == nm]:
            self.say(s, self.c("read"))
            if r.random() < 0.5:
                self.say(s, self.c("read"))

    def x_slot(self):
        """A user who has left marks everywhere goes, and another takes the slot."""
        r = self.rng
        a = self.user()
        b = self.user(avoid=[a])
        if a == b or a is None or b is None:
            return
        A, B = self.nk(a), self.nk(b)
        marks = [(a, self.c("away", "gone %s")), (a, self.c("echoback", "verbose")), (a, self.c("nobeep", "verbose")),
                 (a, self.c("hush", B)), (a, self.c("hush", "-s *@*")), (a, self.c("notify", B)), (a, self.c("notify", "-s *@*")),
                 (a, self.c("p", "pw1")), (b, self.c("m", A + " hi")), (a, self.c("m", B + " hi")), (b, self.c("ping", A)),
                 (a, self.c("ping", B)), (b, self.c("away", "off %s")), (a, self.c("g", "q")), (a, self.c("status", "r")),
                 (b, self.c("beep", A))]
        for s, p in r.sample(marks, r.randrange(3, 9)):
            self.say(s, p)
        if r.random() < 0.5:
            self.say(a, self.c("m", B + " last"))
        self.leave(a)
        if r.random() < 0.3:
            self.wait(r.choice([1, 10, 11]))
        n = self.user(nick=r.choice([x for x in NICKS + ["neu"] if x not in self.nick.values()]), group=r.choice([self.rng.choice(GROUPS), "q"]))
        if n is None:
            return
        N = self.nk(n)
        probe = [(b, self.c("m", N + " yo")), (b, self.c("beep", N)), (n, self.c("hush")), (n, self.c("notify")), (n, self.c("away")),
                 (n, "bhi"), (n, self.c("m", B + " hi")), (n, "m"), (b, "m"), (n, self.c("whereis")), (b, self.c("whereis")),
                 (n, self.c("status")), (n, self.c("read")), (n, self.c("noaway")), (n, self.c("beep", B)), (b, self.c("w"))]
        for s, p in r.sample(probe, r.randrange(4, 10)):
            self.say(s, p)

    def x_mod(self):
        """Everything a moderator may do, tried by the moderator and by others."""
        r = self.rng
        g, us = self.pair(r.choice([2, 3]))
        a = us[0]
        if r.random() < 0.5:
            self.say(a, self.c("status", r.choice(["r", "c", "m", "p", "q", "n"])))
        for _ in range(r.randrange(2, 8)):
            s = r.choice(us)
            o = self.nk(r.choice(us))
            self.say(s, self.c(*r.choice([("topic", "new topic %d" % r.randrange(9)), ("boot", o), ("pass", o), ("pass", ""),
                                          ("status", self.status_opt()), ("status", self.status_opt()), ("invite", o), ("cancel", o),
                                          ("talk", o), ("talk", "-d " + o), ("status", ""), ("topic", "")])))

    def x_secret(self):
        r = self.rng
        g, us = self.pair(r.choice([1, 2]))
        a = us[0]
        b = self.user(group="h", avoid=us)
        self.say(a, self.c("status", r.choice(["s", "i", "v", "s r", "i r", "s", "i"])))
        for _ in range(r.randrange(2, 8)):
            k = r.random()
            if k < 0.45:
                self.say(r.choice([b, b, a]), self.c("w", r.choice(["", "", "-g", "-s", g, "@" + self.nk(a), "-s " + g, ".", "-g @" + self.nk(a)])))
            elif k < 0.55:
                self.say(b, self.c("g", r.choice(["@" + self.nk(a), g, "." + g])))
            elif k < 0.63:
                self.say(a, self.c("invite", r.choice(["", "-r ", "-s "]) + r.choice([self.nk(b), "*@*"])))
            elif k < 0.7:
                c = self.user(nick=r.choice([x for x in NICKS + ["neu"] if x not in self.nick.values()]), group="@" + self.nk(a))
            elif k < 0.8:
                self.say(b, self.c("whereis", self.nk(a)))
            elif k < 0.9:
                self.say(a, self.c("status", r.choice(["s", "i", "v"])))
            else:
                self.say(b, self.c("notify", self.nk(a)))

    def x_admin(self):
        r = self.rng
        adm = [s for s in self.nick if self.nick[s].lower() == "admin"]
        a = adm[0] if adm else self.user(nick=r.choice(["admin", "admin", "Admin", "ADMIN"]), pw=r.choice([ADMIN_PWD] * 4 + ["bad", ADMIN_PWD.upper(), None]), group=r.choice(["g", "h"]))
        b = self.user(avoid=[a])
        who = [s for s in (a, b) if s in self.rec.live]
        for _ in range(r.randrange(2, 7)):
            if not who:
                return
            s = r.choice(who)
            opts = [("wall", self.text(200)), ("drop", self.nk(b)), ("drop", self.nk(b) + " pw1"), ("stats", "reset"), ("log", "0"),
                    ("boot", self.nk(b)), ("g", "ICB"), ("pass", self.nk(b)), ("boot", "admin"), ("name", "admin"), ("stats", ""),
                    ("w", ""), ("topic", "adm"), ("status", "r"), ("p", "pw1")]
            if self.p.get("maydie"):
                opts.append(("shutdown", r.choice(["1", "2", "6", "400"])))
            if s != a:
                opts.append(("restart", ""))
                opts.append(("shutdown", "1"))
            self.say(s, self.c(*r.choice(opts)))
            who = [x for x in who if x in self.rec.live]

    def x_shutdown(self):
        r = self.rng
        adm = [s for s in self.nick if self.nick[s].lower() == "admin"]
        a = adm[0] if adm else self.user(nick="admin", pw=ADMIN_PWD, group="g")
        b = self.user(avoid=[a])
        m = r.choice([1, 2, 5, 6, 10, 90])
        self.say(a, self.c("shutdown", str(m)))
        for _ in range(r.randrange(2, 8)):
            k = r.random()
            if k < 0.6:
                self.wait(r.choice([1, 30, 59, 60, 61, 239, 240, 241, 60 * m - 60, 60 * m - 61, 60 * m - 1, 60 * m - 300, 60 * m - 301, 60 * m]) if m > 5
                          else r.choice([1, 29, 30, 59, 60, 61, max(1, 60 * m - 60), 60 * m - 1]))
            elif k < 0.7:
                self.say(a, self.c("shutdown", str(r.choice([1, 5, 400]))))
            elif k < 0.8 and b in self.rec.live:
                self.leave(b)
                b = self.user()
            else:
                self.say(b, self.c("shuttime"))

    def x_name(self):
        r = self.rng
        s = self.user()
        on = [self.nick[x] for x in self.inn if x in self.nick]
        nm = r.choice(on + NICKS + ["Server", "server", "SERVER", "admin", "twelvechars1", "twelvechars12", "twelvechars1X", "a b", "a_b"])
        if r.random() < 0.3:
            nm = nm.swapcase()
        if r.random() < 0.2:
            nm = nm.replace("e", "\x05", 1)
        if r.random() < 0.5:
            self.say(s, self.c("name", nm))
        else:
            b = self.user(nick=nm, group=r.choice(["g", "h", "1"]), pw=r.choice([None, "pw1", ADMIN_PWD]))
        for _ in range(r.randrange(0, 3)):
            t = self.user()
            self.say(t, r.choice(["bhey", self.c("m", nm + " hey"), self.c("w"), self.c("whereis", nm), self.c("beep", nm)]))

    def x_badlogin(self):
        """A login that fails, and what it may leave behind."""
        r = self.rng
        g, us = self.pair(r.choice([1, 2]))
        a = us[0]
        k = r.random()
        if k < 0.4:
            self.say(a, self.c("status", r.choice(["r", "# 1", "i", "s"])))
        s = self.rec.connect(tls=self.rec.tls and r.random() < 0.5, src=self.src())
        if s is None:
            return
        for _ in range(r.randrange(0, 3)):
            self.say(s, r.choice(["bhello", self.c("w"), self.c("g", g), "m", "n", self.c("m", self.nk(a) + " hi"), "h", "c", self.c("p", "pw1"),
                                  self.c("name", "zz"), self.c("drop", self.nk(a))]))
        f = [r.choice(IDS + ODD_IDS), r.choice([self.nk(a), self.nk(a).upper(), "neu", "", "nick1234567890", "admin", "Server", "neu2"]),
             r.choice([g, "@" + self.nk(a), "@nobody", "ICB", "", ".", "..", "1"]), r.choice(["login"] * 6 + ["w", "wg", "x"]), r.choice(["", "pw1", ADMIN_PWD])]
        if s in self.rec.live:
            self.step_pkt(s, "a" + SOH.join(f[:r.choice([1, 3, 4, 5, 5, 5])]))
        if s in self.rec.live:
            self.nick[s] = f[1]
            self.inn.add(s)
        self.say(a, self.c("w"))
        if r.random() < 0.5:
            self.user(nick="neu" if "neu" not in self.nick.values() else None)

    def x_beep(self):
        r = self.rng
        g, us = self.pair(2)
        a, b = us[0], us[-1]
        for _ in range(r.randrange(2, 8)):
            s, d = r.choice([(a, b), (b, a)])
            self.say(s, r.choice([self.c("beep", self.nk(d)), self.c("ping", self.nk(d)), "m", self.c("nobeep", r.choice(["on", "off", "verbose"])),
                                  self.c("away", "out %s"), self.c("noaway"), self.c("m", self.nk(d) + " x"), self.c("beep", "server"),
                                  self.c("ping"), self.c("echoback", "verbose"), "bopen"]))
            if r.random() < 0.4:
                self.wait(r.choice([1, 3, 9, 10, 11, 12]))

    def x_brick(self):
        """Somebody throws until there are none left, and on; somebody else collects them."""
        r = self.rng
        a, b = r.sample(sorted(self.inn), 2)
        k = r.choice([2, 4, 6, 8, 11, 12, 14])
        for _ in range(k):
            if a not in self.rec.live or b not in self.rec.live:
                break
            self.say(a, r.choice([self.c("brick", self.nk(b))] * 8 + [self.c("brick", self.nk(a)), self.c("brick", "nobody"), self.c("m", "server brick " + self.nk(b)),
                                                                      self.c("brick"), self.c("brick", "SERVER"), self.c("brick", self.nk(b).upper())]))
            if r.random() < 0.15:
                self.say(r.choice([a, b]), r.choice([self.c("brick"), self.c("name", self.anynick()), self.c("g", r.choice(["g", "h", "1"])), self.c("echoback", "verbose")]))
            if r.random() < 0.1:
                self.say(b, self.c("brick", self.nk(a)))
        for s in (a, b):
            if s in self.rec.live:
                self.say(s, self.c("brick"))

    def x_frames(self):
        """Several packets in one write, cut anywhere."""
        r = self.rng
        s = self.user()
        if s is None or s not in self.rec.live:
            return
        b = ""
        for _ in range(r.randrange(1, 6)):
            p = r.choice(["bhi", self.c("w", "."), "m", "n", self.c("echoback", "on"), self.c("topic", "x"), "z", self.c("v"), "",
                          "b" + "l" * r.choice([10, 252]), self.c("m", self.nk(s) + " me"), "bnul\0tail"])
            b += chr(len(p) + 1) + p + r.choice(["\0", "\0", "\0", "\0", "x"])
        if r.random() < 0.1:
            b += r.choice(["\0", "\xff"])
        while b:
            k = r.choice([1, 2, 3, 7, 50, 300])
            if s not in self.rec.live:
                break
            self.rec.bytes(s, b[:k], self.p.get("maydie", False))
            b = b[k:]
            if r.random() < 0.1:
                self.single()
        self.prune()

    def x_restart(self):
        """The server is stopped and started again; everybody comes back."""
        r = self.rng
        if len(self.rec.steps) and r.random() < 0.7:
            nm = r.choice(NICKS)
            s = [x for x in self.nick if self.nick[x] == nm]
            s = s[0] if s else self.user(nick=nm, id_=r.choice(["u1", "u2"]), pw=r.choice([None, "pw1"]))
            for _ in range(r.randrange(0, 4)):
                self.say(s, r.choice([self.c("p", "pw1"), self.a_info(), self.c("secure"), self.c("write", nm + " note"), self.c("cp", "pw1 pw2"), self.c("delete", "pw1")]))
        self.rec.restart()
        self.prune()
        for _ in range(r.randrange(1, 4)):
            s = self.user(nick=r.choice([n for n in NICKS if n not in self.nick.values()]), id_=r.choice(["u1", "u2"]), pw=r.choice([None, None, "pw1", "pw2"]))
            if s is not None:
                self.say(s, r.choice([self.c("read"), self.c("whois", r.choice(NICKS)), self.c("p", "pw1"), self.c("w"), self.c("stats")]))

    def x_journal(self):
        """The log is moved away, kept at another level, or somebody would like to write it; the server is asked to end."""
        r, rec = self.rng, self.rec
        k = r.random()
        if k < 0.25:
            rec.hup()
        elif k < 0.45:
            adm = [s for s in self.nick if self.nick[s].lower() == "admin"]
            a = adm[0] if adm else self.user(nick="admin", pw=ADMIN_PWD)
            self.say(a, self.c("log", r.choice(["0", "1", "2", "3", "3", "3", "3", "4", "5"])))
        elif k < 0.55:
            rec.restart(r.choice([signal.SIGTERM, signal.SIGINT]))
        else:
            t = r.choice(["", "x", "it"]) + r.choice(["\n", "\n", "\r\n", "\n\n"]) + "[INFO]  Sep %02d 2001 0%d:00:00 icb: [%s] %d: root@localhost" % (
                r.choice([10, 11]), r.randrange(9), r.choice(["LOGIN", "CONNECT", "LOST", "WHO", "OPEN"]), r.randrange(9, 13)) + r.choice(["", "\n", "\n[INFO] "])
            s = rec.connect() if r.random() < 0.5 else r.choice(rec.live) if rec.live else None
            if s is not None:
                p = r.choice(["z" + t, "h" + t, "h" + t + SOH, "b" + t, "m" + t, "hm" + SOH + t, "hwho" + SOH + t, "hlog" + SOH + t, "hw" + SOH + t,
                              "a" + t + SOH + "zoe" + SOH + "g" + SOH + r.choice(["w", "wg", "login", t]),
                              "au1" + SOH + "zoe" + SOH + "g" + SOH + r.choice(["w", "wg", t])])
                rec.pkt(s, p, self.p.get("maydie", False))
        self.prune()

    def deny_file(self):
        r = self.rng
        out = []
        for _ in range(r.randrange(0, 4)):
            ind = r.choice(["", "", "", " ", "\t ", "  "])
            pat = r.choice(["u1@localhost", "U2@*", "*@127*", "u[12]@*", "*@[[]127.0.0.2]", "*@\\[127.0.1.77\\]", "*@[[]::1]", "*@?::*", "guest@*", "*@nowhere", "u?@local*", "*1@*", "[^u]*@*",
                            "*", "u1", "U1@LOCALHOST", "*@*2]", "u1@[", "*@localhost"])
            if r.random() < 0.3:
                pat = r.choice(["u1@localhost", "u2@*", "*@?127.0.0.2?"])
            out.append(ind + pat + r.choice(["", " ", " go away", "\tno  such luck ", "  twice", " u2@* *"]))
            if r.random() < 0.3:
                out.append(r.choice(["", "   ", "# a comment u1@localhost", "#u1@localhost", "\t"]))
        return "\n".join(out) + (r.choice(["\n", "\n", ""]) if out else "")

    def perms_file(self):
        r = self.rng
        ent, text = [], []
        case = lambda x: r.choice([x, x, x.upper(), x.capitalize()])
        for _ in range(r.randrange(0, 4)):
            deny, slow = r.random() < 0.4, r.random() < 0.4
            names = (["perm_deny"] if deny else []) + (["perm_slowmsgs"] if slow else [])
            if not names or r.random() < 0.2:
                names.append(r.choice(["perm_null", "perm_null", "perm_other", "deny", "slowmsgs", "PERM"]))
            r.shuffle(names)
            val = r.choice(["", "", "", "|"]) + r.choice(["|", "|", "||"]).join(case(x) for x in names) + r.choice(["", "", "", "|"])
            sp = lambda: r.choice([" ", " ", "\t", "  ", " \t"])
            if r.random() < 0.5:
                who = r.choice(["u1", "u2", "guest", "U1", "u"])
                at = r.choice(["localhost", "localhost", "LocalHost", "[127.0.0.2]", "127.0.0.2", "[127.0.1.77]", "*", "[::1]"])
                e = {"type": "user", "a": who, "b": at}
                line = case("user") + sp() + who + sp() + at
            else:
                ip, mask = r.choice([("127.0.0.2", "255.255.255.255"), ("127.0.0.0", "255.255.255.0"), ("127.0.0.0", "255.255.0.0"), ("127.0.0.0", "255.0.0.0"), ("0.0.0.0", "0.0.0.0"),
                                     ("127.0.1.0", "255.255.255.0"), ("127.0.0.2", "255.255.255.0"), ("10.0.0.0", "255.0.0.0"), ("127.0.0.1", "255.0.0.255"), ("0.0.0.2", "0.0.0.254"), ("127.0.1.64", "255.255.255.192")])
                e = {"type": "mask", "a": [int(x) for x in ip.split(".")], "b": [int(x) for x in mask.split(".")]}
                line = case("mask") + sp() + ip + sp() + mask
            if r.random() < 0.85:
                e["perm"] = {"deny": deny, "slow": slow}
                ent.append(e)
                line = r.choice(["", "", " "]) + line + sp() + val + r.choice(["", "", " ", " and more"])
            else:       # entries that say nothing
                line = r.choice(["#" + line + " perm_deny", "\t" + line + " perm_deny", line, line + " ", "host u1 localhost perm_deny", "user u1 perm_deny", "# " + line, "", "users u1 localhost perm_deny"])
            text.append(line)
        if r.random() < 0.1:        # an entry of no permissions at all
            text.append("mask 127.0.0.2 255.255.255.255 |")
            ent.append({"type": "mask", "a": [127, 0, 0, 2], "b": [255] * 4, "perm": {"deny": False, "slow": False}})
        return "\n".join(text) + ("\n" if text else ""), ent

    def x_files(self):
        """The administrator changes the files, and people come."""
        r = self.rng
        f = {}
        if r.random() < 0.8:
            f["icbd.deny"] = r.choice([self.deny_file(), self.deny_file(), self.deny_file(), None])
        if r.random() < 0.8:
            t, e = self.perms_file()
            f["icbd.perms"], f["_perms"] = (t, e) if r.random() < 0.9 else (None, [])
        if r.random() < 0.3:
            f["motd"] = r.choice([None, "", "changed motd\n", "one\n\nthree\n", "m" * r.randrange(240, 260) + "\n" + "w x" * 100 + "\n", "50%% of\tu\x02s\n%%%%\n", "up %U\n%U%U\n%u%\x01\n", "x" * 245 + "%U\n"])
        if r.random() < 0.3:
            f["news.%d" % r.randrange(1, 5)] = r.choice([None, "fresh\n", "a\nb\nc\n", "n" * r.randrange(240, 260) + "\n" + "v w" * 100 + "\nend\n", "\n\n100%\n"])
        if r.random() < 0.15:
            f["icbd_help"] = r.choice([None, "", "helpful\n"])
        self.rec.setfiles(f)
        for _ in range(r.randrange(1, 7)):
            s = self.rec.connect(src=r.choice(["127.0.0.1", "127.0.0.1", "127.0.0.2", "127.0.1.77"] + ["::1"] * self.rec.srv.dual))
            if s is None:
                return
            kind = r.choice(["login"] * 6 + ["w"])
            if kind == "login" and r.random() < 0.15:
                kind = "LOGIN"
            nick = r.choice([n for n in NICKS if n not in self.nick.values()] or ["zed"])
            self.rec.pkt(s, "a" + r.choice(["u1", "u2", "u3", "guest", "U1", "U2"]) + "\x01" + nick + "\x01" + r.choice(["g", "1", "h"]) + "\x01" + kind + "\x01" + r.choice(["", "pw1"]))
            self.prune()
            if s in self.rec.live:
                self.inn.add(s)
                self.nick[s] = nick
                for _ in range(r.randrange(0, 4)):
                    self.rec.pkt(s, r.choice(["bhello", self.c("w", "."), self.c("motd"), self.c("news"), self.c("news", "3"), self.c("?"), self.c("whereis", nick)]))
                    if r.random() < 0.3:
                        self.rec.tick(1)
                if r.random() < 0.5:
                    self.leave(s)
        self.prune()

    def x_tools(self):
        """People register; the administrator stops the server and works on the database; they come back."""
        import tools
        r = self.rng
        for _ in range(r.randrange(1, 3)):
            nm = r.choice(NICKS)
            s = [x for x in self.nick if self.nick[x] == nm]
            s = s[0] if s else self.user(nick=nm, id_=r.choice(["u1", "u2"]), pw=r.choice([None, "pw1", "p\xe9"]))
            for _ in range(r.randrange(1, 5)):
                self.say(s, r.choice([self.c("p", "pw1"), self.c("p", "p\xe9"), self.a_info(), self.c("rname", "caf\xc3\xa9 \xff"), self.c("addr", "one|two\\nthree"), self.c("text", "li\ne"), self.c("secure"),
                                      self.c("write", r.choice(NICKS) + " note \xc3\xa9"), self.c("cp", "pw1 pw2")]))
        x = r.random()
        if x < 0.3:
            nm = r.choice(NICKS).lower()
            a = {"t": "set", "k": nm + "." + r.choice(["password", "password", "realname", "secure", "home"]), "v": r.choice(["pw3", "new", "u1@localhost", "\xe9"])}
        elif x < 0.5:
            a = {"t": "del", "nicks": r.sample(NICKS, r.randrange(1, 3)), "quiet": False}
        elif x < 0.75:
            a = {"t": "move"}
        elif x < 0.85:
            a = {"t": "migrate", "kind": r.choice(tools.kinds())}
        else:
            now = BASE + self.rec.srv.now
            a = {"t": "prune", "days": r.choice([0, 0, 1, 30]), "how": "-y", "yes": True, "quiet": True, "day": now // 86400, "sec": now % 86400}
        self.rec.tool(a)
        self.prune()
        for _ in range(r.randrange(1, 4)):
            s = self.user(nick=r.choice([n for n in NICKS if n not in self.nick.values()]), id_=r.choice(["u1", "u2"]), pw=r.choice([None, None, "pw1", "pw2", "pw3", "p\xe9"]))
            if s is not None:
                self.say(s, r.choice([self.c("read"), self.c("whois", r.choice(NICKS)), self.c("p", "pw1"), self.c("p", "pw3"), self.c("p", "p\xe9"), self.c("write", r.choice(NICKS) + " x")]))

    def x_slow(self):
        """Somebody does not read; much is sent to them."""
        r, rec = self.rng, self.rec
        g, us = self.pair(r.choice([1, 1, 2]))
        v = self.user(group=g, rcvbuf=r.choice([8192, 8192, 20000]))
        t = r.choice(us)
        if v not in rec.live:
            return
        nv = self.nk(v)
        rec.pause(v)
        n = r.choice([0, 3, 12, 60, 150, 300, 400])
        body = lambda k: r.choice(["bm%d " % k, self.c("m", "%s m%d " % (nv, k))])
        k = 0
        while k < n and t in rec.live:
            b = ""
            for _ in range(r.choice([1, 5, 10, 20])):
                k += 1
                p = body(k)
                p += "x" * r.choice([0, 10, 240 - len(p), 246 - len(p)])
                b += chr(len(p) + 1) + p + "\0"
            rec.bytes(t, b)
            if r.random() < 0.1:
                self.single()
        if r.random() < 0.2:
            rec.rest()
        x = r.random()
        if x < 0.15:
            self.say(us[0], self.c("boot", nv))
        elif x < 0.25:
            rec.rst(v)
        elif x < 0.4:
            self.wait(r.choice([1, 61, 3601]))
        for _ in range(r.randrange(0, 6)):
            self.single()
        if r.random() < 0.7 and v in rec.srv.clients and rec.srv.clients[v].paused:
            rec.resume(v)
            self.inn.add(v)
            self.prune()
            self.say(v, self.c("w", "."))
            if v in rec.live:
                rec.rst(v)
        self.prune()

    def x_choke(self):
        """The network takes only so much of what somebody is sent."""
        r, rec = self.rng, self.rec
        g, us = self.pair(r.choice([2, 2, 3]))
        v = r.choice(us)
        t = r.choice([u for u in us if u != v] or us)
        ch = [u for u in rec.live if rec.srv.clients[u].choked]
        if v in rec.live and v not in ch and not rec.srv.clients[v].paused:
            rec.choke(v, 0 if rec.srv.clients[v].tls else r.choice([0, 0, 1, 2, 3, 7, 20, 60, 255, 600, 3000]))
        for _ in range(r.randrange(1, 5)):
            x = r.random()
            if x < 0.5 and t in rec.live:
                b = ""
                for i in range(r.choice([1, 2, 3, 9, 10, 11, 12, 15])):
                    p = r.choice(["bn%d" % i, self.c("m", "%s n%d" % (self.nk(v), i))]) + "x" * r.choice([0, 1, 100, 230])
                    b += chr(len(p) + 1) + p + "\0"
                rec.bytes(t, b)
            elif x < 0.7:
                self.slowed_says(v)
            elif x < 0.8:
                self.single()
            elif x < 0.97 and v in rec.live and rec.srv.clients[v].choked and not rec.srv.clients[v].tls:
                rec.more(v, r.choice([256, 300, 511, 1000, 2600]))
            elif t in rec.live and x > 0.985:
                self.say(t, self.c("boot", self.nk(v)))
            self.prune()
        for u in [u for u in rec.live if rec.srv.clients[u].choked]:
            if r.random() < 0.6:
                rec.unchoke(u)
        self.prune()

    def x_trickle(self):
        """What somebody is sent gets through a few bytes at a time."""
        r, rec = self.rng, self.rec
        g, us = self.pair(2)
        if len(us) < 2 or any(u not in rec.live or rec.srv.clients[u].choked or rec.srv.clients[u].paused or rec.srv.clients[u].tls for u in us):
            return
        t, v = us if r.random() < 0.5 else us[::-1]
        rec.choke(v, r.choice([0, 0, 1, 2, 5, 9, 30]))
        for _ in range(r.randrange(2, 8)):      # not so often that the server gives up
            if r.random() < 0.4 and t in rec.live:
                rec.pkt(t, r.choice(["bn%d" % r.randrange(9), self.c("m", "%s n%d" % (self.nk(v), r.randrange(9)))]) + "x" * r.choice([0, 1, 20, 60, 200]))
            elif v in rec.live:
                rec.more(v, r.choice([1, 1, 2, 3, 5, 8, 13, 21, 50, 100]))
            self.prune()
        if v in rec.live:
            rec.unchoke(v)
        self.prune()

    def slowed_says(self, v):
        if v in self.rec.live:
            self.step_pkt(v, self.rng.choice(["bslow", self.c("w"), self.c("m", self.nk(v) + " self"), self.c("motd"), self.c("g", "elsewhere"), self.c("whereis"), "l"]))

    def x_stall(self):
        """Connections to the TLS port that never get as far as the protocol."""
        r, rec = self.rng, self.rec
        if not rec.tls:
            return
        hello = "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03"
        true = client_hello()
        wrong = bytearray(true)
        wrong[r.randrange(len(wrong))] ^= 1 << r.randrange(8)
        rec.stall(r.choice([true.decode("latin-1"), true[:r.randrange(len(true))].decode("latin-1"), wrong.decode("latin-1"), wrong.decode("latin-1"), (true + b"\x14\x03\x03\0\1\1\x17\x03\3\0\x20" + b"x" * 32).decode("latin-1"), "", "", hello[:r.randrange(1, 11)], hello + "x" * r.choice([10, 506]), "GET / HTTP/1.0\r\n\r\n", "\x0cau1\x01alice\x01g\x01login\0", "\0", "\x16\x03\x01\x00\x05hello", "\x80\x2e\x01\x00\x02"]), self.src())
        for _ in range(r.randrange(0, 5)):
            self.single()
        if r.random() < 0.3:
            rec.rest()
        while len(rec.stalled) > 3 or (rec.stalled and r.random() < 0.5):
            i = r.randrange(len(rec.stalled))
            if r.random() < 0.3:
                rec.unstall(i, r.choice(["x", "\0" * 40, hello]))
            rec.unstall(i)

    def x_rename(self):
        r = self.rng
        g, us = self.pair(2)
        a = us[0]
        o, vs = self.pair(1)
        for _ in range(r.randrange(1, 5)):
            self.say(a, self.c("status", "name " + r.choice([o, o.upper(), g, g.upper(), "1", "new", "longernamehere", "~idle~", "~RESEDA~", "icb", "x y", "new2"])))
            self.say(r.choice(us), r.choice(["bhi", self.c("w", "."), self.c("status"), self.c("g", g)]))

    def fill(self):
        """The server is filled up; some of those who fill it log in, some leave again."""
        r, rec = self.rng, self.rec
        here = []
        while True:
            n = rec.connect(tls=rec.tls and r.random() < 0.1)
            if n is None:
                break
            here.append(n)
            rec.live.remove(n)              # they sit there and say nothing more
        if len(here) < 200:
            raise Hang("only %d clients are let in" % len(here))
        q = self.p["crowd"]
        for k, n in enumerate(r.sample(here, q["in"])):
            rec.pkt(n, "a" + SOH.join(["u%d" % (k % 7), "x%d" % k, r.choice(["1", "g", "q%d" % (k % 5), ".s", "..t"]), "login"]))
            if r.random() < 0.1:
                rec.tick(r.choice([1, 60]))
        out = r.sample(here, q["out"])
        for n in sorted(out + r.sample([max(here), min(here)], r.randrange(3))):
            if n in rec.srv.clients and not rec.srv.clients[n].eof:
                rec.rst(n)

    def single(self):
        """One random action of a random live client."""
        r, rec = self.rng, self.rec
        s = r.choice(rec.live) if rec.live else None
        if s is None:
            return
        acts = self.p["acts"]
        k = r.choices(list(acts), list(acts.values()))[0]
        self.step_pkt(s, getattr(self, "a_" + k)())

    def one(self):
        r, rec = self.rng, self.rec
        nmax = self.p.get("clients", 4)
        if len(rec.live) == 0 or (len(rec.live) < nmax and r.random() < self.p.get("grow", 0.25)):
            s = rec.connect(tls=rec.tls and r.random() < 0.5, src=self.src())
            if s is not None and r.random() < 0.93:
                self.login(s)
            self.prune()
            return
        out = [s for s in rec.live if s not in self.inn]
        if out and r.random() < 0.5:
            s = r.choice(out)
            if r.random() < 0.75:
                self.login(s)
            else:
                self.step_pkt(s, self.a_bogus())
            return
        x = r.random()
        if r.random() < 0.5 and len(rec.live) > nmax + 2:      # macros connect beyond the limit
            self.leave(r.choice(rec.live))
            return
        if x < self.p.get("tick", 0.1):
            rec.tick(r.choice(self.p.get("ticks", [1, 2, 5, 11, 61, 301, 3601])), self.p.get("maydie", False))
            self.prune()
        elif x < self.p.get("tick", 0.1) + self.p.get("leave", 0.03):
            s = r.choice(rec.live)
            k = r.random()
            if k < 0.5:
                rec.fin(s)
            elif k < 0.9:
                rec.rst(s)
            else:
                rec.bytes(s, r.choice(["\0", "\xff" + "b" * 20, "\0\0\0", "\x05ab"]))
            self.prune()
        elif self.p.get("macros") and r.random() < self.p.get("macro", 0.3):
            ms = self.p["macros"]
            k = r.choices(list(ms), list(ms.values()))[0]
            getattr(self, "x_" + k)()
        else:
            self.single()


ALL = ["open", "m", "group", "who", "whereis", "name", "topic", "pass", "boot", "invite", "cancel", "talk", "exclude", "hush",
       "notify", "status", "away", "noaway", "echo", "nobeep", "beep", "ping", "pong", "p", "cp", "delete", "secure", "info",
       "whois", "write", "read", "srvmisc", "motd", "help", "news", "v", "stats", "shuttime", "log", "wall", "drop", "bogus",
       "relogin", "brick"]


def mixed(base=1, **up):
    d = {a: base for a in ALL}
    d.update(up)
    return {k: v for k, v in d.items() if v}


MACROS = {k: 1 for k in ["open", "spam", "private", "restrict", "size", "modleave", "idle", "control", "hush", "notify", "reg", "mail",
                         "slot", "mod", "secret", "admin", "name", "badlogin", "beep", "frames", "rename"]}
MACROS.update({"relist": 0.3, "fillinv": 0.15, "filltalk": 0.15, "filllist": 0.3})

PROFILES = {
    "all": {"clients": 5, "acts": mixed(2, open=6, m=5, group=8, status=8, invite=3, motd=1, help=1, v=1), "macros": MACROS, "macro": 0.4},
    "die": {"clients": 4, "acts": mixed(1), "macros": {"shutdown": 3, "admin": 1, "open": 1}, "macro": 0.6, "maydie": True, "tick": 0.15},
    "mixed": {"clients": 5, "acts": mixed(2, open=6, m=5, group=8, status=8, invite=3, motd=1, help=1, v=1)},
}


def run(exe, scratch, seed, profile, steps, files=None, tls=False):
    """Returns (trace, failure): failure is None or what happened to the server."""
    rng = random.Random(seed)
    prof = PROFILES[profile] if isinstance(profile, str) else profile
    place = random.Random(seed * 7 + 3)
    dual = place.random() < prof.get("dual", 0.08) and has_ipv6()
    rec = Recorder(exe, scratch, files=files, tls=tls, t0=prof.get("t0", rng.randrange(0, 80000)), dual=dual)
    fail = None
    if "crowd" not in prof and place.random() < 0.5:     # slots in any order, the last ones too
        rec.slots = lambda: place.choice([253, 253, 252, 251, place.randrange(10, 254), place.randrange(10, 20)])
    try:
        g = Gen(rng, rec, prof)
        try:
            stumbles = 0
            if "crowd" in prof:
                g.fill()
            while len(rec.steps) < steps and stumbles < 100:
                try:
                    g.one()
                except (IndexError, KeyError, AttributeError, TypeError, ValueError):
                    stumbles += 1       # a macro lost the users it was about
                    g.prune()
        except StopIteration:
            pass
        except (ServerDied, Hang) as e:
            fail = "%s: %s" % (type(e).__name__, e)
        return rec.trace(), fail
    finally:
        rec.close()
