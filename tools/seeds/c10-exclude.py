ID = "c10-renamed-talk"
PROPERTY = "C10"
NEEDS = "a registered-only talk permission, its holder renaming away, losing recognition, and a talk attempt without registration"
BREAKS = "registered-only talk permission counts without registration once a password was given at login"
EDITS = [("server/msgs.c", "                           && (strlen (u_tab[n].realname) == 0\n", "                           && (strlen (u_tab[n].password) == 0\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice", "x"); a.cmd("status", "c"); a.cmd("talk", "-a -r bob")
    b = s.login("u2", "bob", "x", "whatever"); a.take()
    r = b.send("bhello")
    check(not any(p.startswith("b") for p in a.take()), "unregistered bob talks: %r" % r)
'''
