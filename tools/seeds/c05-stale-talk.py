ID = "c05-stale-talk"
PROPERTY = "C05"
NEEDS = "a controlled group that granted a registered-only talk permission, everybody leaving it, and a new controlled group in the same table place"
BREAKS = "registered-only talk permissions outlive the group and hold in a later, unrelated one"
EDITS = [("server/groups.c", "    nlclear(g_tab[n].nr_talk);\n", "")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice", "x"); b = s.login("u2", "bob", "h")
    b.cmd("p", "pw"); a.cmd("status", "c"); a.cmd("talk", "-a -r bob")
    a.cmd("g", "h"); a.cmd("g", "y"); a.cmd("status", "c")
    b.cmd("g", "y"); a.take()
    b.send("bhello")
    check(not any(p.startswith("b") for p in a.take()), "bob talks in a controlled group that never gave him permission")
'''
