ID = "c26-delete-pattern"
PROPERTY = "C26"
NEEDS = "a list holding a name and, added later, a pattern that matches it; then removing the name"
BREAKS = "removing a name removes the pattern entry instead"
EDITS = [("server/namelist.c", "    namep = strgetnode(name, nl->head, 1, 0);\n", "    namep = strgetnode(name, nl->head, 1, 1);\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice", "x")
    a.cmd("hush", "bob"); a.cmd("hush", "b*"); a.cmd("hush", "bob")
    r = a.cmd("hush", "")
    check(any(p.endswith("\x01B*") for p in r) and not any(p.endswith("\x01BOB") for p in r), "wrong entry removed: %r" % r)
'''
