ID = "c27-class"
PROPERTY = "C27"
NEEDS = "a pattern with * followed by [...], and an address where the class first matches after the place the * tries first"
BREAKS = "the address is not matched although the pattern denotes it, so a hushed site is heard"
EDITS = [("server/wildmat.c", "                if (*p == '\\0' || matched == reverse)\n                    return FALSE;\n", "                if (*p == '\\0' || matched == reverse)\n                    return ABORT;\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("ab7x", "alice"); b = s.login("u2", "bob"); c = s.login("7x", "carol")
    b.cmd("hush", "-s -p *[0-9]X@*"); b.take()
    c.cmd("m", "bob one")
    check(not any(p.startswith("c") for p in b.take()), "heard carol")
    a.cmd("m", "bob two")
    r = b.take()
    check(not any(p.startswith("c") for p in r), "heard alice from a hushed site: %r" % r)
'''
