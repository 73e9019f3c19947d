ID = "c11-limit"
PROPERTY = "C11"
NEEDS = "32 hushed addresses in the list for open messages, fewer in the list for private ones, and one more added to the former"
BREAKS = "the addition is not refused and drops the oldest address, whose owner is heard again"
EDITS = [("server/s_user.c", "                if (nlcount(*u_tab[n].pub_s_hushed) == MAX_HUSHED) {\n", "                if (nlcount(*u_tab[n].pri_s_hushed) == MAX_HUSHED) {\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice"); b = s.login("u2", "bob")
    b.cmd("hush", "-o -s u1@*")
    for i in range(31):
        b.cmd("hush", "-o -s x%d@*" % i)
    r = b.cmd("hush", "-o -s y@*")
    a.send("bhello")
    r = b.take()
    check(not any(p.startswith("balice") for p in r), "bob hears alice, whom he hushed: %r" % r)
'''
