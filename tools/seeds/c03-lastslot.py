ID = "c03-lastslot"
PROPERTY = "C03"
NEEDS = "a server so full that the recipient has the very last place"
BREAKS = "who has the last place hears nothing that is said in the group"
EDITS = [("server/s_group.c", """    for (i=0; i<MAX_REAL_USERS; i++) {
        if ((i != n) || u_tab[n].echoback)""", """    for (i=0; i<MAX_REAL_USERS-1; i++) {
        if ((i != n) || u_tab[n].echoback)""")]
DEMO = r'''
with Icb() as s:
    bob = s.login("u2", "bob", "g")
    full = []
    while len(full) < 400:
        c = s.connect()
        s.sync()
        got = c.take()
        if c.closed or not got:
            break
        full.append(c)
    last = full[-1]
    last.send("au1\x01alice\x01g\x01login\x01")
    check(any("w" == p[:1] or "alice" in p for p in bob.take()), "alice is not there")
    bob.send("bhello there")
    check(any(p == "bbob\x01hello there" for p in last.take()), "alice, in the last place, does not hear bob")
'''
