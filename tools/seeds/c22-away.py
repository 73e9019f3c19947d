ID = "c22-away-other"
PROPERTY = "C22"
NEEDS = "two different senders to an away user within ten seconds"
BREAKS = "the second sender gets no away message"
EDITS = [("server/s_person.c", "        if ((u_tab[dest].lastaway != src) || \n", "        if ((u_tab[dest].lastaway == 0) || \n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice", "x"); b = s.login("u2", "bob", "x"); c = s.login("u3", "carol", "x")
    a.cmd("away", "lunch %s")
    b.cmd("m", "alice hi"); r = c.cmd("m", "alice hi")
    check(any("lunch" in p for p in r), "carol is not told that alice is away")
'''
