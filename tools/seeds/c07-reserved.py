ID = "c07-reserved"
PROPERTY = "C07"
NEEDS = "a registered moderator of a moderated group signing off, and another member changing the group within the 300 seconds"
BREAKS = "members can change the mode of a group whose moderator's place is being kept"
EDITS = [("server/s_group.c", "            has_mod = (g_tab[gi].mod != -1 || g_tab[gi].modtimeout > 0.0);\n", "            has_mod = (g_tab[gi].mod != -1);\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice", "x"); b = s.login("u2", "bob", "x")
    a.cmd("m", "server p secret"); a.quit(); b.take()
    b.cmd("status", "i")
    r = b.cmd("status", "")
    check(any("Mod: alice" in p for p in r), "no reservation: %r" % r)
    check(any("Visible" in p for p in r), "bob changed the group: %r" % r)
'''
