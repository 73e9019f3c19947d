ID = "c09-unregistered"
PROPERTY = "C09"
NEEDS = "an invisible group with a registered-only invitation of the address of an unregistered outsider who lists all groups"
BREAKS = "the outsider, who is not invited as long as he is unregistered, sees the group listed"
EDITS = [("server/s_who.c", "                      ((nlmatch(one, *g_tab[group].sr_invites)) &&\n                       (strlen(u_tab[n].realname) > 0)) ||\n", "                      (nlmatch(one, *g_tab[group].sr_invites)) ||\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice", "hid"); c = s.login("u3", "carol", "hid"); b = s.login("u2", "bob", "x")
    a.cmd("status", "r i"); a.cmd("invite", "-r -s u2@*"); b.take()
    r = b.cmd("w", "")
    check(any("Group: x" in p for p in r), "no listing: %r" % r)
    check(not any("alice" in p or "carol" in p or "hid" in p for p in r), "bob sees the hidden group: %r" % r)
'''
