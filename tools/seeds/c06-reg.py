ID = "c06-regonly"
PROPERTY = "C06"
NEEDS = "a restricted group with a registered-only nickname invitation and an unregistered user of that nickname joining"
BREAKS = "registered-only invitations admit unregistered users"
EDITS = [("server/s_group.c", "                              (nlpresent(u_tab[n].nickname, *g_tab[ngi].nr_invites) &&\n                               (strlen(u_tab[n].realname) > 0)) ||\n                              (nlmatch(useraddr, *g_tab[ngi].sr_invites) &&\n                               (strlen(u_tab[n].realname) > 0)));\n\n",
 "                              ((nlpresent(u_tab[n].nickname, *g_tab[ngi].nr_invites) ||\n                                nlmatch(useraddr, *g_tab[ngi].sr_invites)) &&\n                               (strlen(u_tab[n].password) > 0)));\n\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice", "x"); a.cmd("status", "r"); a.cmd("invite", "-r bob")
    b = s.login("u2", "bob", "y", "wrong")
    r = b.cmd("g", "x")
    check(any("restricted" in p for p in r), "unregistered bob got in: %r" % r)
'''
