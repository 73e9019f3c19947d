ID = "c08-ghost-mod"
PROPERTY = "C08"
NEEDS = "a registered moderator signing off, the 300 second reservation running out, and that nickname being taken by rename from its registered address afterwards"
BREAKS = "moderatorship is taken away from its new holder after the reservation has expired"
EDITS = [("server/ipcf.c", "                    memset(g_tab[i].missingmod, 0, MAX_NICKLEN);\n", ""),
 ("server/s_user.c", "                if ((g_tab[i].modtimeout > 0.0) &&\n                    (strcmp(g_tab[i].missingmod, u_tab[n].nickname)==0)){\n", "                if (strcmp(g_tab[i].missingmod, u_tab[n].nickname)==0) {\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice", "x"); b = s.login("u2", "bob", "x")
    a.cmd("p", "pw"); a.quit()
    s.tick(301); s.tick(1)
    c = s.login("u1", "carol", "x"); c.cmd("name", "alice")
    b.take()
    r = b.cmd("status", "")
    check(any("Mod: bob" in p for p in r), "bob is moderator no longer: %r" % r)
'''
