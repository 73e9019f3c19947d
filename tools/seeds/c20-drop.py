ID = "c20-own-password"
PROPERTY = "C20"
NEEDS = "a registered user dropping another registered user with the user's own password"
BREAKS = "any registered user can disconnect anybody by giving his own password"
EDITS = [("server/s_admin.c", "        else if (valuser(u_tab[TheVictim].nickname,\n", "        else if (valuser(u_tab[n].nickname,\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice", "x"); b = s.login("u2", "bob", "y")
    a.cmd("p", "pwa"); b.cmd("p", "pwb"); b.take()
    a.cmd("drop", "bob pwa"); s.tick(1)
    r = b.take()
    check(not b.closed and not any("disconnected by" in p for p in r), "bob disconnected with alice's password")
'''
