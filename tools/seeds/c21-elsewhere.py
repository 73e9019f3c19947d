ID = "c21-elsewhere"
PROPERTY = "C21"
NEEDS = "a user who moderates a group he is not in going idle in another one beyond its limit"
BREAKS = "only the moderatorship of the group he idles in is passed on; the other keeps an idle-booted moderator"
EDITS = [("server/ipcf.c", "                        if ( g_tab[j].mod == i ) {\n                            int newmod, k;\n", "                        if ( g_tab[j].mod == i && (j == gi || g_tab[j].control == PUBLIC) ) {\n                            int newmod, k;\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice", "x"); b = s.login("u2", "bob", "x"); c = s.login("u3", "carol", "y")
    a.cmd("status", "im 0"); a.cmd("g", "y")
    c.cmd("status", "b 60m"); c.cmd("status", "b 60")
    for i in range(200):
        s.tick(60); b.send("bhi"); c.send("bhi")
        if any("Idle-Boot" in p for p in a.take()):
            break
    else:
        check(False, "alice never idle-booted")
    b.take()
    r = b.cmd("status", "")
    check(not any("Mod: alice" in p for p in r), "idle alice still moderates: %r" % r)
'''
