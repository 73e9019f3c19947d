ID = "c12-secret-off"
PROPERTY = "C12"
NEEDS = "a watched user signing off while in a secret (not invisible) group"
BREAKS = "the watcher is not told of the sign-off"
EDITS = [("server/ipcf.c", "                (g_tab[find_group(u_tab[n].group)].visibility != \n                 SUPERSECRET)) {\n                /* ignore warning", "                (g_tab[find_group(u_tab[n].group)].visibility == \n                 VISIBLE)) {\n                /* ignore warning")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice", "x"); a.cmd("notify", "bob")
    b = s.login("u2", "bob", ".y"); a.take(); b.quit()
    check(any("Notify-Off" in p for p in a.take()), "alice is not told that bob left")
'''
