ID = "c01-filter-late"
PROPERTY = "C01"
NEEDS = "a rename to a name that equals a connected user's only after unprintable characters have been replaced"
BREAKS = "two connected users get the same nickname"
EDITS = [("server/s_user.c", "        filternickname(new_name);\n\n        /* make sure the nickname hasn't already been taken */\n", "        /* make sure the nickname hasn't already been taken */\n"),
 ("server/s_user.c", "        /* make sure they are allowed to use this nickname */\n", "        filternickname(new_name);\n\n        /* make sure they are allowed to use this nickname */\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "al_ice", "x"); b = s.login("u2", "bob", "x")
    b.cmd("name", "al ice");
    a.take(); b.take()
    c = s.login("u3", "carol", "y")
    w = [p for p in c.cmd("w", "") if p.startswith("iwl") and "al_ice" in p]
    check(len(w) <= 1, "two users are called al_ice: %r" % w)
'''
