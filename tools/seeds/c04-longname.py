ID = "c04-longname"
PROPERTY = "C04"
NEEDS = "a private message to a name longer than 12 characters that begins with the 12 characters of a connected user's nickname"
BREAKS = "the message goes to that user although it does not name that user, and the sender is not told"
EDITS = [("server/users.c", "        if ( strcasecmp(u_tab[i].nickname, name) == 0) {\n            result = i;\n", "        if ( strncasecmp(u_tab[i].nickname, name, MAX_NICKLEN) == 0) {\n            result = i;\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice"); b = s.login("u2", "abcdefghijkl"); b.take(); a.take()
    a.cmd("m", "ABCdefghijkl one")
    check(any("one" in p for p in b.take()), "the message is not delivered")
    r = a.cmd("m", "abcdefghijklm two")
    g = b.take()
    check(not any("two" in p for p in g), "a message to abcdefghijklm went to abcdefghijkl")
    check(any(p.startswith("e") for p in r), "alice is told nothing: %r" % r)
'''
