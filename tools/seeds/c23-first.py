ID = "c23-first"
PROPERTY = "C23"
NEEDS = "a permissions file in which an entry without restriction for a user stands before a refusing one that applies to everybody"
BREAKS = "the exception is passed over and the user is refused"
EDITS = [("server/msgs.c", "                 !strcasecmp (arg2, u_tab[n].nodeid) )\n            {\n                perm = perm2val (perms);\n                break;\n", "                 !strcasecmp (arg2, u_tab[n].nodeid) )\n            {\n                perm = perm2val (perms);\n                if (perm != PERM_NULL)\n                    break;\n")]
DEMO = r'''
def host():
    return socket.getfqdn("127.0.0.1")
for h in ("localhost", "127.0.0.1"):
    with Icb(files={"icbd.perms": "user u1 %s perm_null\nmask 127.0.0.0 255.0.0.0 perm_deny\n" % h}) as s:
        b = s.login("u2", "bob")
        a = s.login("u1", "alice")
        if not any(p.startswith("a") for p in b.first):
            check(not any("bob" in p for p in a.cmd("w", "")), "bob was let in")
        got = any("Welcome to ICB alice" in p for p in a.first)
        if got:
            break
else:
    check(False, "alice, for whom an exception is made, is refused: %r" % a.first)
'''
