ID = "c25-longword"
PROPERTY = "C25"
NEEDS = "a registered user whose text contains a word of more than 40 characters where the line has to be broken, and a whois"
BREAKS = "the look-up loses a character of the text at the break"
EDITS = [("server/access.c", "                            p--;\n                            s = p;\n", "                            s = p;\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice"); b = s.login("u2", "bob")
    a.cmd("m", "server p secret")
    t = "".join("%02d" % i for i in range(60))
    a.cmd("m", "server text " + t); b.take()
    r = [p.split("\x01")[-1] for p in b.cmd("whois", "alice")]
    if not any(x.startswith("Text: ") for x in r):
        r = [p.split("\x01")[-1] for p in b.cmd("m", "server whois alice")]
    got = [x[6:] for x in r if x.startswith("Text: ")]
    check(got, "no text: %r" % r)
    whole = "".join([x[:-1] if x.endswith("-") else x for x in got])
    check(whole == t, "text shown is %r" % got)
'''
