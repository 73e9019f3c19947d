ID = "c28-reject"
PROPERTY = "C28"
NEEDS = "a text with the beginning of a UTF-8 sequence followed directly by an ordinary character"
BREAKS = "the ordinary character is lost together with the broken sequence"
EDITS = [("server/strutil.c", "                if (prevState != UTF8_ACCEPT) {\n                    s--;\n                }\n", "                if (prevState > 2 * UTF8_REJECT) {\n                    s--;\n                }\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice"); b = s.login("u2", "bob"); b.take()
    for t, w in (("x\xc3y", "x?y"), ("x\xe2\x82y", "x?y"), ("x\xf0\x9f\x98y", "x?y")):
        a.send("b" + t)
        r = [p for p in b.take() if p[:1] == "b"]
        check(len(r) == 1 and r[0].endswith("y") and r[0].startswith("balice\x01x"), "%r became %r" % (t, r))
'''
