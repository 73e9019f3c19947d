ID = "c35-refused"
PROPERTY = "C35"
NEEDS = "a client that asks who is on (or is turned away) without ever logging in, leaving again"
BREAKS = "the log does not tell that somebody who never logged in has left"
EDITS = [("server/ipcf.c", "        sprintf(mbuf,\"[LOST] %d: not logged in\", n);\n        mdb(MSG_INFO, mbuf);\n", "        if (u_tab[n].loginid[0] != '\\0') {\n            sprintf(mbuf,\"[LOST] %d: not logged in\", n);\n            mdb(MSG_INFO, mbuf);\n        }\n")]
DEMO = r'''
with Icb() as s:
    log = os.path.join(s.dir, "icbd.log")
    adm = s.login("u1", "admin", "g", ADMIN)
    adm.cmd("log", "3")
    c = s.connect()
    n = open(log).read().count("[LOST]")
    c.quit()
    got = open(log).read()
    check(got.count("[LOST]") == n + 1, "a connection ended, but the log says: %r" % got[-300:])
'''
