ID = "c13-prefix-password"
PROPERTY = "C13"
NEEDS = "changing a password giving an old password that the stored one merely begins with"
BREAKS = "a password can be changed by somebody who knows only its beginning"
EDITS = [("server/access.c", "        if (strcmp(value, oldpw)) {", "        if (strncmp(value, oldpw, strlen(oldpw))) {")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice")
    a.cmd("p", "secret")
    r = a.cmd("cp", "sec hijack")
    b = s.login("u2", "bob"); 
    a.quit()
    c = s.login("u9", "alice", "g", "hijack")
    check(not any("Nick registered" in p for p in c.first), "the password was changed with a wrong old one: %r" % c.first)
'''
