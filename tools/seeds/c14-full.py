ID = "c14-overfull"
PROPERTY = "C14"
NEEDS = "a mailbox of 20 messages, one more write, then deleting the registration and reading"
BREAKS = "a 21st message is accepted"
EDITS = [("server/access.c", "    count++;\n    if (count > MAX_WRITES) {\n", "    if (count++ > MAX_WRITES) {\n")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice", "x"); a.cmd("p", "pw")
    for i in range(20):
        a.cmd("m", "server write alice m%d" % i)
    r = a.cmd("m", "server write alice one too many")
    check(any("mailbox full" in p for p in r), "message 21 accepted: %r" % r)
'''
