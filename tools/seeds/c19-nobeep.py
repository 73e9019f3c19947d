ID = "c19-ping"
PROPERTY = "C19"
NEEDS = "a user pings another and leaves; a newcomer takes the place; the pinged client then answers"
BREAKS = "the newcomer gets the answer to a ping of whoever had its place before"
EDITS = [("server/users.c", "        if ( pong_req[i] == n )\n        {\n            pong_req[i] = -1;\n            timerclear (&ping_time[n]);\n        }\n", "        if ( pong_req[i] == n )\n        {\n            timerclear (&ping_time[n]);\n        }\n")]
DEMO = r'''
with Icb() as s:
    b = s.login("u2", "bob", "x"); a = s.login("u1", "alice", "x")
    a.cmd("ping", "bob"); b.take(); a.quit()
    c = s.login("u3", "carol", "y"); c.take()
    b.send("m"); r = c.take()
    check(not any("Ping" in p or "bob" in p for p in r), "carol gets an answer to alice's ping: %r" % r)
'''
