ID = "c30-reschedule"
PROPERTY = "C30"
NEEDS = "a shutdown rescheduled after the notices of the first schedule were sent"
BREAKS = "a rescheduled shutdown is not announced again five minutes and one minute ahead"
EDITS = [("server/s_admin.c", """        TimeToDie = time(NULL) + 60.0 * atol(fields[1]);
        ShutdownNotify = 0;
""", """        if (TimeToDie <= 0.0)
            ShutdownNotify = 0;
        TimeToDie = time(NULL) + 60.0 * atol(fields[1]);
""")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "admin", "g", ADMIN); b = s.login("u2", "bob")
    a.cmd("shutdown", "2"); s.tick(61); b.take()
    a.cmd("shutdown", "2"); b.take()
    s.tick(61)
    check(any("1 minute" in p for p in b.take()), "no notice one minute before the rescheduled shutdown")
'''
