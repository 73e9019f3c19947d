ID = "c35-rotate"
PROPERTY = "C35"
NEEDS = "the log being moved away and the server told so (SIGHUP), and then something to log"
BREAKS = "nothing is logged any more after the log has been rotated"
EDITS = [("server/icbutil.c", "    /* used to have non-portable O_FSYNC */\n", "    /* already open? (the level may be raised more than once) */\n    if (icbd_log > 0)\n        return;\n\n    /* used to have non-portable O_FSYNC */\n"),
         ("server/icbutil.c", "    close(icbd_log);\n    icbd_log = -1;\n", "    close(icbd_log);\n")]
DEMO = r'''
with Icb() as s:
    log = os.path.join(s.dir, "icbd.log")
    adm = s.login("u1", "admin", "g", ADMIN)
    adm.cmd("log", "3")
    check("Log level changed" in open(log).read(), "the log is not written at all")
    os.rename(log, log + ".1")
    s.proc.send_signal(signal.SIGHUP)
    s.sync()
    s.login("u2", "bob")
    got = open(log).read() if os.path.exists(log) else ""
    check("u2@" in got, "bob's login is not in the new log: %r" % got)
'''
