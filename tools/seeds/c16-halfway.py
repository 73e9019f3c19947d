ID = "c16-halfway"
PROPERTY = "C16"
NEEDS = "the process ending between two of the writes with which a new nickname is registered"
BREAKS = "after a restart the nickname has a password but is not registered properly: a registration carried out halfway"
EDITS = [("server/access.c", "    icbdb_open ();\n\n    nick = u_tab[forWhom].nickname;\n\n    if (!icbdb_get (nick, \"password\", ICBDB_STRING, &value))\n", "    nick = u_tab[forWhom].nickname;\n\n    if (!icbdb_get (nick, \"password\", ICBDB_STRING, &value))\n")]
DEMO = r'''
SHIM = """
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int rename(const char *a, const char *b)
{
    static int (*real)(const char *, const char *);
    static int n;
    int r;
    char *e = getenv("ICB_DIE");
    if (!real) real = (int (*)(const char *, const char *))dlsym(RTLD_NEXT, "rename");
    r = real(a, b);
    if (e && access("armed", F_OK) == 0 && ++n == atoi(e)) _exit(9);
    return r;
}
"""
class Dying(Icb):
    def start(self):
        c, so = os.path.join(self.dir, "shim.c"), os.path.join(self.dir, "shim.so")
        open(c, "w").write(SHIM)
        subprocess.run(["gcc", "-shared", "-fPIC", "-w", c, "-o", so, "-ldl"], check=True)
        self.so = self.so.split()[0] + " " + so
        Icb.start(self)

for k in range(1, 6):
    os.environ["ICB_DIE"] = str(k)
    with Dying() as s:
        a = s.login("u1", "alice"); a.take()
        open(os.path.join(s.dir, "armed"), "w").close()
        try:
            a.cmd("m", "server p secret")
        except (SystemExit, OSError):
            pass
        os.unlink(os.path.join(s.dir, "armed"))
        del os.environ["ICB_DIE"]
        s.restart()
        b = s.login("u2", "bob"); c = s.login("u9", "alice")
        r = b.cmd("m", "server whois alice") or b.take()
        known = any("Nickname:" in p for p in r)
        c.take()
        ok = any("Authorization failure" in p for p in c.cmd("m", "server p wrong"))
        check(known == ok, "killed at write %d: in the database %s, password demanded %s" % (k, known, ok))
'''
