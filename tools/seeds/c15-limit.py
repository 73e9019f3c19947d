ID = "c15-limit"
PROPERTY = "C15"
NEEDS = "a value of exactly 1048576 bytes, which the database accepts, and reopening the file"
BREAKS = "the file can not be loaded again: everything in it is lost to its users"
EDITS = [("server/icb_dbm.c", "        if (klen > ICB_DBM_MAX_RECSIZE || vlen > ICB_DBM_MAX_RECSIZE) {\n            close(fd); errno = EINVAL; return -1;\n", "        if (klen >= ICB_DBM_MAX_RECSIZE || vlen >= ICB_DBM_MAX_RECSIZE) {\n            close(fd); errno = EINVAL; return -1;\n")]
DEMO = r'''
MAIN = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "dbm.h"
static datum D(const char *p, int n) { datum d; d.dptr = (char *)p; d.dsize = n; return d; }
int main(int argc, char **argv)
{
    int sizes[] = { 1, 255, 65536, 1048575, 1048576, 1048577 }, i, n, bad = 0;
    char *v = malloc(1048577);
    memset(v, 'x', 1048577);
    for (i = 0; i < 6; i++) {
        char f[200];
        snprintf(f, sizeof f, "%s/db%d", argv[1], i);
        DBM *d = dbm_open(f, 0, 0600);
        if (!d || dbm_store(d, D("a", 1), D("1", 1), DBM_REPLACE) != 0) return 2;
        n = dbm_store(d, D("b", 1), D(v, sizes[i]), DBM_REPLACE) == 0;
        dbm_close(d);
        d = dbm_open(f, 0, 0600);
        if (!d || dbm_fetch(d, D("a", 1)).dsize != 1 || (n && dbm_fetch(d, D("b", 1)).dsize != sizes[i])) {
            printf("lost with a value of %d bytes\n", sizes[i]);
            bad = 1;
        }
        if (d) dbm_close(d);
    }
    return bad;
}
"""
t = tempfile.mkdtemp(prefix="icbdemo.")
try:
    open(t + "/m.c", "w").write(MAIN)
    subprocess.run(["gcc", "-w", "-I", REPO, "-I", REPO + "/server", t + "/m.c", REPO + "/server/icb_dbm.c", "-o", t + "/m"], check=True)
    r = subprocess.run([t + "/m", t], stdout=subprocess.PIPE, text=True)
    check(r.returncode == 0, r.stdout)
finally:
    shutil.rmtree(t, ignore_errors=True)
'''
