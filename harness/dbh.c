/* Drives server/icb_dbm.c and server/icbdb.c.  One command per line on stdin, byte strings in
 * hex ("-" for empty); one answer per line on stdout, preceded by the file operations of the
 * command that succeeded ("ev ...").  "fault KIND N" makes the N-th file operation of the next
 * command fail, be short, or end the process. */
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "config.h"
#include "server.h"
#include "dbm.h"
#include "icbdb.h"
#include "namelist.h"

enum { NONE, FAIL, SHORT, DIE, FAILALL } kind;
static int at, count, active;

void mdb(int l, const char *m) { (void)l; (void)m; }
void vmdb(int l, const char *f, ...)
{
    char b[8192];
    va_list a;
    (void)l;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
}

int __real_open(const char *, int, ...);
ssize_t __real_write(int, const void *, size_t);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_close(int);
int __real_rename(const char *, const char *);
int __real_unlink(const char *);
int __real_ftruncate(int, off_t);

/* 0: go on, 1: fail, 2: short */
static int hit(void)
{
    if (!active) return 0;
    count++;
    if (kind == FAILALL && count >= at) { errno = ENOSPC; return 1; }
    if (count != at) return 0;
    switch (kind) {
    case FAIL: errno = EIO; return 1;
    case SHORT: return 2;
    case DIE: fflush(stdout); _exit(77);
    default: return 0;
    }
}

int __wrap_open(const char *p, int f, ...)
{
    int mode = 0, r;
    va_list a;
    va_start(a, f);
    if (f & O_CREAT) mode = va_arg(a, int);
    va_end(a);
    if (!(f & (O_WRONLY | O_RDWR))) return __real_open(p, f, mode);
    if (hit() == 1) return -1;
    r = __real_open(p, f, mode);
    if (active && r >= 0) printf("ev open %s %d %d\n", p, r, !!(f & O_TRUNC));
    return r;
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    ssize_t r;
    if (!active) return __real_write(fd, b, n);
    if (kind == DIE && count + 1 == at && n > 1) { ssize_t w = __real_write(fd, b, n / 2); if (w > 0) printf("ev write %d %ld\n", fd, (long)w); fflush(stdout); _exit(77); }
    switch (hit()) {
    case 1: if (n > 1 && at % 2) { r = __real_write(fd, b, n / 2); if (r > 0) printf("ev write %d %ld\n", fd, (long)r); } errno = ENOSPC; return -1;
    case 2: n = n > 1 ? n / 2 : n; break;
    }
    r = __real_write(fd, b, n);
    if (r > 0) printf("ev write %d %ld\n", fd, (long)r);
    return r;
}
int __wrap_fsync(int fd) { int r; if (hit() == 1) return -1; r = __real_fsync(fd); if (active && !r) printf("ev sync %d\n", fd); return r; }
int __wrap_fdatasync(int fd) { int r; if (hit() == 1) return -1; r = __real_fdatasync(fd); if (active && !r) printf("ev sync %d\n", fd); return r; }
int __wrap_close(int fd) { int h = hit(), r = __real_close(fd); if (active) printf("ev close %d\n", fd); return h == 1 ? -1 : r; }
int __wrap_rename(const char *a, const char *b) { int r; if (hit() == 1) return -1; r = __real_rename(a, b); if (active && !r) printf("ev rename %s %s\n", a, b); return r; }
int __wrap_unlink(const char *a) { int r; if (hit() == 1) return -1; r = __real_unlink(a); if (active && !r) printf("ev unlink %s\n", a); return r; }

static char *unhex(char *h, int *n)
{
    int i, l = strcmp(h, "-") ? strlen(h) / 2 : 0;
    char *r = malloc(l + 1);
    for (i = 0; i < l; i++) { char t[3] = { h[2 * i], h[2 * i + 1], 0 }; r[i] = strtol(t, 0, 16); }
    r[l] = 0;
    if (n) *n = l;
    return r;
}
static void hex(const char *p, int n) { if (!n) printf("-"); while (n--) printf("%02x", (unsigned char)*p++); }

int main(void)
{
    static char line[5000000];
    DBM *db = NULL;
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    while (fgets(line, sizeof line, stdin)) {
        char *w[6] = { 0 }, *p = strtok(line, " \n");
        int n = 0, a, b;
        while (p && n < 6) { w[n++] = p; p = strtok(NULL, " \n"); }
        if (!n) continue;
        count = 0; active = 1;
        if (!strcmp(w[0], "fault")) {
            kind = !strcmp(w[1], "fail") ? FAIL : !strcmp(w[1], "short") ? SHORT : !strcmp(w[1], "die") ? DIE : !strcmp(w[1], "failall") ? FAILALL : NONE;
            at = atoi(w[2]);
            continue;
        }
        if (!strcmp(w[0], "open")) { db = dbm_open(w[1], O_RDWR | O_CREAT, 0600); active = 0; printf("ret %d\n", db ? 0 : -1); }
        else if (!strcmp(w[0], "close")) { dbm_close(db); db = NULL; active = 0; printf("ret 0\n"); }
        else if (!strcmp(w[0], "sync")) { a = dbm_sync(db); active = 0; printf("ret %d\n", a < 0 ? -1 : a); }
        else if (!strcmp(w[0], "store")) {
            datum k, v; k.dptr = unhex(w[1], &k.dsize); v.dptr = unhex(w[2], &v.dsize);
            a = dbm_store(db, k, v, atoi(w[3]) ? DBM_REPLACE : DBM_INSERT); active = 0; printf("ret %d\n", a); free(k.dptr); free(v.dptr);
        } else if (!strcmp(w[0], "fetch")) {
            datum k, v; k.dptr = unhex(w[1], &k.dsize); v = dbm_fetch(db, k); active = 0;
            if (!v.dptr) printf("none\n"); else { printf("val "); hex(v.dptr, v.dsize); printf("\n"); }
            free(k.dptr);
        } else if (!strcmp(w[0], "delete")) {
            datum k; k.dptr = unhex(w[1], &k.dsize); a = dbm_delete(db, k); active = 0; printf("ret %d\n", a < 0 ? -1 : a); free(k.dptr);
        } else if (!strcmp(w[0], "multi")) { icbdb_set_multiuser(atoi(w[1])); active = 0; printf("ret 0\n"); }
        else if (!strcmp(w[0], "iopen")) { a = icbdb_open(); active = 0; printf("ret %d\n", a); }
        else if (!strcmp(w[0], "iclose")) { icbdb_close(); active = 0; printf("ret 0\n"); }
        else if (!strcmp(w[0], "iget")) {
            char *c = unhex(w[1], 0), *t = unhex(w[2], 0), *v = NULL;
            a = icbdb_get(c, t, ICBDB_STRING, &v); active = 0;
            if (!a) printf("none\n"); else { printf("val "); hex(v, strlen(v)); printf("\n"); }
            free(c); free(t);
        } else if (!strcmp(w[0], "igeti")) {
            char *c = unhex(w[1], 0), *t = unhex(w[2], 0);
            a = icbdb_get(c, t, ICBDB_INT, &b); active = 0;
            if (!a) printf("none\n"); else printf("int %d\n", b);
            free(c); free(t);
        } else if (!strcmp(w[0], "iset")) {
            char *c = unhex(w[1], 0), *t = unhex(w[2], 0), *v = unhex(w[3], 0);
            icbdb_set(c, t, ICBDB_STRING, v); active = 0; printf("ret 0\n"); free(c); free(t); free(v);
        } else if (!strcmp(w[0], "iseti")) {
            char *c = unhex(w[1], 0), *t = unhex(w[2], 0);
            a = atoi(w[3]); icbdb_set(c, t, ICBDB_INT, &a); active = 0; printf("ret 0\n"); free(c); free(t);
        } else if (!strcmp(w[0], "idel")) {
            char *c = unhex(w[1], 0), *t = unhex(w[2], 0);
            icbdb_delete(c, t); active = 0; printf("ret 0\n"); free(c); free(t);
        } else if (!strcmp(w[0], "ladd") || !strcmp(w[0], "ldel")) {
            char *c = unhex(w[1], 0), *t = unhex(w[2], 0), *v = unhex(w[3], 0);
            a = w[0][1] == 'a' ? icbdb_list_add(c, t, ICBDB_STRING, v) : icbdb_list_delete(c, t, ICBDB_STRING, v);
            active = 0; printf("ret %d\n", a); free(c); free(t); free(v);
        } else if (!strcmp(w[0], "lclear")) {
            char *c = unhex(w[1], 0), *t = unhex(w[2], 0);
            a = icbdb_list_clear(c, t); active = 0; printf("ret %d\n", a); free(c); free(t);
        } else if (!strcmp(w[0], "lload")) {
            char *c = unhex(w[1], 0), *t = unhex(w[2], 0);
            NAMLIST nl; unsigned j;
            nlinit(&nl, 1000);
            icbdb_list_load(c, t, &nl); active = 0;
            printf("list");
            for (j = 0; j < nlcount(nl); j++) { char *x = nlget(&nl); printf(" "); hex(x, strlen(x)); }
            printf("\n");
            nlclear(&nl); free(c); free(t);
        } else { active = 0; printf("what\n"); }
        active = 0; printf("ops %d\n", count); kind = NONE;
        fflush(stdout);
    }
    return 0;
}
