/* The text functions of the server: one call per line, byte strings in hex ("-" for empty). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "config.h"
#include "server.h"
#include "strutil.h"
#include "wildmat.h"
#include "namelist.h"
#include "strlist.h"

void mdb(int l, const char *m) { (void)l; (void)m; }
void vmdb(int l, const char *f, ...) { (void)l; (void)f; }
extern char *fields[];

/* exactly as large as the string, so that reading past it is noticed */
static char *unhex(char *h)
{
    int i, l = strcmp(h, "-") ? strlen(h) / 2 : 0;
    char *r = malloc(l + 1);
    for (i = 0; i < l; i++) { char t[3] = { h[2 * i], h[2 * i + 1], 0 }; r[i] = strtol(t, 0, 16); }
    r[l] = 0;
    return r;
}
static void hex(const char *p) { if (!*p) printf("-"); while (*p) printf("%02x", (unsigned char)*p++); }

int main(void)
{
    static char line[200000];
    NAMLIST nl;
    STRLIST *head = NULL, *tail = NULL;
    nlinit(&nl, 5);
    while (fgets(line, sizeof line, stdin)) {
        char *w[6] = { 0 }, *p = strtok(line, " \n"), *a, *b;
        int n = 0, i;
        while (p && n < 6) { w[n++] = p; p = strtok(NULL, " \n"); }
        if (!n) continue;
        a = n > 1 ? unhex(w[1]) : NULL;
        b = n > 2 ? unhex(w[2]) : NULL;
        if (!strcmp(w[0], "wild")) printf("%d", wildmat(a, b) ? 1 : 0);
        else if (!strcmp(w[0], "text")) {
            char *d = malloc(atoi(w[3]));
            filtertext(a, d, atoi(w[2]));
            d[atoi(w[3]) - 1] = 0;
            hex(d); free(d);
        }
        else if (!strcmp(w[0], "nick")) { filternickname(a); hex(a); }
        else if (!strcmp(w[0], "group")) { filtergroupname(a); hex(a); }
        else if (!strcmp(w[0], "lower")) { lcaseit(a); hex(a); }
        else if (!strcmp(w[0], "upper")) { ucaseit(a); hex(a); }
        else if (!strcmp(w[0], "word")) hex(getword(a));
        else if (!strcmp(w[0], "tail")) hex(get_tail(a));
        else if (!strcmp(w[0], "fmt")) { int k = atoi(w[2]); char *e = filterfmt(a, &k); printf("%d", e ? 0 : 1); }
        else if (!strcmp(w[0], "split")) {
            int k = split(a);
            for (i = 0; i < k; i++) { if (i) printf(" "); hex(fields[i]); }
        }
        else if (!strcmp(w[0], "linit")) { nlclear(&nl); nlinit(&nl, atoi(w[1])); printf("0"); }
        else if (!strcmp(w[0], "lclear")) { nlclear(&nl); printf("0"); }
        else if (!strcmp(w[0], "lput")) { nlput(&nl, a); printf("0"); }
        else if (!strcmp(w[0], "ldel")) printf("%d", nldelete(&nl, a));
        else if (!strcmp(w[0], "lhas")) printf("%d", nlpresent(a, nl) ? 1 : 0);
        else if (!strcmp(w[0], "lmatch")) printf("%d", nlmatch(a, nl) ? 1 : 0);
        else if (!strcmp(w[0], "lget")) hex(nlget(&nl));
        else if (!strcmp(w[0], "lall")) {
            int k = nlcount(nl);
            printf("%d", k);
            for (i = 0; i < k; i++) { printf(" "); hex(nlget(&nl)); }
        }
        else if (!strcmp(w[0], "snew")) { while (head) { STRLIST *x = head; strunlink(x, &head, &tail); free(x); } printf("0"); }
        else if (!strcmp(w[0], "salpha")) { STRLIST *x = strmakenode(strlen(a) + 1); strcpy(x->str, a); strlinkalpha(x, &head, &tail, atoi(w[2])); printf("0"); }
        else if (!strcmp(w[0], "sdel")) { STRLIST *x = strgetnode(a, head, atoi(w[2]), 0); if (x) { strunlink(x, &head, &tail); free(x); } printf("%d", x ? 1 : 0); }
        else if (!strcmp(w[0], "sall")) {
            STRLIST *x, *y = NULL; int k = 0, back = 0;
            for (x = head; x; x = x->next) { y = x; k++; }
            if (y != tail) printf("tail ");
            for (x = tail; x; x = x->prev) back++;
            if (back != k) printf("links ");
            printf("%d", k);
            for (x = head; x; x = x->next) { printf(" "); hex(x->str); }
        }
        else printf("what");
        printf("\n");
        free(a); free(b);
    }
    return 0;
}
