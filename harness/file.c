#define F_SHELL
#define _GNU_SOURCE
#include "full.h"
/* searches with wildcards (13), DEL and RD (14), COPY and MOVE (17) against models of their documentation.
   Every call that can change files goes through a stand-in that refuses to act outside the scratch directory. */
#include <dirent.h>
#include <limits.h>
#include <errno.h>
static int armed, wfail = -1, wshort; static char escaped[5000];
static int inside(const char *p)
{
    char b[5000], r[PATH_MAX], *s; int n = strlen(f_dir);
    if (!armed) return 1;
    if (strlen(p) > 4000) return 0;
    strcpy(b, p); while (strlen(b) > 1 && b[strlen(b) - 1] == '/') b[strlen(b) - 1] = 0;
    if (!(s = strrchr(b, '/'))) strcpy(b, "."); else if (s == b) s[1] = 0; else *s = 0;
    if (!realpath(b, r)) return 1;                  /* no such directory: the call fails by itself */
    if (!strncmp(r, f_dir, n) && (!r[n] || r[n] == '/')) return 1;
    snprintf(escaped, sizeof escaped, "%s", p); return 0;
}
#define W1(f) int __real_##f(const char *); int __wrap_##f(const char *p) { if (!inside(p)) { errno = EACCES; return -1; } return __real_##f(p); }
W1(remove) W1(rmdir) W1(unlink)
int __real_mkdir(const char *, mode_t); int __wrap_mkdir(const char *p, mode_t m) { if (!inside(p)) { errno = EACCES; return -1; } return __real_mkdir(p, m); }
int __real_rename(const char *, const char *); int __wrap_rename(const char *a, const char *b) { if (!inside(a) || !inside(b)) { errno = EACCES; return -1; } return __real_rename(a, b); }
int __real_open(const char *, int, ...); int __wrap_open(const char *p, int f, ...)
{
    va_list v; int m = 0; if (f & O_CREAT) { va_start(v, f); m = va_arg(v, int); va_end(v); }
    if ((f & (O_CREAT | O_TRUNC | O_APPEND | O_WRONLY | O_RDWR)) && strcmp(p, "/dev/null") && !inside(p)) { errno = EACCES; return -1; }
    return __real_open(p, f, m);
}
ssize_t __real_write(int, const void *, size_t); ssize_t __wrap_write(int d, const void *p, size_t n)
{
    if (armed && d > 2) {
        if (wfail == 0) { errno = ENOSPC; return -1; }
        if (wfail > 0 && (long)n > wfail) n = wfail;
        if (wshort && n > 1) n = 1 + h_rn(n);
        if (wfail > 0) wfail -= n;
    }
    return __real_write(d, p, n);
}
/* ---- the tree ---- */
static const char *NM[] = {"a", "b", "ab", "abc.txt", "aB.c", "B.txt", "x1", "x2", "a b", "\xc3\xa9t\xc3\xa9", "\xc3\xa8""a", "sub", "d1", "d2", ".h", "n.", "a.b.c", "aab", "abab"};
#define NNM 19
struct nd { char *p, t, *c; int n, ro; };
static int ncmp(const void *a, const void *b) { return strcmp(((struct nd *)a)->p, ((struct nd *)b)->p); }
static struct nd T[600], X[600]; static int nT, nX;
static void clear(struct nd *t, int *n) { int i; for (i = 0; i < *n; i++) { free(t[i].p); free(t[i].c); } *n = 0; }
static void snap(const char *d)
{
    DIR *D = opendir(d); struct dirent *e; char b[2000]; struct stat s;
    if (!D) return;
    while ((e = readdir(D))) {
        struct nd *x = T + nT;
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..") || nT >= 599) continue;
        snprintf(b, sizeof b, "%s/%s", d, e->d_name); lstat(b, &s);
        nT++; x->p = strdup(b); x->c = 0; x->n = 0; x->ro = (s.st_mode & 0600) == 0400;
        if (S_ISDIR(s.st_mode)) { x->t = 'd'; snap(b); }
        else if (S_ISLNK(s.st_mode)) { x->t = 'l'; x->c = calloc(1, 300); x->n = readlink(b, x->c, 299); }
        else { FILE *f = fopen(b, "rb"); x->t = 'f'; x->c = malloc(s.st_size + 1); x->n = fread(x->c, 1, s.st_size, f); fclose(f); }
    }
    closedir(D);
}
static void snapshot(void) { clear(T, &nT); armed = 0; snap(f_dir); qsort(T, nT, sizeof *T, ncmp); }
static struct nd *find(struct nd *t, int n, const char *p) { int i; for (i = 0; i < n; i++) if (!strcmp(t[i].p, p)) return t + i; return 0; }
static int skipped(const char *p) { p += strlen(f_dir); return !strcmp(p, "/out") || !strcmp(p, "/err") || !strcmp(p, "/s.bat") || !strcmp(p, "/ans"); }
static void keep(void) { int i; clear(X, &nX); for (i = 0; i < nT; i++) if (!skipped(T[i].p)) { X[nX] = T[i]; X[nX].p = strdup(T[i].p); if (T[i].c) { X[nX].c = malloc(T[i].n + 1); memcpy(X[nX].c, T[i].c, T[i].n); } nX++; } }
static void xdel(const char *p) { int i; for (i = 0; i < nX; i++) if (!strcmp(X[i].p, p)) { free(X[i].p); free(X[i].c); X[i] = X[--nX]; return; } }
static struct nd *xput(const char *p, char t, const char *c, int n)
{
    struct nd *x = find(X, nX, p); char *k = malloc(n + 1);
    if (!x) { x = X + nX++; x->p = strdup(p); x->c = 0; x->ro = 0; }
    memcpy(k, c, n); k[n] = 0; free(x->c); x->c = k; x->n = n; x->t = t; return x;
}
static int differs(const char *key, int dirs)
{
    int i, j; snapshot();
    if (*escaped) { h_fail("escaped", "a call reached %s outside the tree", h_q(escaped)); *escaped = 0; return 1; }
    for (i = 0; i < nT; i++) { struct nd *x;
        if (skipped(T[i].p) || (!dirs && T[i].t == 'd')) continue;
        x = find(X, nX, T[i].p);
        if (!x) { h_fail(key, "%s should not be there", h_q(T[i].p + strlen(f_dir))); return 1; }
        if (x->t != T[i].t) { h_fail(key, "%s changed its kind", h_q(T[i].p + strlen(f_dir))); return 1; }
        if (x->t == 'f' && (x->n != T[i].n || memcmp(x->c, T[i].c, x->n))) {
            for (j = 0; j < x->n && j < T[i].n && x->c[j] == T[i].c[j]; j++);
            h_fail(key, "%s holds %d bytes, expected %d, first difference at %d", h_q(T[i].p + strlen(f_dir)), T[i].n, x->n, j); return 1; } }
    for (i = 0; i < nX; i++) if ((dirs || X[i].t != 'd') && !find(T, nT, X[i].p)) { h_fail(key, "%s is missing", h_q(X[i].p + strlen(f_dir))); return 1; }
    return 0;
}
static char gdesc[9000];
static void wfile(const char *p, int n) { FILE *f = fopen(p, "wb"); int i; if (!f) return; for (i = 0; i < n; i++) putc(h_rn(20) ? 'a' + h_rn(26) : h_rn(256), f); fclose(f); if (h_rn(6) == 0) chmod(p, 0400); }
static int gsize(void) { static const int S[] = {0, 0, 1, 5, 2047, 2048, 2049, 4096, 5000}; return S[h_rn(h_rn(4) ? 4 : 9)]; }
static void gtree(const char *d, int depth, int n)
{
    char b[1000]; int i;
    for (i = 0; i < n; i++) {
        snprintf(b, sizeof b, "%s/%s", d, NM[h_rn(NNM)]);
        if (!access(b, 0)) continue;
        if (depth < 3 && h_rn(3) == 0) { mkdir(b, 0700); gtree(b, depth + 1, h_rn(5)); sprintf(gdesc + strlen(gdesc) % 2500, "%s/ ", b + strlen(f_dir)); }
        else { wfile(b, gsize()); sprintf(gdesc + strlen(gdesc) % 2500, "%s ", b + strlen(f_dir)); }
    }
}
static int links;
static void tree(int lnk)
{
    char b[300];
    armed = 0; sprintf(b, "rm -rf %s/w/* %s/w/.[!.]* %s/o/*", f_dir, f_dir, f_dir);
    { pid_t p = fork(); int st; if (!p) { execl("/bin/sh", "sh", "-c", b, (char *)0); _exit(1); } waitpid(p, &st, 0); }
    *gdesc = 0; sprintf(b, "%s/o", f_dir); mkdir(b, 0700); gtree(b, 2, 3); strcat(b, "/in"); mkdir(b, 0700); gtree(b, 3, 3);
    sprintf(b, "%s/w", f_dir); gtree(b, 0, 4 + h_rn(6));
    links = 0;
    if (lnk) { int i; for (i = 0; i < 2; i++) { char l[1000], t[400]; DIR *D; struct dirent *e;
        sprintf(l, "%s/w/%s", f_dir, "ln"); D = opendir("."); 
        if (i) { while (D && (e = readdir(D))) { struct stat s; if (*e->d_name != '.' && !lstat(e->d_name, &s) && S_ISDIR(s.st_mode)) { sprintf(l, "%s/w/%s/al", f_dir, e->d_name); break; } } }
        if (D) closedir(D);
        sprintf(t, "%s/o%s", f_dir, h_rn(2) ? "/in" : ""); if (!access(l, 0)) continue; symlink(t, l); links++; sprintf(gdesc + strlen(gdesc) % 2500, "%s->%s ", l + strlen(f_dir), t + strlen(f_dir)); } }
}
/* ---- wildcards ---- */
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int match(const char *p, const char *s, int ci)
{
    if (!*p) return !*s;
    if (*p == '*') { while (*p == '*') p++; do if (match(p, s, ci)) return 1; while (*s++); return 0; }
    if (!*s) return 0;
    if (*p == '?') { do s++; while ((*s & 0xc0) == 0x80); return match(p + 1, s, ci); }
    return (ci ? up(*p) == up(*s) : *p == *s) && match(p + 1, s + 1, ci);
}
static char *R[3000]; static int nR;
static int isdir(const char *p) { struct stat s; return !stat(p, &s) && S_ISDIR(s.st_mode); }
static int islnk(const char *p) { struct stat s; return !lstat(p, &s) && S_ISLNK(s.st_mode); }
static void add(const char *p) { if (nR < 2990) R[nR++] = strdup(p); }
static void model(const char *base, const char *pat, int fl)
{
    char item[1000], rest[1000] = "", path[3000]; const char *s; DIR *D; struct dirent *e;
    /* split the first component */
    strcpy(item, pat); if ((s = strchr(pat, '/'))) { item[s - pat] = 0; strcpy(rest, s + 1); }
    if (!strpbrk(item, "*?")) {
        snprintf(path, sizeof path, "%s%s%s", base ? base : "", base && base[strlen(base) - 1] != '/' ? "/" : "", item);
        if (access(path, 0)) return;
        if (!s) { add(path); return; }
        if (isdir(path)) model(path, rest, fl);
        return;
    }
    if (!(D = opendir(base ? base : "."))) return;
    while ((e = readdir(D))) {
        int dot = !strcmp(e->d_name, ".") || !strcmp(e->d_name, "..");
        if ((fl & PBAT_SEARCH_NO_PSEUDO_DIR) && dot) continue;
        snprintf(path, sizeof path, "%s%s%s", base ? base : "", base && base[strlen(base) - 1] != '/' ? "/" : "", e->d_name);
        if (match(item, e->d_name, 1)) {
            if (!s) { if (isdir(path) && (fl & PBAT_SEARCH_RECURSIVE) && !dot && !islnk(path)) model(path, pat, fl); add(path); }
            else if (isdir(path)) model(path, rest, fl);
        } else if (!s && (fl & PBAT_SEARCH_RECURSIVE) && !dot && isdir(path) && !islnk(path)) model(path, pat, fl);
    }
    closedir(D);
}
static void search(const char *pat, int fl)
{
    if ((fl & (PBAT_SEARCH_DIR_MODE | PBAT_SEARCH_RECURSIVE)) && isdir(pat)) { model(pat, "*", fl); if (!(fl & PBAT_SEARCH_DIR_MODE)) add(pat); return; }
    if (!access(pat, 0)) { add(pat); return; }
    if (!strpbrk(pat, "*?")) return;
    if (*pat == '/') model("/", pat + 1, fl); else model(0, pat, fl);
}
static void rclear(void) { while (nR) free(R[--nR]); }
static void gitem(char *o, int wild)
{
    static const char *P[] = {"*", "?", "a", "b", "A", "B", ".txt", ".", "x", "t", "\xc3\xa9", "1", "*", "?", "c", "ab", "TXT"}; int n, i;
    if (!wild || h_rn(7) == 0) { strcpy(o, NM[h_rn(NNM)]); if (wild) { o[h_rn(strlen(o))] = '*'; } return; }
    do { *o = 0; n = 1 + h_rn(5); for (i = 0; i < n; i++) strcat(o, P[h_rn(17)]); } while (!strpbrk(o, "*?") || !strcmp(o, ".") || !strcmp(o, ".."));
}
static void gpath(char *o, int lastwild)
{
    int k = h_rn(3), i; char t[200]; *o = 0;
    if (h_rn(4) == 0) sprintf(o, "%s/w/", f_dir);
    for (i = 0; i < k; i++) {
        if (h_rn(3)) { /* existing directory names */ static const char *D[] = {"sub", "d1", "d2", "ln", "a", "x1", "*", "d?", "?*", "s*b"}; strcat(o, D[h_rn(10)]); } else { gitem(t, h_rn(2)); strcat(o, t); }
        strcat(o, "/");
    }
    gitem(t, lastwild); strcat(o, t);
}
static int scmp(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static char *found[3000]; static int nF;
static void cb(FILELIST *f) { if (nF < 2990) found[nF++] = strdup(f->lpFileName); }
static void compare(const char *key, const char *what)
{
    int i = 0, j = 0; qsort(R, nR, sizeof *R, scmp); qsort(found, nF, sizeof *found, scmp);
    while (i < nR || j < nF) {
        int c = i == nR ? 1 : j == nF ? -1 : strcmp(R[i], found[j]);
        if (c < 0) { h_fail(key, "%s was not found in %s", h_q(R[i]), h_q(gdesc)); break; }
        if (c > 0) { h_fail(key, "%s was found %s in %s", h_q(found[j]), i && !strcmp(found[j], R[i - 1]) ? "twice" : "and does not match", h_q(gdesc)); break; }
        i++; j++;
    }
    while (nF) free(found[--nF]);
}
static void searches(int n)
{
    int i; char p[1000], keep_[1000];
    tree(h_rn(3) == 0);
    for (i = 0; i < n; i++) {
        static const int FL[] = {0, PBAT_SEARCH_NO_PSEUDO_DIR, PBAT_SEARCH_RECURSIVE, PBAT_SEARCH_RECURSIVE | PBAT_SEARCH_NO_PSEUDO_DIR, PBAT_SEARCH_DIR_MODE | PBAT_SEARCH_NO_PSEUDO_DIR, PBAT_SEARCH_NO_STAT, PBAT_SEARCH_RECURSIVE | PBAT_SEARCH_NO_PSEUDO_DIR | PBAT_SEARCH_DIR_MODE};
        int fl = FL[h_rn(7)], w = h_rn(8) || (fl & PBAT_SEARCH_RECURSIVE); FILELIST *l, *q;
        gpath(p, w); strcpy(keep_, p); if (strstr(p, "/*/") || strchr(p, '/') != strrchr(p, '/')) fl |= PBAT_SEARCH_NO_PSEUDO_DIR;
        h_begin("search %s flags %d", h_q(p), fl);
        rclear(); search(p, fl);
        l = pBat_GetMatchFileList(p, fl);
        if (strcmp(p, keep_)) h_fail("search-pattern", "the pattern became %s", h_q(p));
        for (q = l; q; q = q->lpflNext) { cb(q); if (q->lpflNext && q->lpflNext->lpflPrevious != q) h_fail("search-list", "the list is not linked both ways"); }
        if (!(fl & PBAT_SEARCH_NO_STAT)) for (q = l; q; q = q->lpflNext) { struct stat s; if (!stat(q->lpFileName, &s) && (s.st_size != q->stFileStats.st_size || s.st_mode != q->stFileStats.st_mode)) { h_fail("search-stat", "attributes of %s", h_q(q->lpFileName)); break; } }
        pBat_FreeFileList(l);
        compare("search", p);
        h_begin("search %s flags %d by a function", h_q(p), fl);
        pBat_GetMatchFileCallback(p, fl, cb); compare("search-fn", p);
        h_begin("first of %s flags %d", h_q(p), fl & ~PBAT_SEARCH_RECURSIVE);
        rclear(); search(p, fl & ~PBAT_SEARCH_RECURSIVE);
        l = pBat_GetMatchFileList(p, PBAT_SEARCH_GET_FIRST_MATCH | (fl & ~PBAT_SEARCH_RECURSIVE));
        if (!l != !nR) h_fail("search-first", "%s", l ? "found something" : "found nothing");
        else if (l) { int j; for (j = 0; j < nR && strcmp(R[j], l->lpFileName); j++); if (j == nR) h_fail("search-first", "found %s", h_q(l->lpFileName)); }
        pBat_FreeFileList(l);
    }
    rclear();
}
static void matches(int n)
{
    char p[300], s[300]; int i, k;
    while (n--) {
        static const char *S[] = {"a", "b", "A", "aa", "ab", "\xc3\xa9", "\xe2\x82\xac", "B", "c"};
        *p = *s = 0;
        if (h_rn(4)) { for (k = h_rn(7); k > 0; k--) strcat(p, h_rn(2) ? S[h_rn(9)] : h_rn(2) ? "*" : "?"); for (k = h_rn(9); k > 0; k--) strcat(s, S[h_rn(9)]); }
        else { /* a text made from the pattern */
            for (k = 1 + h_rn(6); k > 0; k--) { if (h_rn(2)) { const char *t = S[h_rn(9)]; strcat(p, t); strcat(s, t); } else if (h_rn(2)) { strcat(p, "?"); strcat(s, S[h_rn(9)]); } else { strcat(p, "*"); for (i = h_rn(4); i > 0; i--) strcat(s, S[h_rn(9)]); } } }
        /* a character counts as one for ?: combining groups start with one base */
        h_begin("does %s match %s", h_q(s), h_q(p));
        if (!pBat_RegExpMatch(p, s) != !match(p, s, 0)) h_fail("match", "%s", match(p, s, 0) ? "no" : "yes");
        if (!pBat_RegExpCaseMatch(p, s) != !match(p, s, 1)) h_fail("match-case", "%s", match(p, s, 1) ? "no" : "yes");
    }
}
/* every pattern and text over a few characters */
static void every(int n, int m)
{
    static const char *A = "*?ab", *B = "abA"; char p[10], s[10]; int i, j, k, l, np = 1, ns;
    for (l = 0; l <= n; l++, np *= 4) for (i = 0; i < np; i++) {
        for (k = 0, j = i; k < l; k++, j /= 4) p[k] = A[j % 4];
        p[l] = 0;
        for (k = 0, ns = 1; k <= m; k++, ns *= 3) for (j = 0; j < ns; j++) { int a, b;
            for (a = 0, b = j; a < k; a++, b /= 3) s[a] = B[b % 3];
            s[k] = 0; h_begin("does %s match %s", s, p);
            if (!pBat_RegExpMatch(p, s) != !match(p, s, 0)) h_fail("match", "%s", match(p, s, 0) ? "no" : "yes");
            if (!pBat_RegExpCaseMatch(p, s) != !match(p, s, 1)) h_fail("match-case", "%s", match(p, s, 1) ? "no" : "yes"); } }
}
static void q(char *o, const char *s) { if (strchr(s, ' ')) sprintf(o + strlen(o), " \"%s\"", s); else sprintf(o + strlen(o), " %s", s); }
/* a loop over the files that match */
static void loops(void)
{
    char p[1000], sc[2000], *b, *e; tree(0);
    static const char *D[] = {"", ".", "a", "ab", "A", "d x", "sub"}; const char *d = 0; int sw = h_rn(3), fl = PBAT_SEARCH_DEFAULT | PBAT_SEARCH_NO_PSEUDO_DIR; char fp[3000];
    if (sw) { gitem(p, 1); d = D[h_rn(7)]; if (!strpbrk(p, "*?") || strchr(p, '/')) return; fl = PBAT_SEARCH_RECURSIVE | PBAT_SEARCH_NO_PSEUDO_DIR; } else gpath(p, 1);
    if (strpbrk(p, "&|<>^%!()")) return;
    sprintf(sc, "@echo off\nfor %s", sw == 1 ? "/r" : sw ? "/d" : ""); if (d && *d) q(sc, d); strcat(sc, " %%i in ("); q(sc, p); strcat(sc, ") do echo [%%i]\n");
    h_begin("%s over %s", h_q(sc), h_q(gdesc));
    { rclear(); if (*p == '/') strcpy(fp, p); else sprintf(fp, "%s/w/%s%s%s", f_dir, d ? d : "", d && *d ? "/" : "", p); search(fp, fl); }
    { int i, j; for (i = j = 0; i < nR; i++) if (isdir(R[i]) != (sw == 2)) free(R[i]); else R[j++] = R[i]; nR = j; }
    f_run(sc, "");
    for (b = f_out; *b == '[' && (e = strstr(b, "]\n")); b = e + 2) { *e = 0; found[nF++] = strdup(b + 1); }
    { int i; char t[3000]; for (i = 0; i < nF; i++) { if (*found[i] != '/') { sprintf(t, "%s/w/%s", f_dir, found[i]); free(found[i]); found[i] = strdup(t); } } }
    compare("loop", p); rclear();
}
/* ---- attributes ---- */
static int selected(const char *attr, struct nd *x)
{
    int neg = 0, ok = 1, v;
    if (!*attr) return 1;
    for (; *attr; attr++) {
        switch (up(*attr)) { case '-': neg = 1; continue;
            case 'R': v = x->ro; break; case 'I': v = x->t == 'f' && x->n == 0; break; case 'D': v = x->t != 'f'; break; default: v = 0; }
        if (neg) v = !v;
        ok = ok && v; neg = 0;
    }
    return ok;
}
static void gattr(char *o) { static const char *L[] = {"R", "-R", "I", "-I", "-D", "R-I", "-RI", "-r-i", "i", "-i-D", "-D-R", "-H", "-S-H-A", "-S-I", "-A-R"}; strcpy(o, L[h_rn(15)]); }
static void answers(const char *s) { f_put("../ans", s); if (fInput) fclose(fInput); fInput = fopen("../ans", "r"); }
/* the names DEL is given: paths from the current directory */
static void fullp(char *o, const char *p) { if (*p == '/') strcpy(o, p); else sprintf(o, "%s/w/%s", f_dir, p); }
static int asked(const char *msg, char **names, int max)
{
    int n = 0; char *b = f_errout; const char *s, *e; char pre[200]; int k;
    s = strstr(msg, "%s"); k = s - msg; memcpy(pre, msg, k); pre[k] = 0; e = s + 2;
    while (n < max && (b = strstr(b, pre))) { char *x = strstr(b + k, e); if (!x) break; names[n] = calloc(1, x - b - k + 1); memcpy(names[n++], b + k, x - b - k); b = x; }
    return n;
}
extern const char *lpDelConfirm, *lpRmdirConfirm, *lpCopyConfirm;
static void run1(const char *cmd) { char sc[6000]; sprintf(sc, "@echo off\n%s\n", cmd); chdir(f_dir); chdir("w"); armed = 1; f_run(sc, ""); armed = 0; wfail = -1; wshort = 0; }
static char cmd[5000], ans[400], *Q[600]; static int nQ;
static void confirmed(const char *msg, char *sel, int ask, const char *key)   /* names in R marked in sel: take out of sel those that were declined */
{
    int i, j, all = 0; char *a = ans;
    nQ = asked(msg, Q, 590);
    if (!ask && nQ) h_fail(key, "asked about %s", h_q(Q[0]));
    for (i = 0; i < nQ; i++) {
        char l[50]; int n = strcspn(a, "\n"); sprintf(l, "%.*s", n > 40 ? 40 : n, a); a += n + (a[n] != 0);
        for (j = 0; j < nR && strcmp(R[j], Q[i]); j++);
        if (j == nR) { h_fail(key, "asked about %s", h_q(Q[i])); break; }
        if (all) h_fail(key, "asked about %s after the answer for all", h_q(Q[i]));
        if (!strcasecmp(l, "all") || !strcasecmp(l, "a")) { all = 1; sel[j] |= 2; } else if (!strcasecmp(l, "y") || !strcasecmp(l, "yes")) sel[j] |= 2;
        else sel[j] |= 4;
    }
    for (j = 0; j < nR; j++) {
        if (ask && (sel[j] & 1) && !all && !(sel[j] & 6)) h_fail(key, "did not ask about %s", h_q(R[j]));
        if (ask && (sel[j] & 4)) sel[j] = 0;
        if (!(sel[j] & 1)) sel[j] = 0;
    }
    for (i = 0; i < nQ; i++) free(Q[i]);
}
static void ganswers(int mixed)
{
    int i; *ans = 0;
    if (h_rn(3) == 0) { strcpy(ans, h_rn(2) ? "all\n" : "a\n"); if (h_rn(3) == 0) sprintf(ans, "n\ny\na\n"); answers(ans); return; }
    for (i = 0; i < 60; i++) { static const char *A[] = {"y\n", "n\n", "yes\n", "No\n", "\n", "Y\n"}; strcat(ans, A[h_rn(6)]); if (h_rn(mixed ? 30 : 100) == 0) break; }
    answers(ans);
}
static void del(void)
{
    char at[20] = "", names[4][1000]; int fP = 0, fF = 0, fS = 0, fQ = 0, i, j, k = 1 + (h_rn(3) == 0) + (h_rn(5) == 0), wild = 0, none = 0; static char sel[3000];
    tree(h_rn(3) == 0); strcpy(cmd, h_rn(4) ? "del" : "Erase");
    if (h_rn(4) == 0) { fP = 1; strcat(cmd, " /P"); } if (h_rn(3) == 0) { fF = 1; strcat(cmd, " /f"); } if (h_rn(3) == 0) { fS = 1; strcat(cmd, " /S"); }
    if (h_rn(3) && !fP) { fQ = 1; strcat(cmd, " /q"); } if (h_rn(3) == 0) { gattr(at); sprintf(cmd + strlen(cmd), h_rn(3) ? " /A:%s" : " /a%s", at); }
    snapshot(); keep(); rclear();
    for (i = 0; i < k; i++) {
        char f[1500]; int n0 = nR;
        if (h_rn(2)) { int t = h_rn(nT ? nT : 1); const char *w = T[t].p; char pre[100]; sprintf(pre, "%s/w/", f_dir); if (!nT || strncmp(w, pre, strlen(pre)) || T[t].t == 'l' || (fS && T[t].t == 'd' && 0)) strcpy(names[i], "a"); else strcpy(names[i], w + strlen(pre)); }
        else gpath(names[i], h_rn(4));
        q(cmd, names[i]); fullp(f, names[i]);
        if (strpbrk(names[i], "*?")) wild = 1;
        search(f, PBAT_SEARCH_NO_PSEUDO_DIR | PBAT_SEARCH_DIR_MODE | (fS ? PBAT_SEARCH_RECURSIVE : 0));
        if (nR == n0) none = 1;
    }
    /* selection */
    for (i = 0; i < nR; i++) { char r[PATH_MAX]; struct nd *x, l; struct stat s;
        sel[i] = 0; x = 0;
        if (!stat(R[i], &s)) { l.t = S_ISDIR(s.st_mode) ? 'd' : 'f'; l.n = s.st_size; l.ro = (s.st_mode & 0600) == 0400; x = &l; }
        if (!x || x->t == 'd' || none) continue;
        if (*at ? !selected(at, x) : !fF && x->ro) continue;
        for (j = 0; j < i && strcmp(R[j], R[i]); j++);
        if (j < i) continue;                       /* given twice */
        sel[i] = 1;
    }
    /* the same file reached by two paths: leave such cases out */
    for (i = 0; i < nR; i++) { char a[PATH_MAX], b[PATH_MAX]; for (j = 0; j < i; j++) if (realpath(R[i], a) && realpath(R[j], b) && !strcmp(a, b)) return; }
    ganswers(1);
    { int ask = (wild && !fQ) || fP; h_begin("%s answers %s in %s", h_q(cmd), h_q(ans), h_q(gdesc)); run1(cmd);
      { char *x[3000]; int n = nR; static char s0[3000]; memcpy(s0, sel, n); confirmed(lpDelConfirm, sel, ask && !none, "del-ask"); } }
    for (i = 0; i < nR; i++) if (sel[i]) { char r[PATH_MAX], b[3000], *s; strcpy(b, R[i]); s = strrchr(b, '/'); *s = 0; armed = 0; if (realpath(b, r)) { strcat(r, "/"); strcat(r, s + 1); xdel(r); } }
    if (none && !f_nerr) h_fail("del-none", "no error although nothing matches");
    differs("del", 1);
}
static void rd(void)
{
    int fS = h_rn(3) != 0, fQ = h_rn(2), i, j, k = 1 + (h_rn(3) == 0), nd = 0, none = 0; static char sel[3000]; char names[3][300]; const char *dirs[300]; char pre[100];
    tree(h_rn(2)); snapshot(); keep(); rclear(); strcpy(cmd, h_rn(2) ? "rd" : "RMDIR"); sprintf(pre, "%s/w/", f_dir);
    if (fS) strcat(cmd, " /s"); if (fQ) strcat(cmd, " /q");
    for (i = 0; i < nT; i++) if (!strncmp(T[i].p, pre, strlen(pre)) && T[i].t != 'f' && nd < 290) dirs[nd++] = T[i].p + strlen(pre);
    if (!nd) return;
    for (i = 0; i < k; i++) { strcpy(names[i], dirs[h_rn(nd)]); if (i && !strncmp(names[0], names[i], strlen(names[i]) < strlen(names[0]) ? strlen(names[i]) : strlen(names[0]))) { k = i; break; } q(cmd, names[i]); }
    for (i = 0; i < k; i++) { char f[1000]; fullp(f, names[i]); if (!fS || islnk(f)) add(f); else search(f, PBAT_SEARCH_NO_PSEUDO_DIR | PBAT_SEARCH_RECURSIVE); }
    for (i = 0; i < nR; i++) sel[i] = 1;
    ganswers(0);
    h_begin("%s answers %s in %s", h_q(cmd), h_q(ans), h_q(gdesc)); run1(cmd);
    /* two questions: about files and about directories, in the order they were asked */
    { int ask = !fQ && !(k == 1 && !fS); char *a = ans, *b = f_errout; int all = 0; char p1[100], p2[100]; char *s1 = strstr(lpDelConfirm, "%s"), *s2 = strstr(lpRmdirConfirm, "%s");
      sprintf(p1, "%.*s", (int)(s1 - lpDelConfirm), lpDelConfirm); sprintf(p2, "%.*s", (int)(s2 - lpRmdirConfirm), lpRmdirConfirm);
      if (ask) for (;;) { char *x1 = strstr(b, p1), *x2 = strstr(b, p2), *x, *e; char n[1000], l[50]; int c;
        if (!x1 && !x2) break;
        if (!x2 || (x1 && x1 < x2)) { x = x1 + strlen(p1); e = strstr(x, s1 + 2); } else { x = x2 + strlen(p2); e = strstr(x, s2 + 2); }
        if (!e || e - x > 900) break;
        sprintf(n, "%.*s", (int)(e - x), x); b = e; c = strcspn(a, "\n"); sprintf(l, "%.*s", c > 40 ? 40 : c, a); a += c + (a[c] != 0);
        for (j = 0; j < nR && strcmp(R[j], n); j++); if (j == nR) { h_fail("rd-ask", "asked about %s", h_q(n)); break; }
        if (all) h_fail("rd-ask", "asked about %s after the answer for all", h_q(n));
        if (!strcasecmp(l, "a") || !strcasecmp(l, "all")) all = 1, sel[j] = 3; else if (!strcasecmp(l, "y") || !strcasecmp(l, "yes")) sel[j] = 3; else sel[j] = 4; }
      else if (strstr(f_errout, p1) || strstr(f_errout, p2)) h_fail("rd-ask", "asked");
      if (ask && !all) for (j = 0; j < nR; j++) if (sel[j] == 1) { h_fail("rd-ask", "did not ask about %s", h_q(R[j])); break; } }
    for (i = 0; i < nR; i++) if (sel[i] != 4) { struct nd *x = find(X, nX, R[i]); if (x && x->t != 'd' && fS) xdel(R[i]); if (x && x->t == 'l' && k > 1) xdel(R[i]); }
    for (i = 0; i < nR; i++) if (sel[i] != 4) { struct nd *x = find(X, nX, R[i]); int l = strlen(R[i]); if (!x || x->t != 'd') continue; for (j = 0; j < nX; j++) if (!strncmp(X[j].p, R[i], l) && X[j].p[l] == '/') break; if (j == nX) xdel(R[i]); }
    differs("rd", 1);
}
/* ---- COPY and MOVE ---- */
static void copy(int move)
{
    char at[20] = "", dest[1500], dfull[3000], pre[100], names[5][1000]; int i, j, k = 1 + (h_rn(3) == 0) * (1 + h_rn(4)), plus = 0, y = 0, none = 0, todir, multi, cat, self = 0; char *a = ans; int first = 1; const char *w; struct nd *x;
    if (k > 5) k = 5;
    tree(0); snapshot(); keep(); rclear(); sprintf(pre, "%s/w/", f_dir);
    strcpy(cmd, move ? "move" : h_rn(4) ? "copy" : "COPY");
    i = h_rn(5); if (i == 0 || i == 1) { strcat(cmd, h_rn(2) ? " /Y" : " /y"); y = 1; } else if (i == 2) strcat(cmd, " /-Y"); else if (i == 3 && h_rn(3) == 0) { strcat(cmd, h_rn(2) ? " /Y /-Y" : " /-y"); }
    if (h_rn(6) == 0) { gattr(at); sprintf(cmd + strlen(cmd), " /A:%s", at); }
    for (i = 0; i < k; i++) {
        char f[1500]; int n0 = nR;
        for (j = 0; j < 20; j++) { int t = h_rn(nT); if (!strncmp(T[t].p, pre, strlen(pre)) && T[t].t == 'f') { strcpy(names[i], T[t].p + strlen(pre)); break; } }
        if (j == 20) return;
        if (h_rn(4) == 0) { char *s = strrchr(names[i], '/'); s = s ? s + 1 : names[i]; if (h_rn(2)) strcpy(s, "*"); else strcpy(s + h_rn(strlen(s)), "*"); }
        if (!move && i && h_rn(3) == 0) { strcat(cmd, " +"); plus = 1; }
        q(cmd, names[i]); fullp(f, names[i]); search(f, 0); if (nR == n0) none = 1;
    }
    { static const char *D[] = {"new", "d1/", "a/", "sub", "d1", "d2", "ab", "abc.txt", ".", "x1", "nodir/f", "n/"}; i = h_rn(4);
      if (i == 0) { int t = h_rn(nT); strcpy(dest, strncmp(T[t].p, pre, strlen(pre)) ? "new" : T[t].p + strlen(pre)); } else if (i == 1 && k > 1) strcpy(dest, names[h_rn(k)]); else strcpy(dest, D[h_rn(12)]); }
    if (strpbrk(dest, "*?")) strcpy(dest, "new");
    q(cmd, dest); 
    if (!strcmp(dest, ".")) sprintf(dfull, "%s/w", f_dir); else fullp(dfull, dest);
    todir = isdir(dfull) || dfull[strlen(dfull) - 1] == '/';
    while (dfull[strlen(dfull) - 1] == '/') dfull[strlen(dfull) - 1] = 0;
    for (i = j = 0; i < nR; i++) { x = find(T, nT, R[i]); if (!x || x->t == 'd' || !selected(at, x)) free(R[i]); else R[j++] = R[i]; }
    nR = j; multi = nR > 1; cat = plus || (multi && !move && !todir); if (plus && todir) return; if (move && multi) todir = 1;
    ganswers(0); if (h_rn(3) == 0) wshort = 1;
    /* expected */
    if (none) nR = 0;
    if (cat) for (i = 1; i < nR; i++) if (!strcmp(R[i], dfull)) nR = 0, none = 1;      /* refused: the first file overwrites it */
    for (i = 0; i < nR; i++) {
        char t[3000], par[3000], *s; struct nd *src = find(X, nX, R[i]), *d; int ok = 1;
        if (todir && !cat) sprintf(t, "%s/%s", dfull, strrchr(R[i], '/') + 1); else strcpy(t, dfull);
        d = find(X, nX, t);
        if (d && d->t == 'd') continue;                                  /* fails */
        if (d && !y && !(cat && !first)) { char l[50]; int n = strcspn(a, "\n"); sprintf(l, "%.*s", n > 40 ? 40 : n, a); a += n + (a[n] != 0);
            if (!strcasecmp(l, "a") || !strcasecmp(l, "all")) y = 1; else if (strcasecmp(l, "y") && strcasecmp(l, "yes")) ok = 0; }
        if (!src) continue;                                             /* already moved */
        if (!ok) { if (cat) return; continue; }
        strcpy(par, t); s = strrchr(par, '/'); *s = 0; { struct nd *pd = find(X, nX, par); char root[100]; sprintf(root, "%s/w", f_dir); if (strcmp(par, root) && (!pd || pd->t != 'd')) continue; }
        if (!strcmp(t, R[i])) { first = 0; continue; }                   /* onto itself: stays as it is */
        if (move) { char *c = malloc(src->n + 1); int n = src->n; memcpy(c, src->c, n); xdel(R[i]); xput(t, 'f', c, n); free(c); }
        else if (cat) { char *c = malloc(60000); int n = 0; if (!first && d) { memcpy(c, d->c, d->n); n = d->n; } memcpy(c + n, src->c, src->n); n += src->n; first = 0; xput(t, 'f', c, n); free(c); }
        else { char *c = malloc(src->n + 1); int n = src->n; memcpy(c, src->c, n); xput(t, 'f', c, n); free(c); }
    }
    h_begin("%s answers %s in %s", h_q(cmd), h_q(ans), h_q(gdesc)); run1(cmd);
    differs(move ? "move" : cat ? "copy-cat" : "copy", 1);
}
/* whole trees */
static void copytree(int move)
{
    char pre[100], src[1000], f[2000], dest[2000]; int i, st; const char *dirs[300]; int nd = 0; char *s;
    tree(0); snapshot(); keep(); rclear(); sprintf(pre, "%s/w/", f_dir);
    for (i = 0; i < nT; i++) if (!strncmp(T[i].p, pre, strlen(pre)) && T[i].t == 'd' && nd < 290) dirs[nd++] = T[i].p + strlen(pre);
    if (!nd) return;
    strcpy(src, dirs[h_rn(nd)]);
    if (h_rn(2)) { char t[200]; strcat(src, "/"); gitem(t, 1); if (h_rn(2)) strcpy(t, "*"); strcat(src, t); }
    sprintf(cmd, "%s /R /Y", move ? "move" : "copy"); q(cmd, src); strcat(cmd, h_rn(2) ? " zz" : " zz/deep");
    sprintf(dest, "%s/w/%s", f_dir, strstr(cmd, " zz") + 1);
    fullp(f, src); search(f, PBAT_SEARCH_DIR_MODE | PBAT_SEARCH_RECURSIVE | PBAT_SEARCH_NO_PSEUDO_DIR);
    { char t[2000], *e; strcpy(t, f); if ((e = strpbrk(t, "*?"))) *e = 0; s = strrchr(t, '/'); st = s - t + 1; }
    for (i = 0; i < nR; i++) { char t[4000]; struct nd *x = find(T, nT, R[i]); if (!x || x->t != 'f') continue; sprintf(t, "%s/%s", dest, R[i] + st); xput(t, 'f', x->c, x->n); if (move) xdel(R[i]); }
    h_begin("%s in %s", h_q(cmd), h_q(gdesc)); run1(cmd);
    differs(move ? "move-tree" : "copy-tree", 0);
}
/* a disk that fills up */
static void fault(void)
{
    char p[300], d[300]; int n = 1 + h_rn(9000), k = h_rn(n), cat = h_rn(2); struct nd *x;
    tree(0); sprintf(p, "%s/w/big", f_dir); wfile(p, n); sprintf(d, "%s/w/dst", f_dir); snapshot(); keep();
    strcpy(cmd, cat ? "copy /Y big + big dst" : "copy /Y big dst"); wfail = k; wshort = h_rn(2);
    h_begin("%s when %d bytes can be written of %d", cmd, k, n); run1(cmd);
    snapshot(); x = find(T, nT, p);
    { struct nd *o = find(X, nX, p); if (!x || x->n != o->n || memcmp(x->c, o->c, o->n)) h_fail("copy-fault", "the source changed"); 
      x = find(T, nT, d); if (x && (x->n > n || memcmp(x->c, o->c, x->n))) h_fail("copy-fault", "the destination holds other data"); }
    if (!f_nerr) h_fail("copy-fault", "no error was reported");
}
int main(void)
{
    int i, n; f_shell("file"); { char b[100]; sprintf(b, "%s/o", f_dir); mkdir(b, 0700); }
    alarm(600);
#if PROP == 13
    every(h_thorough ? 6 : 5, h_thorough ? 6 : 5); n = h_thorough ? 10 : 1;
    matches(60000 * n); for (i = 0; i < 250 * n; i++) searches(30); for (i = 0; i < 300 * n; i++) loops();
#elif PROP == 14
    n = h_thorough ? 10 : 1; for (i = 0; i < 1500 * n; i++) { del(); if (i % 2) rd(); }
#else
    n = h_thorough ? 10 : 1; for (i = 0; i < 2500 * n; i++) { copy(h_rn(3) == 0); if (i % 5 == 0) copytree(h_rn(3) == 0); if (i % 8 == 0) fault(); }
#endif
    h_end(); f_done(); return h_fails != 0;
}
