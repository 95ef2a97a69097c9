/* paths: splitting, making absolute, joining, device names, looking a program up in PATH x PATHEXT */
#include "full.h"
#include "pbat/core/pBat_FilePath.h"
#include "pbat/core/pBat_SplitPath.h"
static int esc(const char *b, const char *p) { int n = 0; while (p > b && p[-1] == '^') p--, n++; return n & 1; }
static const char *last(const char *s, const char *set)
{
    const char *r = 0, *p; for (p = s; *p; p++) if (strchr(set, *p) && !esc(s, p)) r = p; return r;
}
static void split(const char *src)
{
    static char d[4096], di[4096], n[4096], e[4096]; char wd[8], *wdi, *wn, *we; const char *t = src, *q;
    char *c = h_dup(src); int m;
    h_begin("splitting \"%s\"", h_q(src));
    *wd = 0;
    if (*t && t[1] == ':' && (t[2] == '/' || t[2] == '\\')) { sprintf(wd, "%c:", *t); t += 3; }
    if ((q = last(t, "/\\"))) { wdi = strndup(t, q + 1 - t); t = q + 1; } else wdi = strdup("");
    if ((q = last(t, "."))) { wn = strndup(t, q - t); we = strdup(q); } else { wn = strdup(t); we = strdup(""); }
    for (m = 0; m < 3; m++) {
        memset(d, 'X', 4096); memset(di, 'X', 4096); memset(n, 'X', 4096); memset(e, 'X', 4096);
        if (m == 0) pBat_SplitPath(c, d, di, n, e);
        else if (m == 1) { pBat_SplitPath(c, 0, di, 0, e); strcpy(d, wd); strcpy(n, wn); }
        else { pBat_SplitPath(c, 0, 0, n, 0); strcpy(d, wd); strcpy(di, wdi); strcpy(e, we); }
        if (strcmp(d, wd)) h_fail("split", "disk is \"%s\" instead of \"%s\"", h_q(d), h_q(wd));
        if (strcmp(di, wdi)) h_fail("split", "directory is \"%s\" instead of \"%s\"", h_q(di), h_q(wdi));
        if (strcmp(n, wn)) h_fail("split", "name is \"%s\" instead of \"%s\"", h_q(n), h_q(wn));
        if (strcmp(e, we)) h_fail("split", "extension is \"%s\" instead of \"%s\"", h_q(e), h_q(we));
        if (strcmp(c, src)) h_fail("split", "the path itself became \"%s\"", h_q(c));
    }
    free(c); free(wdi); free(wn); free(we);
}
/* the device a name stands for, or the name itself */
static const char *device(const char *s)
{
    static char b[40]; const char *p; char *e; long v;
    if (!strcasecmp(s, "nul")) return "/dev/null";
    if (!strcasecmp(s, "con")) return "/dev/tty";
    if (!strcasecmp(s, "prn")) return "/dev/lpt0";
    if (!strncasecmp(s, "lpt", 3)) p = "/dev/lpt"; else if (!strncasecmp(s, "com", 3)) p = "/dev/ttyS"; else return s;
    v = strtol(s + 3, &e, 10);
    if (*e || v < 1 || v > 11) return s;
    sprintf(b, "%s%d", p, (int)v - 1); return b;
}
static void full(const char *src)
{
    char *want, *r, *c = h_dup(src); const char *t = device(src); static char b[20000]; ESTR *es = pBat_EsInit(); int sz;
    h_begin("making \"%s\" absolute in \"%s\"", h_q(src), h_q(lpCurrentDir));
    want = malloc(strlen(src) + strlen(t) + strlen(lpCurrentDir) + 3);
    if (t[0] == '/' && t[1] != '/') strcpy(want, t); else sprintf(want, "%s/%s", lpCurrentDir, t);
    r = pBat_FullPathDup(c); if (!r || strcmp(r, want)) h_fail("full", "gives \"%s\" instead of \"%s\" (copy)", h_q(r), h_q(want)); free(r);
    pBat_MakeFullPathEs(es, c); if (strcmp(es->str, want)) h_fail("full", "gives \"%s\" instead of \"%s\" (string)", h_q(es->str), h_q(want));
    pBat_EsCpy(es, c); r = pBat_EsToFullPath(es);
    if (t == src || strcmp(es->str, src)) { if (strcmp(es->str, want) || r != es->str) h_fail("full", "gives \"%s\" instead of \"%s\" (in place)", h_q(es->str), h_q(want)); }
    if (strlen(es->str) >= es->len) h_fail("full", "capacity %d for \"%s\"", (int)es->len, h_q(es->str));
    for (int q = 0; q < 6; q++) {
        int l = strlen(want); sz = q == 0 ? 1 : q == 1 ? l - 1 : q == 2 ? l : q == 3 ? l + 1 : q == 4 ? l + 2 : 4096;
        if (sz < 1) continue;
        char *x = malloc(sz), *y = malloc(sz); pBat_MakeFullPath(x, c, sz);
        snprintf(y, sz, "%s", want); if (strcmp(x, y)) h_fail("full", "gives \"%s\" instead of \"%s\" (buffer of %d)", h_q(x), h_q(y), sz);
        free(x); free(y);
    }
    (void)b; pBat_EsFree(es); free(want); free(c);
}
static void parts(const char *src)
{
    char *c = h_dup(src), *p = c; ESTR *es = pBat_EsInit(); const char *q = src; int n = 0;
    h_begin("going through the list \"%s\"", h_q(src));
    while ((p = pBat_GetPathNextPart(p, es))) {
        size_t l = strcspn(q, ":");
        if (!*q) { h_fail("parts", "one element too many: \"%s\"", h_q(es->str)); break; }
        if (strlen(es->str) != l || memcmp(es->str, q, l)) h_fail("parts", "element %d is \"%s\" instead of \"%.*s\"", n, h_q(es->str), (int)l, q);
        q += l; if (*q) q++; n++;
    }
    if (*q) h_fail("parts", "stops before \"%s\"", h_q(q));
    if (strcmp(c, src)) h_fail("parts", "the list became \"%s\"", h_q(c));
    if (pBat_GetPathNextPart(0, es)) h_fail("parts", "an element of no list");
    free(c); pBat_EsFree(es);
}
static void add(char *w, const char *s) { size_t l = strlen(w); if (l && w[l - 1] != '/') strcat(w, "/"); strcat(w, s); }
static void join(const char *a, const char *b, const char *c)
{
    ESTR *es = pBat_EsInit(); char w[9000] = "";
    h_begin("joining \"%s\" \"%s\" \"%s\"", h_q(a), h_q(b), h_q(c));
    pBat_EsCpy(es, "stale"); pBat_MakePath(es, 2, a, b); add(w, a); add(w, b);
    if (strcmp(es->str, w)) h_fail("join", "gives \"%s\" instead of \"%s\"", h_q(es->str), h_q(w));
    pBat_MakePath(es, 3, a, b, c); add(w, c);
    if (strcmp(es->str, w)) h_fail("join", "three give \"%s\" instead of \"%s\"", h_q(es->str), h_q(w));
    pBat_EsFree(es);
}
/* lookup */
static const char *dirs[] = {"d0", "d1", "d2", "d0/sub", "d3/"}, *nms[] = {"foo", "bar.exe", "x y", "sub/foo", "foo.b", "q"}, *exts[] = {".a", ".b", "", ".exe"};
static int ex(const char *f) { struct stat s; return !stat(f, &s); }
static void lookup(const char *wd)
{
    char path[2000] = "", pext[200] = "", *dl[8], *el[8], want[5000], got[5000], part[300], t[6000]; int nd = h_rn(6), ne = h_rn(5), i, j, found = 0, r; const char *nm = nms[h_rn(6)];
    int abs_ = 0, sz = 4096;
    *want = 0;
    for (i = 0; i < nd; i++) { const char *d = dirs[h_rn(5)]; dl[i] = malloc(1000); sprintf(dl[i], "%s/%s", wd, d); strcat(path, dl[i]); if (i < nd - 1 || h_rn(3) == 0) strcat(path, ":"); }
    for (i = 0; i < ne; i++) { el[i] = (char *)exts[h_rn(4)]; strcat(pext, el[i]); if (i < ne - 1 || !*el[i] || h_rn(3) == 0) strcat(pext, ":"); }
    if (h_rn(4)) sprintf(lpCurrentDir, "%s/%s", wd, dirs[h_rn(5)]); else strcpy(lpCurrentDir, wd);
    if (h_rn(6) == 0) { snprintf(part, 300, "%s/%s/%s", wd, dirs[h_rn(4)], nm); abs_ = 1; } else strcpy(part, nm);
    pBat_SetEnv(lpeEnv, "PATH", path); pBat_SetEnv(lpeEnv, "PATHEXT", pext);
    h_begin("looking up \"%s\" in \"%s\" with PATH=%s PATHEXT=%s", h_q(part), h_q(lpCurrentDir), h_q(path), h_q(pext));
    for (i = -1; i < nd && !found; i++) {
        if (i >= 0 && (abs_ || strchr(part, '/'))) break;
        for (j = 0; j <= ne && !found; j++) {
            const char *e = j < ne ? el[j] : "";
            if (i < 0) { if (abs_) sprintf(t, "%s%s", part, e); else sprintf(t, "%s/%s%s", lpCurrentDir, part, e); }
            else { *t = 0; add(t, dl[i]); add(t, part); strcat(t, e); }
            if (ex(t)) { found = 1; strcpy(want, t); }
        }
    }
    memset(got, 'Z', sizeof got); r = pBat_GetFilePath(got, part, sz);
    if (found != (r == 0)) h_fail("lookup", "%s, expected %s \"%s\"", r ? "not found" : "found", found ? "" : "nothing", want);
    else if (found && strcmp(got, want)) h_fail("lookup", "gives \"%s\" instead of \"%s\"", h_q(got), h_q(want));
    sprintf(t, "%s/%s", lpCurrentDir, part); if (abs_) strcpy(t, part);
    r = pBat_GetFileFullPath(got, part, 4096);
    if ((r == 0) != ex(t)) h_fail("lookup", "file in the current directory: %d", r);
    else if (!r && strcmp(got, t)) h_fail("lookup", "file in the current directory is \"%s\"", h_q(got));
    for (i = 0; i < nd; i++) free(dl[i]);
}
int main(void)
{
    char s[400] = "", wd[2048], t[8000]; int i, k; FILE *f;
    f_init(); getcwd(wd, sizeof wd);
    strcpy(s, ""); do split(s); while (h_next(s, "a./\\^", 6));
    strcpy(s, ""); do split(s); while (h_next(s, "a./:", 7));
    for (i = 0; i < 400; i++) { int n = 0; char b[4000] = ""; for (k = h_rn(9); k > 0; k--) { int l = h_rn(250); while (l--) b[n++] = "abc.-_ "[h_rn(7)]; b[n++] = "/./\\"[h_rn(4)]; } b[n] = 0; split(b); }
    /* components at and past the limit of the buffers: cut, never overrun */
    for (i = 4090; i < 4102; i++) { static char b[20000], d[4096], di[4096], n[4096], e[4096];
        for (k = 0; k < 3; k++) { h_begin("splitting a component %d of %d bytes", k, i); memset(b, 'a', i); b[i] = 0; if (k == 0) b[i - 1] = '/'; if (k == 2) *b = '.';
            memset(d, 'X', 4096); memset(di, 'X', 4096); memset(n, 'X', 4096); memset(e, 'X', 4096); pBat_SplitPath(b, d, di, n, e);
            char *w = k == 0 ? di : k == 1 ? n : e; int l = i > 4095 ? 4095 : i; if (!memchr(w, 0, 4096) || (int)strlen(w) != l || memcmp(w, b, l)) h_fail("split", "a component of %d bytes", i); } }
    strcpy(lpCurrentDir, "/base");
    strcpy(s, ""); do full(s); while (h_next(s, "a/.", 6));
    for (i = 0; i < 30000; i++) {
        static const char *ns[] = {"NUL", "con", "PRN", "lpt", "COM", "nul.txt", "comx", "LPT1", "com11", "com12", "lpt0", "com-1", "com1x", "LPT 2", "com+3", "com99999999999999999999", "lpt-99999999999999999999", "/dev/null", "lpt01", "conx", "xcon", "/nul", "//a"};
        if (h_rn(3)) strcpy(s, ns[h_rn(23)]); else if (h_rn(2)) sprintf(s, "%s%d", h_rn(2) ? "LpT" : "Com", (int)h_rn(30) - 6); else h_str(s, "ab/.conNULlpt19", 9);
        full(s);
    }
    for (i = 0; i < 300; i++) { int n = h_rn(40) ? h_rn(700) : 4000; memset(t, 'p', n); t[n] = 0; k = 1 + h_rn(600); memset(lpCurrentDir, 'w', k); *lpCurrentDir = '/'; lpCurrentDir[k] = 0; full(t); if (n) { *t = '/'; full(t); } }
    for (i = 240; i < 262; i++) for (k = 240 - i > 1 ? 240 - i : 1; k < 20; k++) { memset(t, 'p', i - k); t[i - k] = 0; memset(lpCurrentDir, 'w', k); *lpCurrentDir = '/'; lpCurrentDir[k] = 0; full(t); }
    strcpy(s, ""); do parts(s); while (h_next(s, "ab:", 7));
    for (i = 0; i < 200; i++) { int n = 0, l = h_rn(3000); while (n < l) t[n++] = h_rn(300) ? 'a' + h_rn(26) : ':'; t[n] = 0; parts(t); }
    for (i = 0; i < 3000; i++) { char a[2100], b[2100], c[2100]; h_str(a, "/ab.", i & 1 ? 5 : 600); h_str(b, "/ab.", 5); h_str(c, "/ab.", 5); join(a, b, c); }
    mkdir("d0", 0755); mkdir("d1", 0755); mkdir("d2", 0755); mkdir("d3", 0755); mkdir("d0/sub", 0755); mkdir("d1/sub", 0755); mkdir("sub", 0755);
    for (k = 0; k < 60; k++) {
        for (i = 0; i < 14; i++) { sprintf(t, "%s/%s%s%s", wd, h_rn(6) ? dirs[h_rn(5)] : ".", "", ""); strcat(t, "/"); strcat(t, nms[h_rn(6)]); strcat(t, exts[h_rn(4)]); if (h_rn(2)) unlink(t); else if ((f = fopen(t, "w"))) fclose(f); }
        for (i = 0; i < 60; i++) lookup(wd);
    }
    return h_end();
}
