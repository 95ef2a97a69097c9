#include "full.h"
#include <time.h>
#include <utime.h>
#include <sys/types.h>
/* executable contracts of variables and expansion; PROP 4: special variables, 5: options of %v:...%, 6: expansion */
extern ESTR *pBat_EsInit(void);
static ESTR *R; static char T[64], REL[8][40]; static long long SZ[8]; static time_t AT[8];
static char *B[128], *ARG[128];     /* model: loop variables and arguments */
static char *dup0(const char *s) { return s ? strdup(s) : 0; }
static void setb(LOCAL_VAR_BLOCK *b, char **m, int c, const char *v) { pBat_SetLocalVar(b, c, (char*)v); free(m[c]); m[c] = dup0(v); }

/* ---- model of a special variable at s (after the %): returns bytes consumed, 0 if none */
static const char *FL = "fdnpxzta";
static void m_unquote(char *d, const char *v)
{
    size_t n; const char *e;
    if (*v != '"' && *v != '\'') { strcpy(d, v); return; }
    e = strrchr(v, *v); n = e == v ? strlen(v) - 1 : (size_t)(e - v - 1);
    memcpy(d, v + 1, n); d[n] = 0;
}
static int m_local(char **b, const char *s, char *out)
{
    int i = 0, n; char flags[20] = ""; char name; static char full[9000]; char *sl, *dot; struct stat st;
    if (*s != '~') {
        if (*s <= 0x20 || !b[(int)*s]) return 0;
        strcpy(out, b[(int)*s]); return 1;
    }
    s++;
    while (*s && i < 16 && s[i] && strchr(FL, s[i])) i++;
    if (s[i] > 0x20 && b[(int)s[i]]) n = i;
    else { for (n = i - 1; n >= 0; n--) if (b[(int)s[n]]) break; if (n < 0) return 0; }
    memcpy(flags, s, n); flags[n] = 0; name = s[n];
    m_unquote(out, b[(int)name]);
    if (!n) return n + 2;
    if (name == '0') strcpy(full, ifIn.lpFileName); else if (*out == '/') strcpy(full, out); else sprintf(full, "%s/%s", lpCurrentDir, out);
    memset(&st, 0, sizeof st); stat(full, &st);
    *out = 0; sl = strrchr(full, '/'); dot = sl ? strrchr(sl, '.') : 0;
    for (i = 0; i < n; i++) {
        char nx = flags[i + 1]; struct tm tm; char tb[80]; int tab = nx != 0;
        switch (flags[i]) {
        case 'f': strcat(out, full); break;
        case 'd': tab = nx && nx != 'p'; break;
        case 'p': sprintf(out + strlen(out), "%.*s", (int)(sl + 1 - full), full); tab = nx && nx != 'n'; break;
        case 'n': sprintf(out + strlen(out), "%.*s", (int)((dot ? dot : sl + strlen(sl)) - sl - 1), sl + 1); tab = nx && nx != 'x'; break;
        case 'x': strcat(out, dot ? dot : ""); break;
        case 'z': sprintf(out + strlen(out), "%lld", (long long)st.st_size); break;
        case 't': localtime_r(&st.st_atime, &tm); strftime(tb, 80, "%x %X", &tm); strcat(out, tb); break;
        case 'a': strcat(out, S_ISDIR(st.st_mode) ? "D      " : "       "); break;
        }
        if (tab) strcat(out, "\t");
    }
    return n + 2;
}
/* ---- model of %name% */
static const char *NM[] = {"foo","Bar","e x","2cent","x","long","~q", 0}; static const char *NV[] = {"Hello world","abcabc","v","two","","0123456789abcdefghijklmnopqrstuvwxyz", "tilde"};
static char *ev(const char *n) { int i; static char eb[30];
    if (!strcasecmp(n, "CD")) return lpCurrentDir;
    if (!strcasecmp(n, "ERRORLEVEL")) { sprintf(eb, "%d", iErrorLevel); return eb; }
    for (i = 0; NM[i]; i++) if (*NV[i] && !strcasecmp(n, NM[i])) return (char*)NV[i]; return 0; }
static int m_var(const char *name, char *out)
{
    char n[9000]; char *c, *e, *v, *o; long long b, l, N;
    strcpy(n, name); *out = 0; o = out;
    if (!(c = strchr(n, ':'))) { v = ev(n); if (!v) return 0; strcpy(out, v); return 1; }
    *c++ = 0; v = ev(n);
    if ((e = strchr(c, '='))) {
        size_t k; if (!v) return 0; *e++ = 0; k = strlen(c);
        while (*v) if (k && !strncmp(v, c, k)) { strcpy(o, e); o += strlen(e); v += k; } else *o++ = *v++;
        *o = 0; return 1;
    }
    if (*c == '~') {
        if (!v) return 0; N = strlen(v); e = strchr(++c, ','); b = strtoll(c, 0, 10); l = e ? strtoll(e + 1, 0, 10) : 0;
        if (b < 0) b += N;
        if (b < 0 || b > N) return 1;
        if (l > 0) { if (b + l > N) return 1; e = v + b + l; } else { if (N + l < b) return 1; e = v + N + l; }
        sprintf(out, "%.*s", (int)(e - v - b), v + b); return 1;
    }
    strcpy(out, v ? v : c); return 1;
}
/* ---- model of expansion */
static const char *find(const char *s, char d) { const char *p; int c = 0; for (p = s; *p; p++) { if (*p == d && !(c & 1)) return p; c = *p == '^' ? c + 1 : 0; } return 0; }
static char *uncaret(char *o, const char *s, size_t n) { size_t i; for (i = 0; i < n; i++) { if (s[i] == '^') { if (++i >= n) break; } *o++ = s[i]; } *o = 0; return o; }
static void m_expand(const char *s, char d, int del, char *o)
{
    const char *p, *q; int k; static char v[20000], nm[9000];
    while ((p = find(s, d))) {
        if (del) o = uncaret(o, s, p - s); else { memcpy(o, s, p - s); o += p - s; }
        *o = 0; p++;
        if (*p == d) { *o++ = d; s = p + 1; }
        else if (d == '%' && ((*p >= '0' && *p <= '9') || *p == '*' || *p == '+' || *p == '~') && (k = m_local(ARG, p, v))) { strcpy(o, v); o += strlen(o); s = p + k; }
        else if ((q = find(p, d))) { memcpy(nm, p, q - p); nm[q - p] = 0; if (m_var(nm, v)) { strcpy(o, v); o += strlen(o); } s = q + 1; }
        else s = p;
    }
    if (del) o = uncaret(o, s, strlen(s)); else { strcpy(o, s); o += strlen(s); }
    *o = 0;
}
static void m_special(const char *s, char *o)
{
    const char *p, *t = s; int k; static char v[20000];
    /* a % that starts no defined variable is kept; scanning restarts after it */
    while ((p = find(t, '%'))) {
        if ((k = m_local(B, p + 1, v))) { memcpy(o, s, p - s); o += p - s; strcpy(o, v); o += strlen(o); s = t = p + 1 + k; }
        else t = p + 1;
    }
    strcpy(o, s);
}
static char *buf(const char *s) { return h_dup(s); }
static void check_local(const char *s)
{
    static char w[20000]; char *p, *in = buf(s); int k = m_local(B, s, w);
    p = pBat_GetLocalVar(lpvLocalVars, in, R);
    if ((p ? p - in : 0) != k) h_fail("local", "consumed %ld, want %d", (long)(p ? p - in : 0), k);
    else if (k && strcmp(R->str, w)) h_fail(strchr(s, '~') ? "modifier" : "local", "value \"%s\", want \"%s\"", h_q(R->str), h_q(w));
    if (strcmp(in, s)) h_fail("local", "text changed to %s", h_q(in));
    free(in);
}
static void check_var(const char *s)
{
    static char w[20000]; char *in = buf(s); int k = m_var(s, w), r; char *c = strchr(in, ':'), save[100], nm[9000], *g;
    pBat_EsCpy(R, "junk"); r = pBat_GetVar(in, R);
    if (!r != !k) h_fail("defined", "%%%s%%: returns %d, want %d", h_q(s), r, k);
    else if (r && strcmp(R->str, w)) h_fail("value", "%%%s%%: \"%s\", want \"%s\"", h_q(s), h_q(R->str), h_q(w));
    if (strcmp(in, s)) h_fail("value", "name changed to %s", h_q(in));
    { int i; for (i = 0; NM[i]; i++) { g = pBat_GetEnv(lpeEnv, (char*)NM[i]); if (*NV[i] ? !g || strcmp(g, NV[i]) : !!g) h_fail("unchanged", "%%%s%% changes variable %s to %s", h_q(s), NM[i], h_q(g)); } }
    if (strncmp(lpCurrentDir, T, strlen(T))) h_fail("unchanged", "current directory changed to %s", h_q(lpCurrentDir));
    free(in);
}
static void check_conv(const char *s)
{
    static char w[40000], x[40000]; int del = bDelayedExpansion;
    pBat_EsCpy(R, (char*)s); m_expand(s, '%', 0, w); pBat_ReplaceVars(R);
    if (strcmp(R->str, w)) { h_fail("percent", "\"%s\" expands to \"%s\", want \"%s\"", h_q(s), h_q(R->str), h_q(w)); return; }
}
static void check_del(const char *s)
{
    static char w[40000], x[40000];
    m_special(s, x); if (bDelayedExpansion) m_expand(x, '!', 1, w); else uncaret(w, x, strlen(x));
    pBat_EsCpy(R, (char*)s); pBat_DelayedExpand(R);
    if (strcmp(R->str, w)) h_fail(bDelayedExpansion ? "delayed" : "special", "\"%s\" expands to \"%s\", want \"%s\"", h_q(s), h_q(R->str), h_q(w));
}
static void files(void)
{
    static const char *n[] = {"a.txt","noext","d.x.y","sub","sub/in.bat",".hid","big"}; int i; char p[200]; FILE *f; struct utimbuf u;
    strcpy(T, "/tmp/pbhXXXXXX"); if (!mkdtemp(T)) exit(3);
    strcpy(lpCurrentDir, T);
    for (i = 0; i < 7; i++) {
        sprintf(p, "%s/%s", T, n[i]); strcpy(REL[i], n[i]);
        if (i == 3) mkdir(p, 0755);
        else { f = fopen(p, "w"); fprintf(f, "%*s", i * 7, ""); fclose(f); if (i == 6) { if (truncate(p, 5000000000ll)) perror(p); }
            u.actime = 1000000000 + i * 86400 * 40; u.modtime = u.actime + 5; utime(p, &u); }
    }
}
static void cleanup(void) { char c[200]; if (!strncmp(T, "/tmp/pbh", 8)) { sprintf(c, "rm -r -- '%s'", T); if (system(c)) return; } }
static void local_vars(void)
{
    int i, c; char v[300], s[60], *m[128] = {0}; LOCAL_VAR_BLOCK *d;
    /* names */
    for (c = -128; c < 128; c++) { h_begin("name %d", c); if (!pBat_TestLocalVarName((char)c) != (c > 0x20)) h_fail("name", "character %d", c); }
    /* histories of set / get / duplicate */
    for (i = 0; i < 20000; i++) {
        char before[300]; c = (int)h_rn(256) - 128; if (h_rn(2)) c = "af~0*"[h_rn(5)];
        h_str(v, "ab \"'%", h_rn(5) ? 8 : 280); h_begin("set %d=%s", c, v);
        if (h_rn(4) == 0) { pBat_SetLocalVar(lpvLocalVars, c, 0); if (c > 0x20) { free(B[c]); B[c] = 0; } }
        else { pBat_SetLocalVar(lpvLocalVars, c, v); if (c > 0x20) { free(B[c]); B[c] = strdup(v); } }
        if (h_rn(8) == 0 && c > 0x20 && B[c]) { pBat_SetLocalVar(lpvLocalVars, c, pBat_GetLocalVarPointer(lpvLocalVars, c)); }
        memset(v, 'z', 3);
        if (i % 50 == 0) { d = pBat_DuplicateLocalVar(lpvLocalVars); for (c = 0x21; c < 128; c++) { if (!d[c] != !B[c] || (d[c] && (strcmp(d[c], B[c]) || d[c] == lpvLocalVars[c]))) h_fail("duplicate", "variable %c of the copy is %s", c, h_q(d[c])); }
            if (B['a']) { pBat_SetLocalVar(d, 'a', "other"); if (strcmp(lpvLocalVars['a'], B['a'])) h_fail("duplicate", "copy shares storage"); } pBat_FreeLocalBlock(d); }
        if (i % 10 == 0) for (c = -128; c < 128; c++) { char *g = pBat_GetLocalVarPointer(lpvLocalVars, c), *w = c > 0x20 ? B[c] : 0; if (!g != !w || (g && strcmp(g, w))) h_fail("get", "variable %d is %s, want %s", c, h_q(g), h_q(w)); }
    }
    for (c = 0x21; c < 128; c++) setb(lpvLocalVars, B, c, 0);
    /* all short texts over a few defined / undefined names; longest match */
    setb(lpvLocalVars, B, 'a', "a.txt"); setb(lpvLocalVars, B, 'I', "\"sub/in.bat\""); setb(lpvLocalVars, B, 'q', "'it''s'x"); setb(lpvLocalVars, B, 'e', ""); setb(lpvLocalVars, B, 'Q', "\"");
    for (*s = 0; h_next(s, "~faInp ", 5); ) { h_begin("text %s", s); check_local(s); }
    setb(lpvLocalVars, B, 'f', "noext"); setb(lpvLocalVars, B, '~', "tilde"); setb(lpvLocalVars, B, '0', "label");
    for (*s = 0; h_next(s, "~faInx0\x81", 4); ) { h_begin("text %s", h_q(s)); check_local(s); }
    for (*s = 0; h_next(s, FL, 3); ) { static char t[40]; sprintf(t, "~%sI rest", s); h_begin("text %s", t); check_local(t); sprintf(t, "~%s0", s); h_begin("text %s", t); check_local(t); }
    for (i = 0; i < (h_thorough ? 200000 : 20000); i++) {
        static const char *W[] = {"a.txt","noext","d.x.y","sub","sub/in.bat",".hid","big","sub/../a.txt","'noext'","\"a.txt\"","\"a.txt\"x","\"un","''","missing/file.z","/","/tmp"}; int n; char t[80];
        n = h_rn(24); s[0] = '~'; for (c = 0; c < n; c++) s[1 + c] = FL[h_rn(8)]; s[1 + n] = "Iaeq0~^\" "[h_rn(9)]; strcpy(s + 2 + n, h_rn(2) ? "" : "fI x");
        c = "Iafnt"[h_rn(5)]; setb(lpvLocalVars, B, c, h_rn(4) ? W[h_rn(16)] : 0);
        h_begin("text %s with %c=%s", s, c, B[c]); 
        { /* names with carets or missing files: only size/time/attributes of a missing file are left open */ }
        check_local(s);
    }
    /* long values */
    { char big[9000]; int n; for (n = 100; n < 3900; n += 61) { memset(big, 'x', n); big[n] = 0; big[n / 2] = '/'; big[n - 3] = '.'; setb(lpvLocalVars, B, 'I', big); h_begin("value of %d bytes", n); check_local("~fI"); check_local("~I"); check_local("I"); check_local("~nxI"); check_local("~dpnxI"); check_local("~zI"); } }
}
static void options(void)
{
    int i; char s[300]; long b, l;
    for (i = 0; NM[i]; i++) { char k[40], v[80]; strcpy(k, NM[i]); strcpy(v, NV[i]); pBat_SetEnv(lpeEnv, k, v); }
    for (b = -13; b <= 13; b++) for (l = -13; l <= 13; l++) { sprintf(s, "foo:~%ld,%ld", b, l); h_begin("%s", s); check_var(s); sprintf(s, "BAR:~%ld", b); h_begin("%s", s); check_var(s); }
    { static const long X[] = {0,1,-1,5,-5,11,-11,12,2147483647,-2147483647,-2147483647-1,2147483640}; int j; for (i = 0; i < 12; i++) for (j = 0; j < 12; j++) { sprintf(s, "foo:~%ld,%ld", X[i], X[j]); h_begin("%s", s); check_var(s); } }
    for (i = 0; i < (h_thorough ? 400000 : 40000); i++) {
        const char *n = NM[h_rn(7)]; char t[60]; int k = h_rn(8);
        if (h_rn(6) == 0) n = h_rn(2) ? "none" : h_rn(2) ? "errorlevel" : "cd"; iErrorLevel = h_rn(3000) - 1500;
        if (k == 0) strcpy(s, n); else if (k < 3) sprintf(s, "%s:~%d%s%d", n, (int)h_rn(90) - 45, h_rn(8) ? "," : " ", (int)h_rn(90) - 45);
        else if (k < 6) { char a[20], c[20]; h_str(a, "abc oHel~", 4); h_str(c, "xab:=~,", 6); sprintf(s, "%s:%s=%s", n, a, c); }
        else if (k == 6) sprintf(s, "%s:%s", n, h_str(t, "de~: ,a", 7));
        else h_str(s, "foBar:~,=1-", 10);
        h_begin("%s", s); check_var(s);
    }
    for (i = 1; i < 3000; i += 97) { static char v[4000]; char k[] = "long"; int j; for (j = 0; j < i; j++) v[j] = 'a' + j % 26; v[i] = 0; NV[5] = v; pBat_SetEnv(lpeEnv, k, v); sprintf(s, "long:~%d,%d", (int)h_rn(i), (int)h_rn(i) + 1); h_begin("%s of %d", s, i); check_var(s); sprintf(s, "LONG:~-%d", (int)h_rn(i)); check_var(s); check_var("long:a=AAAA"); check_var("long"); }
}
static void expansion(void)
{
    int i, c; char s[400];
    for (i = 0; NM[i]; i++) { char k[40], v[80]; strcpy(k, NM[i]); strcpy(v, NV[i]); pBat_SetEnv(lpeEnv, k, v); }
    { char k[] = "p", v[] = "%foo%!bar!^^"; NM[4] = "p"; NV[4] = v; pBat_SetEnv(lpeEnv, k, v); 
    setb(lpvArguments, ARG, '1', "one"); setb(lpvArguments, ARG, '0', "script"); setb(lpvArguments, ARG, '*', "one \"t o\" 3"); setb(lpvArguments, ARG, '2', "\"t o\""); setb(lpvArguments, ARG, '3', ""); setb(lpvArguments, ARG, '+', "rest");
    setb(lpvLocalVars, B, 'i', "item"); setb(lpvLocalVars, B, 'p', "%p%^a"); setb(lpvLocalVars, B, 'Z', "!foo!"); setb(lpvLocalVars, B, '%', 0);
    for (c = 0; c < 3; c++) {
        bDelayedExpansion = c & 1;
        if (c == 2) setb(lpvLocalVars, B, '%', "pc");
        for (*s = 0; h_next(s, "%^!1p~", h_thorough ? 7 : 6); ) { h_begin("%s (delayed %d)", s, bDelayedExpansion); if (c < 2) check_conv(s); check_del(s); }
        for (*s = 0; h_next(s, "%i*:p ", 5); ) { h_begin("%s (delayed %d)", s, bDelayedExpansion); if (c < 2) check_conv(s); check_del(s); }
    }
    for (i = 0; i < (h_thorough ? 300000 : 30000); i++) {
        static const char *P[] = {"%","!","^","%foo%","!foo!","%Bar:a=x%","!foo:~1,3!","%%i","%1","%*","%9","%~2"," ","text","%none%","%none:def%","%2cent%","!!","%%","^%","^!","%Z","%errorlevel%","!cd!","%~q%","%%~ni","\t","\"","&","|"}; int n = h_rn(12); *s = 0;
        while (n--) strcat(s, P[h_rn(30)]);
        bDelayedExpansion = h_rn(2); h_begin("%s (delayed %d)", s, bDelayedExpansion); check_conv(s); check_del(s);
    }
    /* long lines */
    for (i = 1; i < 700; i += 13) { static char l[70000], w[70000]; int k; *l = 0; for (k = 0; k < i; k++) strcat(l, k % 3 ? "%foo% " : "long%1"); bDelayedExpansion = 0; h_begin("line of %d variables", i); check_conv(l); }
    }
}
/* ---- definitions: $1..$9 and $* replaced by the parameters */
int main(void)
{
    f_init(); R = pBat_EsInit(); files(); atexit(cleanup);
    if (!lpvArguments) lpvArguments = pBat_GetLocalBlock(); if (!lpvLocalVars) lpvLocalVars = pBat_GetLocalBlock();
    { int c; for (c = 0; c < 128; c++) { lpvArguments[c] = 0; lpvLocalVars[c] = 0; } }
    snprintf(ifIn.lpFileName, sizeof ifIn.lpFileName, "%s/sub/in.bat", T);
    bDelayedExpansion = 0;
#if PROP == 4
    local_vars();
#elif PROP == 5
    options();
#else
    expansion();
#endif
    return h_end();
}
