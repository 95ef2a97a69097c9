#define F_SHELL
#include "full.h"
/* executable contracts of argument splitting, the arguments of a call and SHIFT */
extern ESTR *pBat_EsInit(void);
extern int pBat_CmdShift(char*);
static ESTR *R;
static int blank(int c) { return c == ' ' || c == '\t' || c == ';' || c == ','; }
/* next parameter of s from *pos: text in out; 1 found, 0 none, -1 left unspecified (escaped quote before a delimiter) */
static int m_param(const char *s, int *pos, char *out)
{
    int i, b, e, q, n = strlen(s), eol;
again:
    for (i = *pos; blank(s[i]); i++);
    if (!s[i]) return 0;
    for (b = i, eol = 1; i < n; ) {
        if (s[i] == '^') { i += i + 1 < n ? 2 : 1; continue; }
        if (s[i] == '"') {
            for (i++; i < n && s[i] != '"'; i++) if (s[i] == '^' && i + 1 < n) i++;
            if (i < n) i++;
            continue;
        }
        if (blank(s[i]) || s[i] == '\n') { eol = 0; break; }
        i++;
    }
    e = i; *pos = e;
    q = b;
    if (s[b] == '"') {
        int last = -1, k;
        q = b + 1;
        for (k = q; k < e; k++) { if (s[k] == '^' && k + 1 < e) k++; else if (s[k] == '"') last = k; }
        if (last == e - 1) e--;
        else if (!eol && s[e - 1] == '"') return -1;
    }
    if (e - q == 1 && s[q] == '^') goto again;
    for (i = q, b = 0; i < e; i++) { if (s[i] == '^') { if (++i < e) out[b++] = s[i]; } else out[b++] = s[i]; }
    out[b] = 0;
    return 1;
}
static void check_split(const char *t)
{
    char *l = h_dup(t), *p = l, *r; int pos = 0, k, k2; char out[700]; struct PARAMLIST *pl = 0, *it; int first = 1, bad = 0;
    h_begin("parameters of |%s|", h_q(t));
    for (;;) {
        k = m_param(t, &pos, out);
        if (k < 0) { free(l); h_d--; return; }
        r = pBat_GetNextParameterEs(p, R);
        if (strcmp(l, t)) { h_fail("args-split", "the line was changed"); break; }
        if (!k != !r) { h_fail("args-split", "%s a parameter after %d characters", r ? "found" : "missed", (int)(p - l)); bad = 1; break; }
        if (!k) break;
        if (strcmp(R->str, out)) { h_fail("args-split", "parameter |%s| instead of |%s|", h_q(R->str), h_q(out)); bad = 1; break; }
        if (r - l != pos) { h_fail("args-split", "continues at %d instead of %d", (int)(r - l), pos); bad = 1; break; }
        p = r;
    }
    if (!bad) {
        it = pl = pBat_GetParamList(l); pos = 0;
        for (;; it = it->next) {
            k2 = m_param(t, &pos, out);
            if (!k2 != !it) { h_fail("args-list", "list too %s", it ? "long" : "short"); break; }
            if (!it) break;
            if (strcmp(it->param->str, out)) { h_fail("args-list", "item |%s| instead of |%s|", h_q(it->param->str), h_q(out)); break; }
        }
        pBat_FreeParamList(pl);
    }
    (void)first;
    free(l);
}
/* ---- arguments of a script and SHIFT: model = list of all arguments */
static char A[40][60]; static int NA; static char ST[700];
static void m_args(const char *tail)
{
    int pos = 0;
    for (NA = 0; NA < 40 && m_param(tail, &pos, A[NA]) > 0; NA++);
}
static char W[10][60]; static int first_rest;   /* %0..%9; index of the first argument not yet in W */
static void m_shift(int s, int d)
{
    int i, skip = s + d - 10;
    if (s + d < 10) { for (i = s; i + d < 10; i++) strcpy(W[i], W[i + d]); }
    else i = s;
    if (i < 10) while (skip-- > 0) first_rest++;
    for (; i < 10; i++) { if (first_rest < NA) strcpy(W[i], A[first_rest]); else *W[i] = 0; first_rest++; }
    if (first_rest > NA) first_rest = NA;
}
static LOCAL_VAR_BLOCK BA[128], BV[128];
static int seen_err;
static const char *tailarg(char *d)
{
    static const char *PC[] = {"a","bb","1","\"x y\"","c^ d","e^;f","g","h\"i j\"k","\"\"","-l","p=q","\"m","n\"o","x^\"y"};
    int n = h_rn(16), i; *d = 0;
    for (i = 0; i < n; i++) { strcat(d, PC[h_rn(i == n - 1 ? 14 : 11)]); if (i < n - 1) strcat(d, h_rn(4) ? " " : h_rn(2) ? "," : " ; "); }
    return d;
}
static void sh(char *cmd, int *s, int *d)
{
    char b[40]; *s = 0; *d = 1; strcpy(cmd, "shift");
    switch (h_rn(7)) {
    case 0: break;
    case 1: case 2: *s = h_rn(10); sprintf(b, " /%d", *s); strcat(cmd, b); break;
    case 3: *s = h_rn(10); sprintf(b, h_rn(2) ? " /s:%d" : " /s%d", *s); strcat(cmd, b); break;
    case 4: *d = h_rn(10); sprintf(b, h_rn(2) ? " /d:%d" : " /d%d", *d); strcat(cmd, b); break;
    default: *s = h_rn(10); *d = h_rn(10); sprintf(b, h_rn(2) ? " /s:%d /d:%d" : " /%d /d%d", *s, *d); strcat(cmd, b);
    }
}
static const char *plus(char *d)   /* re-split %+ */
{
    static char o[60]; int pos = 0, i = first_rest; const char *p = BA['+'];
    if (!p) return i < NA ? "nothing" : 0;
    for (;;) { char e[700]; int k = m_param(p, &pos, e);
        if (!k) { if (i < NA) { sprintf(d, "%d arguments missing", NA - i); return d; } return 0; }
        if (i >= NA) { sprintf(d, "extra |%.50s|", e); return d; }
        if (strcmp(e, A[i])) { sprintf(d, "|%.60s| instead of |%.60s|", e, A[i]); return d; }
        i++; }
    return o;
}
static const char *gv(const char *n) { char b[40]; const char *v; strcpy(b, n); v = pBat_GetEnv(lpeEnv, b); return v ? v : ""; }

static void callcase(int viafile)
{
    char sc[3000], tail[700], cmd[60], line[900], star[700], b[80]; int s[4], d[4], n = h_rn(4), i, k, r;
    tailarg(tail); if (!h_rn(4) && *tail) { int z = strlen(tail), q = 0; while (q < z && tail[z - 1 - q] == 94) q++; if (q % 2 == 0) strcat(tail, h_rn(2) ? "  " : "\t"); } m_args(tail);
    if (viafile) strcpy(sc, "@echo off\n");
    else { sprintf(sc, "@echo off\ncall :sub %s\ngoto end\n:sub\n", tail); }
    strcat(sc, "set star=%*\n");
    sprintf(ST, "%s(%s)", viafile ? "call script " : "call :label ", tail);
    for (r = 0; r <= n; r++) {
        for (i = 1; i < 10; i++) { sprintf(b, "set v%d_%d=[%%%d]\n", r, i, i); strcat(sc, b); }
        if (r < n) { sh(cmd, &s[r], &d[r]); strcat(sc, cmd); strcat(sc, "\n"); strcat(ST, ";"); strcat(ST, cmd); }
    }
    if (viafile) ; else strcat(sc, "goto eof\n:end\n");
    if (!viafile) strcat(sc, ":eof\n");
    h_begin("%s", ST);
    for (r = 0; r < 4; r++) for (i = 1; i < 10; i++) { sprintf(b, "v%d_%d", r, i); pBat_UnSetEnv(lpeEnv, b); }
    strcpy(b, "star"), pBat_UnSetEnv(lpeEnv, b);
    f_run(sc, viafile ? tail : "");
    if (f_nerr) { h_fail("args-call", "error %d on %s", f_err, f_arg); return; }
    { char *o = star; const char *p = tail, *g = gv("star"); while (blank(*p)) p++; while (blank(*g)) g++;
      for (; *p; p++) { if (*p == '^' && p[1]) p++; *o++ = *p; } *o = 0;
      if (strcmp(star, g)) { h_fail("args-call", "%%* is |%s| instead of |%s|", h_q(g), h_q(star)); return; } }
    for (i = 0; i < 10; i++) *W[i] = 0;
    for (i = 1; i < 10 && i - 1 < NA; i++) strcpy(W[i], A[i - 1]);
    first_rest = NA < 9 ? NA : 9;
    for (r = 0; r <= n; r++) {
        for (i = 1; i < 10; i++) {
            sprintf(b, "v%d_%d", r, i); k = strlen(gv(b)); sprintf(line, "[%s]", W[i]);
            if (strcmp(gv(b), line)) { h_fail("args-call", "%%%d is %s instead of %s after %d SHIFTs", i, h_q(gv(b)), h_q(line), r); return; }
        }
        if (r < n) m_shift(s[r], d[r]);
    }
}
int main(void)
{
    static char s[16], cmd[60], tail[700], b[900]; int i, k, n, it, S, D; char *p;
    f_shell("args"); R = pBat_EsInit(); bDelayedExpansion = 0;
    for (*s = 0;;) { check_split(s); if (!h_next(s, "a\"^ ", h_thorough ? 8 : 7)) break; }
    for (*s = 0;;) { check_split(s); if (!h_next(s, "ab\"^ ;,\t=", h_thorough ? 6 : 5)) break; }
    for (i = 0; i < 15000; i++) { h_str(b, "abc\"^ ;,\t=/|&<(", 1 + h_rn(200)); check_split(b); }
    /* SHIFT on the block itself */
    lpvArguments = BA; lpvLocalVars = BV;
    for (it = 0; it < 4000; it++) {
        ESTR *e = pBat_EsInit(); char *q;
        n = h_rn(22); NA = n;
        for (i = 0; i < n; i++) { static const char *V[] = {"a","b c","","\"","^","x;y","%p","!q","p,","longer\tone", "z^^"}; strcpy(A[i], V[h_rn(11)]); sprintf(A[i] + strlen(A[i]), h_rn(5) ? "%d" : "", i); }
        pBat_SetLocalVar(BA, '0', "prog"); strcpy(W[0], "prog"); pBat_SetLocalVar(BA, '*', "whole tail");
        for (i = 1; i < 10; i++) { strcpy(W[i], i - 1 < NA ? A[i - 1] : ""); pBat_SetLocalVar(BA, '0' + i, W[i]); }
        first_rest = NA < 9 ? NA : 9;
        for (i = first_rest; i < NA; i++) {
            if (!*A[i]) pBat_EsCat(e, "\"\"");
            for (q = A[i]; *q; q++) { char c[3] = {*q, 0}; if (strchr("^%! ;,\t\"", *q)) pBat_EsCat(e, "^"); pBat_EsCat(e, c); }
            pBat_EsCat(e, " ");
        }
        pBat_SetLocalVar(BA, '+', e->str); pBat_EsFree(e);
        sprintf(ST, "%d arguments", n);
        for (k = 0; k < 4; k++) {
            sh(cmd, &S, &D); sprintf(ST + strlen(ST), ";%s", cmd); h_begin("%s", ST);
            f_nerr = 0; p = h_dup(cmd); pBat_CmdShift(p); free(p);
            if (f_nerr) { h_fail("args-shift", "error %d on %s", f_err, f_arg); break; }
            m_shift(S, D);
            for (i = 0; i < 10; i++) if (!BA['0' + i] || strcmp(BA['0' + i], W[i])) { h_fail("args-shift", "%%%d is |%s| instead of |%s|", i, h_q(BA['0' + i]), h_q(W[i])); break; }
            if (i < 10) break;
            if (plus(b)) { h_fail("args-shift", "%%+ is |%s|: %s", h_q(BA['+']), b); break; }
            if (strcmp(BA['*'], "whole tail")) { h_fail("args-shift", "%%* changed"); break; }
        }
    }
    /* unknown switches: an error, and nothing moves */
    { static const char *BAD[] = {"shift /d:","shift /d:x","shift /s12","shift x","shift /q","shift /d:11","shift /1 y"};
      for (i = 0; i < 7; i++) { for (k = 0; k < 10; k++) { sprintf(b, "w%d", k); pBat_SetLocalVar(BA, '0' + k, b); }
        h_begin("%s", BAD[i]); f_nerr = 0; p = h_dup(BAD[i]); k = pBat_CmdShift(p); free(p);
        if (!f_nerr || !k) h_fail("args-shift", "accepted");
        for (k = 0; k < 10; k++) { sprintf(b, "w%d", k); if (strcmp(BA['0' + k], b)) h_fail("args-shift", "moved arguments"); } } }
    /* whole calls */
    for (i = 0; i < (h_thorough ? 2000 : 400); i++) callcase(i & 1);
    f_done();
    return h_end();
}
