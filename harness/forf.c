#define F_SHELL
#include "full.h"
/* FOR /F run by the interpreter against a model of its documentation, and the functions that choose the tokens */
#include "pbat/command/pBat_For.h"
#define MT 8
static int tb[64], te[64], nt;                 /* tokens asked for: from, to (0xffff: all) */
static char opt[400], txt[4000], want[40000], delims[32], eol[16];
static int skip;
static void gtokens(char *o)
{
    int i, k = 1 + h_rn(3), last = 0;
    nt = 0; *o = 0;
    for (i = 0; i < k && nt < MT - 3; i++) {
        int a = 1 + h_rn(5), b = a + h_rn(3), r = h_rn(9); char t[40];
        if (i) strcat(o, h_rn(4) ? "," : ", ");
        if (r < 4) { sprintf(t, "%d", a); tb[nt] = te[nt] = a; nt++; last = a; }
        else if (r < 6) { int j; if (h_rn(6) == 0 && a > 1) b = a - 1; sprintf(t, "%d-%d", a, b); for (j = a; j <= b; j++) { tb[nt] = te[nt] = j; nt++; } last = b; }
        else if (r < 7) { sprintf(t, "%d.%d", a, b); tb[nt] = a; te[nt] = b; nt++; last = b; }
        else if (r < 8) { sprintf(t, "%d.*", a); tb[nt] = a; te[nt] = 0xffff; nt++; strcat(o, t); return; }
        else if (h_rn(2)) { sprintf(t, "%d*", a); tb[nt] = te[nt] = a; nt++; tb[nt] = a + 1; te[nt] = 0xffff; nt++; strcat(o, t); return; }
        else { sprintf(t, "*"); tb[nt] = last + 1; te[nt] = 0xffff; nt++; strcat(o, t); return; }
        strcat(o, t);
    }
}
/* tokens b to e of a line */
static void pick(const char *l, const char *d, int b, int e, char *out)
{
    int n = 0, i = 0, s = -1; *out = 0;
    while (l[i]) {
        while (l[i] && strchr(d, l[i])) i++;
        if (!l[i]) break;
        if (++n == b) s = i;
        while (l[i] && !strchr(d, l[i])) i++;
        if (s >= 0 && n == e) { memcpy(out, l + s, i - s); out[i - s] = 0; return; }
    }
    if (s >= 0) strcpy(out, l + s);
}
static void gline(char *p, int wide)
{
    static const char *A = "abc12 ,:=;-."; int n = h_rn(8) == 0 ? 0 : h_rn(wide ? 40 : 14), i;
    for (i = 0; i < n; i++) p[i] = h_rn(3) ? A[h_rn(5)] : A[5 + h_rn(7)];
    p[n] = 0;
}
static void whole(int it)
{
    char o[200], line[100], *w, script[6000]; int i, j, nl = h_rn(6), str = h_rn(3) == 0, nf = 1 + (!str && h_rn(4) == 0) * (1 + (int)h_rn(2)), skipleft, bq = h_rn(5) == 0; char v0 = "aiA5"[h_rn(4)];
    *txt = 0; strcpy(delims, " \t"); strcpy(eol, ";"); skip = 0; nt = 1; tb[0] = te[0] = 1; strcpy(opt, "");
    { int ord[4] = {0, 1, 2, 3}, first = 1; for (i = 0; i < 4; i++) { int r = h_rn(4), t = ord[i]; ord[i] = ord[r]; ord[r] = t; }
      if (bq) { strcat(opt, "usebackq"); first = 0; }
      for (i = 0; i < 4; i++) {
        static const char *D[] = {",", ":", "=", ",:", ", ", "-", ":;", "a", ""}, *E[] = {"#", "a", "-", "ab", "1,"};
        if (h_rn(2)) continue;
        if (!first) strcat(opt, " ");
        first = 0;
        switch (ord[i]) {
        case 0: strcpy(delims, D[h_rn(9)]); strcat(opt, h_rn(2) ? "delims=" : "DELIMS="); strcat(opt, delims); if (strchr(delims, ';') && !strcmp(eol, ";")) *eol = 0; break;
        case 1: strcpy(eol, E[h_rn(5)]); strcat(opt, "eol="); strcat(opt, eol); break;
        case 2: gtokens(o); strcat(opt, "tokens="); strcat(opt, o); break;
        case 3: skip = h_rn(4); sprintf(opt + strlen(opt), "skip=%d", skip); break;
        } } }
    /* the model */
    skipleft = skip; w = want; *want = 0;
    { int f; char file[4000];
      if (str) nl = 1;
      if (str && bq) str = 2;
      for (f = 0; f < nf; f++) {
        *file = 0;
        for (i = 0; i < nl; i++) {
            int nonl;
            gline(line, 0); if (str) { char *q; while ((q = strpbrk(line, ";"))) *q = 'x'; if (!*line) strcpy(line, "z"); }
            nonl = !str && i == nl - 1 && h_rn(3) == 0;
            strcat(file, line); if (!str && !(nonl && *line)) strcat(file, "\n");
            if (skipleft > 0) { skipleft--; continue; }
            if (*line && strchr(eol, *line)) continue;
            for (j = 0; j < nt; j++) { char t[100]; pick(line, delims, tb[j], te[j], t); w += sprintf(w, "[%s]", t); }
            w += sprintf(w, "\n");
        }
        if (!str) { char n[10]; sprintf(n, "in%d", f); f_put(n, file); }
        else strcpy(txt, file);
      } }
    w += sprintf(w, "end %%%c\n", v0);
    { char *s = script; s += sprintf(s, "@echo off\nfor /F ");
      if (*opt) s += sprintf(s, "\"%s\" ", opt);
      if (str == 2) s += sprintf(s, "%%%%%c in ('%s') do ", v0, txt);
      else if (str) s += sprintf(s, "%%%%%c in (\"%s\") do ", v0, txt);
      else s += sprintf(s, nf == 3 ? "%%%%%c in (in0,in1 in2) do " : nf == 2 ? "%%%%%c in (in0 in1) do " : "%%%%%c in (in0) do ", v0);
      s += sprintf(s, "echo "); 
      if (!nt) { s += sprintf(s, "[]"); }
      for (j = 0; j < nt; j++) s += sprintf(s, "[%%%%%c]", v0 + j);
      s += sprintf(s, "\necho end %%%%%c\n", v0); }
    if (!nt) return;
    { char q[9000], g0[4000] = ""; if (!str) { strcpy(g0, f_get("in0")); } h_esc(q, 8000, script, strlen(script)); h_begin("%s file=%s", q, h_q(g0)); }
    f_run(script, "");
    if (strcmp(f_out, want)) h_fail("forf", "printed |%s| instead of |%s| errors %d last %d %s", h_q(f_out), h_q(want), f_nerr, f_err, f_arg);
}
/* one token of one line, lists of tokens of every size */
static void direct(void)
{
    static FORINFO fi; ESTR *l = pBat_EsInit(), *r = pBat_EsInit(); char line[3000], t[3000], d[4]; int i, n;
    memset(&fi, 0, sizeof fi);
    gline(line, 1); if (h_rn(9) == 0) { for (i = 0; i < 2900; i++) line[i] = "ab, "[h_rn(4)]; line[2900] = 0; }
    strcpy(d, h_rn(2) ? "," : ", "); strcpy(fi.lpDelims, d);
    pBat_EsCpy(l, line);
    for (n = 0; n < 4; n++) {
        int b = 1 + h_rn(h_rn(5) ? 6 : 900), e = h_rn(3) == 0 ? 0xffff : b + h_rn(4) * (int)h_rn(3);
        fi.lpToken[95] = (int)((unsigned)b << 16 | e);
        pick(line, d, b, e, t);
        h_begin("token %d to %d of %s with %s", b, e, h_q(line), h_q(d));
        pBat_ForGetToken(l, &fi, 95, r);
        if (strcmp(r->str, t)) h_fail("token", "is |%s| instead of |%s|", h_q(r->str), h_q(t));
        if (strcmp(l->str, line)) h_fail("token-line", "the line became |%s|", h_q(l->str));
    }
    pBat_EsFree(l); pBat_EsFree(r);
}
/* lists of tokens, valid and malformed: bounds of the table */
static void lists(void)
{
    static FORINFO fi; char o[400]; int r, i, k;
    memset(&fi, 0x5a, sizeof fi); fi.iTokenNb = 1;
    if (h_rn(2)) { int a = 1 + h_rn(3), n = 90 + h_rn(14), x = h_rn(3); nt = 0;
        for (i = 0; i < x; i++) { tb[i] = te[i] = 7; } o[0] = 0; for (i = 0; i < x; i++) strcat(o, "7,");
        sprintf(o + strlen(o), "%d-%d", a, a + n - 1);
        h_begin("tokens=%s", o); f_nerr = 0; r = pBat_ForMakeTokens(o, &fi);
        if ((n + x <= 96) != (r == 0)) h_fail("token-list", "%d sets of tokens: %s", n + x, r ? "rejected" : "accepted");
        if (!r && fi.iTokenNb != n + x) h_fail("token-list", "%d sets of tokens counted as %d", n + x, fi.iTokenNb);
        if (!r) for (i = 0; i < n; i++) if (fi.lpToken[x + i] != (int)((unsigned)(a + i) << 16 | (a + i))) { h_fail("token-list", "token %d is %x", i, fi.lpToken[x + i]); break; }
        return; }
    gtokens(o); k = nt;
    h_begin("tokens=%s", o); r = pBat_ForMakeTokens(o, &fi);
    if (r || fi.iTokenNb != k) { h_fail("token-list", "result %d, %d sets instead of %d", r, fi.iTokenNb, k); return; }
    for (i = 0; i < k; i++) if (fi.lpToken[i] != (int)((unsigned)tb[i] << 16 | te[i])) { h_fail("token-list", "set %d is %x instead of %d to %d", i, fi.lpToken[i], tb[i], te[i]); break; }
}
int main(void)
{
    int i, m = h_thorough ? 8 : 1;
    f_shell("forf");
    for (i = 0; i < 6000 * m; i++) direct();
    for (i = 0; i < 5000 * m; i++) lists();
    for (i = 0; i < 5000 * m; i++) whole(i);
    f_done();
    return h_end();
}
