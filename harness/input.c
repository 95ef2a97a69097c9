#define F_SHELL
#include "full.h"
/* executable contract of redirected input: random scripts that read lines from files, pipes and the input of the script, nested in each other */
static char F[4][12][12]; static int FN[4];                      /* 3: the input of the script */
static char T[30000], *o, W[60000], *w; static char V[3][12];
typedef struct { char (*l)[12]; int n, pos; } IN; static IN st[40]; static int sp;
static int nstm, pno, nfor, nopipe; /* programs are started before there are threads */ static char PL[60][4][12];
typedef struct M { int k, v, f, n, f2; struct M *c[4]; } M; static M pool[300]; static int np;
static M *gen(int d, int sub)
{
    M *m = &pool[np++ % 300]; int i; memset(m, 0, sizeof *m); m->v = h_rn(3); m->f = h_rn(5) < 2 ? -1 : (int)h_rn(3);
    m->k = d <= 0 || nstm++ > 10 ? 0 : h_rn(9); if (m->k > 6 || m->k == (nopipe ? 4 : 6)) m->k = 0; if (m->k == 2 && sub) m->k = 0; if (m->k == 4 && pno > 40) m->k = 0;
    if (m->k == 1 || m->k == 3 || m->k == 4) { m->n = 1 + h_rn(3); for (i = 0; i < m->n; i++) m->c[i] = gen(d - 1, sub); }
    if (m->k == 4) { m->f = pno++; m->f2 = h_rn(3); for (i = 0; i < 3; i++) sprintf(PL[m->f][i], "p%d_%d", m->f, i); }
    return m;
}
static void pr(const char *s) { strcpy(o, s); o += strlen(s); }
static void in(int f) { if (f >= 0) o += sprintf(o, "%s<%si%d", h_rn(2) ? " " : "", h_rn(3) ? "" : " ", f); }
static void print(M *m)
{
    int i;
    switch (m->k) {
    case 0: if (m->f >= 0 && !h_rn(3)) { o += sprintf(o, "<i%d set /p v%d=\n", m->f, m->v); } else { o += sprintf(o, "set /p v%d=", m->v); if (m->f >= 0) o += sprintf(o, "<%si%d", h_rn(3) ? "" : " ", m->f); pr("\n"); } o += sprintf(o, "echo %d !v%d!.\n", m->v, m->v); break;
    case 1: pr("(\n"); for (i = 0; i < m->n; i++) print(m->c[i]); pr(")"); in(m->f); pr("\n"); break;
    case 2: pr("call :sub"); in(m->f); pr("\n"); break;
    case 3: o += sprintf(o, "for %%%%%c in (1 2) do (\n", nfor < 26 ? 'a' + nfor++ : 'A' + nfor++ - 26); for (i = 0; i < m->n; i++) print(m->c[i]); pr(")\n"); break;
    case 4: pr("("); for (i = 0; i <= m->f2; i++) o += sprintf(o, "%secho %s", i ? "&" : "", PL[m->f][i]); pr(")|(\n"); for (i = 0; i < m->n; i++) print(m->c[i]); pr(")\n"); break;
    case 6: pr("cat"); in(m->f); pr("\n"); break;
    case 5: o += sprintf(o, "type i%d>nul", m->v); in(m->f); pr("\n"); break;
    }
}
static M *sub[3]; static int nsub;
static void run(M *m)
{
    int i, j, s = sp;
    if (m->k == 4) { st[++sp].l = PL[m->f]; st[sp].n = m->f2 + 1; st[sp].pos = 0; }
    else if (m->k != 3 && m->f >= 0) { st[++sp].l = F[m->f]; st[sp].n = FN[m->f]; st[sp].pos = 0; }
    switch (m->k) {
    case 0: strcpy(V[m->v], st[sp].pos < st[sp].n ? st[sp].l[st[sp].pos++] : ""); sp = s; w += sprintf(w, "%d %s.\n", m->v, V[m->v]); break;
    case 1: case 4: for (i = 0; i < m->n; i++) run(m->c[i]); break;
    case 2: for (i = 0; i < nsub; i++) run(sub[i]); break;
    case 6: while (st[sp].pos < st[sp].n) w += sprintf(w, "%s\n", st[sp].l[st[sp].pos++]); break;
    case 3: for (j = 0; j < 2; j++) for (i = 0; i < m->n; i++) run(m->c[i]); break;
    }
    sp = s;
}
int main(void)
{
    int it, i, j, n, N = h_thorough ? 8000 : 1500; M *m[6]; char b[40], all[2000];
    f_shell("input");
    for (it = 0; it < N; it++) {
        np = nstm = pno = nfor = 0; nopipe = it < N / 4; n = 1 + h_rn(5); nsub = 1 + h_rn(2);
        for (i = 0; i < 4; i++) {
            FN[i] = i == 3 ? 12 : (int)h_rn(6); *all = 0;
            for (j = 0; j < FN[i]; j++) { sprintf(F[i][j], "%c%d%.*s", "abcm"[i], j, (int)h_rn(6), "xyzxyz"); strcat(all, F[i][j]); strcat(all, "\n"); }
            if (i < 3) { sprintf(b, "i%d", i); f_put(b, all); } else { f_put("../ans", all); if (fInput) fclose(fInput); fInput = fopen("../ans", "r"); }
        }
        for (i = 0; i < nsub; i++) sub[i] = gen(1, 1);
        for (i = 0; i < n; i++) m[i] = gen(3, 0);
        o = T; pr("@echo off\nsetlocal enabledelayedexpansion\n"); for (i = 0; i < n; i++) print(m[i]);
        pr("goto ende\n:sub\n"); for (i = 0; i < nsub; i++) print(sub[i]); pr("goto :eof\n:ende\n");
        w = W; *w = 0; memset(V, 0, sizeof V); sp = 0; st[0].l = F[3]; st[0].n = FN[3]; st[0].pos = 0;
        for (i = 0; i < n; i++) run(m[i]);
        for (i = 0; i < 3; i++) { sprintf(b, "v%d", i); pBat_UnSetEnv(lpeEnv, b); }
        { static char q[9000]; h_esc(q, 8900, T, strlen(T)); h_begin("%s i0=%d i1=%d i2=%d lines", q, FN[0], FN[1], FN[2]); }
        f_run(T, "");
        if (strcmp(f_out, W)) h_fail("input", "printed |%s| instead of |%s|", h_q(f_out), h_q(W));
    }
    f_done();
    return h_end();
}
