#define F_SHELL
#include "full.h"
/* random programs run by the interpreter and by a model of the language; PROP selects the mix: 9 operators and streams, 10 blocks, 11 conditions, 12 expressions, 16 loops, 18 jumps and calls */
#ifndef PROP
#define PROP 9
#endif
enum { ECHO, FAIL, OK, SETV, BLOCK, IF, FOR, CALL, GOTO, SEQ, GEOF, EXITB };
typedef struct N { int k, n, op[6], style; struct N *a[6]; char t[200]; int x, y, z; int red, rf, neg; int dr[3]; } N;
static N pool[4000]; static int np;
static N *nn(int k) { N *p = &pool[np++ % 4000]; memset(p, 0, sizeof *p); p->k = k; p->red = 0; return p; }
static int delayed, nlab, labcur, insub, forfree, budget, curlab;
static unsigned busy;       /* files open for output in an enclosing construct */
static const char *WD[] = {"alpha","b","foo","x9","Zed","k-k","7","rem","if","for","echo"};
static int W(int c) { switch (c) {
    case IF: return PROP == 11 || PROP == 12 ? 30 : PROP == 10 ? 14 : 7; case FOR: return PROP == 16 ? 30 : PROP == 10 ? 14 : 6;
    case BLOCK: return PROP == 10 ? 30 : PROP == 9 ? 14 : 6; case CALL: return PROP == 18 ? 25 : 5; case GOTO: return PROP == 18 ? 20 : 3;
    case FAIL: return PROP == 9 ? 25 : 6; case OK: return PROP == 9 ? 10 : 3; case SETV: return 9; } return 40; }
/* text pieces: stored with markers, printed escaped, evaluated in the model
   'w' literal char c ; 'e' escaped special c ; 'q' quoted ; 'P' n percent var ; 'D' n delayed var ; 'L' n loop var ; 'A' n argument */
static void gtext(N *p, int loops, int first)
{
    char *t = p->t; int i, m = 1 + h_rn(4);
    *t = 0;
    for (i = 0; i < m; i++) {
        if (i) strcat(t, "w ");
        switch (i == 0 && first ? 0 : h_rn(PROP == 18 || PROP == 9 ? 12 : 11)) {
        default: { const char *w = WD[h_rn(first && !i ? 6 : 11)]; for (; *w; w++) { char c[3] = {'w', *w, 0}; strcat(t, c); } break; }
        case 3: { char c[3] = {'e', "&|<>()^%"[h_rn(8)], 0}; strcat(t, c); strcat(t, "wz"); break; }
        case 4: { static const char *Q[] = {"a & b","(",")","a||b > c","x  y","&&","<"}; const char *w = Q[h_rn(7)]; strcat(t, "w\""); for (; *w; w++) { char c[3] = {'w', *w, 0}; strcat(t, c); } strcat(t, "w\""); break; }
        case 5: case 6: { char c[3] = {'P', '0' + h_rn(4), 0}; strcat(t, c); strcat(t, "w."); break; }
        case 7: { if (delayed) { char c[3] = {'D', '0' + h_rn(4), 0}; strcat(t, c); strcat(t, "w."); } else strcat(t, "wd"); break; }
        case 8: { if (loops) { char c[3] = {'L', 'a' + h_rn(loops), 0}; strcat(t, c); } else strcat(t, "wl"); break; }
        case 9: { if (insub >= 0) { char c[3] = {'A', '1' + h_rn(3), 0}; strcat(t, c); strcat(t, "w."); } else strcat(t, "wm"); break; }
        case 11: strcat(t, "X"); strcat(t, delayed && h_rn(2) ? "d" : "p"); strcat(t, "w."); break;
        }
    }
}
static N *gseq(int d, int loops, int top);
/* expressions between square brackets: p->t holds the tokens ( ) & | and atoms a..f, the conditions themselves are the children */
static void gexp(N *p, int d, int prec)
{
    static int K[] = {2, 3, 5, 6, 6, 7, 11, 12, 13, 16}; char c[2] = {0, 0}; int l = strlen(p->t);
    if (d > 0 && l < 60 && p->n < 5 && h_rn(4)) {
        int op = h_rn(2), br = h_rn(4) == 0 || (prec && op);
        if (br) strcat(p->t, "(");
        gexp(p, d - 1, op ? 0 : 1); strcat(p->t, op ? "|" : "&"); gexp(p, d - 1, op ? 0 : 1);
        if (br) strcat(p->t, ")");
        return;
    }
    if (p->n >= 6) p->n = 5;
    { N *q = nn(IF); q->x = K[h_rn(10)]; q->y = h_rn(6); q->z = h_rn(6); q->neg = !h_rn(3); c[0] = 'a' + p->n; p->a[p->n++] = q; strcat(p->t, c); }
}
static N *glines(int d, int loops)
{
    N *p = nn(BLOCK); int i; p->n = 1 + h_rn(3); p->style = h_rn(3);
    for (i = 0; i < p->n; i++) p->a[i] = gseq(d - 1, loops, 0);
    return p;
}
static void gred(N *p)
{
    int f;
    if (h_rn(PROP == 9 ? 3 : 8)) return;
    f = 3 * (insub + 1) + h_rn(3); if (busy & (1 << f)) return;   /* a call and what it calls use different files */
    p->red = 1 + h_rn(PROP == 9 ? 8 : 3); p->rf = f;         /* 1: > 2: >> 3: 1> 4: 2> 5: 2>> 6: >f 2>&1 7: 1>&2 8: 2>&1 */
}
static N *gone(int d, int loops, int last)
{
    static int K[] = {ECHO, FAIL, OK, SETV, BLOCK, IF, FOR, CALL, GOTO}; int i, tot = 0, r, k = ECHO; N *p;
    budget--;
    for (i = 0; i < 9; i++) tot += W(K[i]);
    r = h_rn(tot); for (i = 0; i < 9; i++) { if (r < W(K[i])) { k = K[i]; break; } r -= W(K[i]); }
    if ((d <= 0 || budget < 0) && (k == BLOCK || k == IF || k == FOR)) k = ECHO;
    if ((k == IF || k == FOR) && !last) k = ECHO;
    if (k == CALL && insub >= 2) k = ECHO;
    if (k == GOTO && (!last || (insub < 0 && nlab <= curlab))) k = ECHO;
    p = nn(k);
    switch (k) {
    case ECHO: gred(p); gtext(p, loops, 1); break;
    case SETV: p->x = h_rn(4); strcpy(p->t, WD[h_rn(7)]); if (!h_rn(5)) *p->t = 0; break;
    case BLOCK: { N *q; gred(p); if (p->red) busy |= 1 << p->rf; q = glines(d, loops); if (p->red) busy &= ~(1 << p->rf); q->red = p->red; q->rf = p->rf; return q; }
    case IF: p->x = h_rn(PROP == 11 ? 17 : 7); p->y = h_rn(6); p->z = h_rn(6); p->neg = !h_rn(3); p->dr[0] = h_rn(2);
        if (PROP == 12 && h_rn(3)) { N *q = nn(IF); gexp(q, 3, 0); if (p->dr[0]) q->y = 1; p->x = 17; p->a[2] = q; }
        if (p->x == 4 && !loops) p->x = 0;
        p->style = h_rn(3); if (loops) p->n = loops;
        if (p->style == 0) p->a[0] = gseq(d - 1, loops, 1);
        else { p->a[0] = glines(d, loops); if (p->style == 2) p->a[1] = h_rn(3) ? glines(d, loops) : gseq(d - 1, loops, 1); }
        break;
    case FOR: p->x = loops; p->y = h_rn(3); p->z = h_rn(4);
        { int n = 1 + h_rn(3); *p->t = 0; while (n--) { strcat(p->t, WD[h_rn(7)]); if (n) strcat(p->t, h_rn(2) ? " " : ","); } }
        if (p->y == 2) { p->dr[0] = (int)h_rn(9) - 4; p->dr[1] = 1 + h_rn(3); p->dr[2] = p->dr[0] + (int)h_rn(8) - 2; }
        p->style = h_rn(3);
        if (loops >= 3) { p->k = ECHO; gtext(p, loops, 1); break; }
        p->a[0] = p->style ? glines(d, loops + 1) : gseq(d - 1, loops + 1, 1);
        break;
    case CALL: gred(p); p->x = insub + 1 + h_rn(2 - insub); { int n = h_rn(4); *p->t = 0; while (n--) { strcat(p->t, " "); strcat(p->t, WD[h_rn(7)]); } } break;
    case GOTO: if (insub >= 0) { p->k = h_rn(2) ? GEOF : EXITB; p->x = h_rn(6); } else p->x = curlab + h_rn(nlab - curlab); break;
    }
    return p;
}
static N *gseq(int d, int loops, int top)
{
    N *p = nn(SEQ); int i; p->n = 1 + (h_rn(2) ? h_rn(4) : 0);
    for (i = 0; i < p->n; i++) {
        p->a[i] = gone(d, loops, i == p->n - 1);
        p->op[i] = h_rn(3);                 /* operator before element i: 0 & 1 && 2 || */
    }
    return p;
}
/* ---- printing */
static char *o; static int sp;
static void pr(const char *s) { while (*s) *o++ = *s++; *o = 0; }
static void pred(N *p) { char b[40]; if (!p->red) return; if (p->red > 6) { pr(p->red == 7 ? "1>&2" : "2>&1"); return; } if (p->red == 6) { sprintf(b, p->rf & 1 ? ">f%d 2>&1" : "2>&1>f%d", p->rf); pr(b); return; } sprintf(b, "%s%sf%d", p->red == 2 ? ">>" : p->red == 3 ? "1>" : p->red == 4 ? "2>" : p->red == 5 ? "2>>" : ">", h_rn(2) ? " " : "", p->rf); pr(b); }
static void ptext(const char *t)
{
    char b[20];
    for (; *t; t += 2) switch (*t) {
    case 'w': b[0] = t[1]; b[1] = 0; pr(b); break;
    case 'e': if (t[1] == '%') pr("%%"); else if (t[1] == '(' || t[1] == ')') { b[0] = '^'; b[1] = t[1]; b[2] = 0; pr(b); } else { b[0] = '^'; b[1] = t[1]; b[2] = 0; pr(b); } break;
    case 'P': sprintf(b, "%%v%c%%", t[1]); pr(b); break;
    case 'D': sprintf(b, "!v%c!", t[1]); pr(b); break;
    case 'L': sprintf(b, "%%%%%c", t[1]); pr(b); break;
    case 'A': sprintf(b, "%%%c", t[1]); pr(b); break;
    case 'X': pr(t[1] == 'd' ? "!errorlevel!" : "%errorlevel%"); break;
    }
}
static void pn(N *p);
static void plines(N *p)
{
    int i; pr("(");
    if (p->style) pr("\n");
    for (i = 0; i < p->n; i++) { pn(p->a[i]); if (i + 1 < p->n || p->style) pr(p->style == 2 ? "\n  " : "\n"); }
    pr(")");
}
static int inexp;
static const long TH[] = {1, 0, -1, -3, 1, 2147483647};
static void pcond(N *p)
{
    char b[100]; static const char *CO[] = {"EQU","NEQ","LSS","GTR","LEQ","GEQ"};
    if (p->x == 17) {
        N *q = p->a[2]; char *t;
        p->neg = 0; pr(q->y ? "/i [ " : "[ "); inexp = 1;
        for (t = q->t; *t; t++) switch (*t) { case '(': pr("[ "); break; case ')': pr("] "); break; case '&': pr(h_rn(2) ? "and " : "AND "); break; case '|': pr(h_rn(2) ? "or " : "Or "); break; default: pcond(q->a[*t - 'a']); }
        pr("] "); inexp = 0; return;
    }
    if (!inexp) if (p->x == 6 || p->x == 7 || p->x == 11 || p->x == 12 || p->x == 13 || p->x == 16) p->neg = 0;   /* IF NOT is documented for == and the file and variable tests only */
    if (p->neg) pr("not ");
    switch (p->x) {
    case 0: sprintf(b, "%d==%d ", p->y, p->z); break;
    case 1: sprintf(b, "\"%%v%d%%\"==\"%s\" ", p->y & 3, WD[p->z]); break;
    case 2: sprintf(b, "defined v%d ", p->y & 3); break;
    case 3: sprintf(b, "exist f%d ", p->y); break;
    case 4: sprintf(b, "%%%%%c==%s ", 'a' + p->n - 1, WD[p->z]); break;
    case 5: sprintf(b, p->z & 1 ? "errorlevel %ld " : "ERRORLEVEL %ld ", TH[(unsigned)p->y % 6]); break;
    case 6: sprintf(b, "%d %s %d ", p->y - 2, CO[p->z], (p->y * 7 + p->z) % 5 - 1); break;
    case 7: sprintf(b, "%s %s %s ", WD[p->y], CO[p->z], WD[(p->y * 5 + p->z) % 6]); break;
    case 8: { char *c; if (p->neg) o -= 4; *o = 0; if (!p->neg) pr("/i "); else pr("/i not "); sprintf(b, "%s==%s ", WD[p->y], WD[p->z]); if (p->dr[0]) for (c = b; *c != '='; c++) *c = *c >= 'a' && *c <= 'z' ? *c - 32 : *c; break; }
    case 9: sprintf(b, "\"%s %d\"==\"%s %d\" ", WD[p->y], p->z & 1, WD[p->z], p->y & 1); break;
    case 10: sprintf(b, "exist ?%d ", p->y); break;
    case 11: sprintf(b, "%d %s %d ", p->y * 10, CO[p->z], p->z * 8 + 1); break;
    case 12: sprintf(b, "0x%x %s %d ", p->y * 9, CO[p->z], p->z * 9); break;
    case 13: sprintf(b, "%d.5 %s %d ", p->y, CO[p->z], p->z); break;
    case 14: sprintf(b, "%s==%s ", WD[p->y], WD[p->z]); break;
    case 15: sprintf(b, "x%%v%d%%==x%s ", p->y & 3, WD[p->z]); break;
    case 16: sprintf(b, "\"%%v%d%%\" %s \"%s\" ", p->y & 3, (p->z & 1) ? "EQU" : "NEQ", WD[p->z]); break;
    }
    pr(b);
}
static const int XC[] = {0, 1, 256, -1, 70000};
static void pn(N *p)
{
    char b[300]; int i;
    if (p->k != SEQ && !h_rn(12)) pr("@");
    switch (p->k) {
    case SEQ: for (i = 0; i < p->n; i++) { static const char *OP[] = {"&","&&","||"}; if (i) { pr(OP[p->op[i]]); if (h_rn(2)) pr(" "); } pn(p->a[i]); } break;
    case ECHO: pr("echo "); ptext(p->t); if (p->red) { pr(" "); pred(p); } break;
    case FAIL: pr("shift /q"); break;
    case OK: pr("ver>nul"); break;
    case SETV: sprintf(b, "set v%d=%s", p->x, p->t); pr(b); break;
    case BLOCK: plines(p); if (p->red) { pr(" "); pred(p); } break;
    case IF: pr("if "); pcond(p); if (p->style == 0) pn(p->a[0]); else { plines(p->a[0]); if (p->style == 2) { pr(" else "); if (p->a[1]->k == BLOCK) plines(p->a[1]); else pn(p->a[1]); } } break;
    case FOR: sprintf(b, p->y == 2 ? "for /L %%%%%c in (%d,%d,%d) do " : "for %%%%%c in (%s) do ", 'a' + p->x, p->dr[0], p->dr[1], p->dr[2]);
        if (p->y != 2) sprintf(b, "for %%%%%c in (%s) do ", 'a' + p->x, p->t);
        pr(b); if (p->style) plines(p->a[0]); else pn(p->a[0]); break;
    case CALL: sprintf(b, "call :sub%d%s", p->x, p->t); pr(b); if (p->red) { pr(" "); pred(p); } break;
    case GOTO: { static const char *G[] = {"goto l%d", "goto :l%d", "GOTO L%d", "goto  :L%d"}; sprintf(b, G[h_rn(4)], p->x); pr(b); break; }
    case GEOF: pr("goto :eof"); break;
    case EXITB: { static const char *G[] = {"exit /b %d", "EXIT /B %d", "exit /b \"%d\""}; if (p->x == 5) { pr("exit /b"); break; } sprintf(b, G[h_rn(3)], XC[p->x]); pr(b); break; }
    }
}
/* ---- the model */
typedef struct { N *ln[12]; int n; int lab[12]; } S;
static S mainS, subS[3]; static int ELF = 1;
static char V[4][64]; static int EL; static char F[12][60000]; static int FE[12]; static char MO[1 << 19], ME[1 << 17]; static int cur, cure; static char LV[3][32], ARG[4][32]; static long steps;
typedef struct { char v[4][64]; int el; } SNAP;
static void mput(const char *s) { if (cur == -2) { if (strlen(ME) + strlen(s) < sizeof ME - 1) strcat(ME, s); } else if (cur < 0) { if (strlen(MO) + strlen(s) < sizeof MO - 1) strcat(MO, s); } else if (strlen(F[cur]) + strlen(s) < 59999) strcat(F[cur], s); }
static void mtext(const char *t, SNAP *s, int trail)
{
    char b[3];
    for (; *t; t += 2) switch (*t) {
    case 'w': case 'e': b[0] = t[1]; b[1] = 0; mput(b); break;
    case 'P': mput(s->v[t[1] - '0']); break; case 'D': mput(V[t[1] - '0']); break;
    case 'L': mput(LV[t[1] - 'a']); break; case 'A': mput(ARG[t[1] - '0']); break;
    case 'X': { char xb[20]; sprintf(xb, "%d", t[1] == 'd' ? EL : s->el); mput(xb); break; }
    }
    while (trail--) mput(" "); mput("\n");
}
static int mx(N *p, SNAP *s);
static int cmpr(int c, long r) { switch (c) { case 0: return r == 0; case 1: return r != 0; case 2: return r < 0; case 3: return r > 0; case 4: return r <= 0; } return r >= 0; }
static int mcond(N *p, SNAP *s);
static N *mexp_p; static char *mexp_t; static int mexp_i;
static int scmp(const char *a, const char *b) { return mexp_i ? strcasecmp(a, b) : strcmp(a, b); }
/* or of ands: level 0 or, 1 and, 2 atom or bracket */
static int mexp(N *p, SNAP *s, int lv)
{
    int r;
    if (lv == 2) { if (*mexp_t == '(') { mexp_t++; r = mexp(p, s, 0); mexp_t++; } else r = mcond(p->a[*mexp_t++ - 'a'], s); return r; }
    r = mexp(p, s, lv + 1);
    while (*mexp_t == (lv ? '&' : '|')) { int b; mexp_t++; b = mexp(p, s, lv + 1); r = lv ? r && b : r || b; }
    return r;
}
static int mcond(N *p, SNAP *s)
{
    int r = 0; char b[100];
    switch (p->x) {
    case 0: r = p->y == p->z; break;
    case 1: r = !strcmp(s->v[p->y & 3], WD[p->z]); break;
    case 2: r = *V[p->y & 3] != 0; break;
    case 3: r = FE[p->y]; break;
    case 4: r = !strcmp(LV[p->n - 1], WD[p->z]); break;
    case 5: r = EL >= TH[(unsigned)p->y % 6]; break;
    case 6: r = cmpr(p->z, (p->y - 2) - ((p->y * 7 + p->z) % 5 - 1)); break;
    case 17: mexp_p = p->a[2]; mexp_t = mexp_p->t; mexp_i = mexp_p->y; r = mexp(mexp_p, s, 0); mexp_i = 0; return r;
    case 7: r = cmpr(p->z, scmp(WD[p->y], WD[(p->y * 5 + p->z) % 6])); break;
    case 8: r = !strcasecmp(WD[p->y], WD[p->z]); break;
    case 9: r = p->y == p->z && (p->z & 1) == (p->y & 1); break;
    case 10: r = FE[p->y]; break;
    case 11: r = cmpr(p->z, p->y * 10 - (p->z * 8 + 1)); break;
    case 12: r = cmpr(p->z, p->y * 9 - p->z * 9); break;
    case 13: r = cmpr(p->z, p->y * 2 + 1 - p->z * 2); break;
    case 14: r = p->y == p->z; break;
    case 15: r = !strcmp(s->v[p->y & 3], WD[p->z]); break;
    case 16: r = !scmp(s->v[p->y & 3], WD[p->z]) == (p->z & 1); break;
    }
    (void)b;
    return p->neg ? !r : r;
}
static int mscript(S *sc);
static int mx(N *p, SNAP *s)
{
    int i, r = 0, sv = cur, sve = cure; char sa[4][32]; const char *q;
    if (++steps > 20000) return -2;
    if (p->red && (p->k == ECHO || p->k == BLOCK || p->k == CALL)) {
        if (p->red <= 6) { FE[p->rf] = 1; if (p->red != 2 && p->red != 5) *F[p->rf] = 0; }
        if (p->red <= 3 || p->red == 6) cur = p->rf;
        if (p->red >= 4 && p->red <= 6) cure = p->rf;
        if (p->red == 7) cur = cure;
        if (p->red == 8) cure = cur;
    }
    switch (p->k) {
    case SEQ: for (i = 0; i < p->n && !r; i++) { if (i && ((p->op[i] == 1 && EL) || (p->op[i] == 2 && !EL))) continue; r = mx(p->a[i], s); } break;
    case ECHO: mtext(p->t, s, p->red == 6 && (p->rf & 1) ? 2 : !!p->red); EL = 0; break;
    case FAIL: EL = ELF; break;
    case OK: EL = 0; break;
    case SETV: strcpy(V[p->x], p->t); EL = 0; break;
    case BLOCK: for (i = 0; i < p->n && !r; i++) r = mx(p->a[i], s); break;
    case IF: if (mcond(p, s)) r = mx(p->a[0], s); else if (p->style == 2) r = mx(p->a[1], s); break;
    case FOR:
        if (p->y == 2) { for (i = p->dr[0]; (p->dr[1] > 0 ? i <= p->dr[2] : i >= p->dr[2]) && !r; i += p->dr[1]) { sprintf(LV[p->x], "%d", i); r = mx(p->a[0], s); } }
        else { char b[200], *t; char *sv2; strcpy(b, p->t); for (t = strtok_r(b, " ,", &sv2); t && !r; t = strtok_r(0, " ,", &sv2)) { strcpy(LV[p->x], t); r = mx(p->a[0], s); } }
        break;
    case CALL: memcpy(sa, ARG, sizeof sa); { int k = 0; char b[200], *t, *sv2; char lv[3][32]; memcpy(lv, LV, sizeof lv); for (i = 0; i < 4; i++) *ARG[i] = 0; strcpy(b, p->t); for (t = strtok_r(b, " ", &sv2); t && k < 3; t = strtok_r(0, " ", &sv2)) strcpy(ARG[++k], t);
        r = mscript(&subS[p->x]); memcpy(ARG, sa, sizeof sa); memcpy(LV, lv, sizeof lv); if (r != -2) r = 0; } break;
    case GOTO: r = 1 + p->x; break;
    case GEOF: r = -1; break;
    case EXITB: if (p->x < 5) EL = XC[p->x]; r = -1; break;
    }
    (void)q;
    cur = sv; cure = sve;
    return r;
}
static int mscript(S *sc)
{
    int i, r; SNAP s;
    for (i = 0; i < sc->n; i++) {
        memcpy(s.v, V, sizeof V); s.el = EL;
        r = mx(sc->ln[i], &s);
        if (r < 0) return r == -2 ? -2 : 0;
        if (r > 0) { int k; for (k = 0; k < sc->n; k++) if (sc->lab[k] == r) { i = k - 1; break; } }
    }
    return 0;
}
static char text[60000];
static void gscript(S *s, int n, int d)
{
    int i, L = 0;
    memset(s, 0, sizeof *s); s->n = n;
    if (insub < 0) { nlab = h_rn(3); }
    curlab = 0;
    for (i = 0; i < n; i++) {
        if (insub < 0 && L < nlab && i * (nlab + 1) >= (L + 1) * n) { s->lab[i] = ++L; curlab = L; }
        s->ln[i] = gseq(d, 0, 1);
    }
    if (insub < 0 && L < nlab) { s->ln[n] = gseq(1, 0, 1); s->lab[n] = ++L; s->n++; while (L < nlab) { s->ln[s->n] = gseq(1, 0, 1); s->lab[s->n++] = ++L; } }
}
/* labels of other names before the one that is looked for, and one of the same name behind it */
static void pdecoy(const char *pre, int n) { static const char *D[] = {":%s%d-x", ":%s%dx", ":%s%d_", ":%s%d.b", ":x%s%d", ":%s0%d", ":%s%d0", ":%s%d/y", ":%s"}; char b[60]; while (!h_rn(3)) { sprintf(b, D[h_rn(9)], pre, n); pr(b); pr("\n"); } }
static void plabel(const char *pre, int n, const char *what) { static const char *L[] = {":%s%d", ":%s%d ", ":%s%d some text", ":%s%d\ttext", "  :%s%d"}; char b[60]; pdecoy(pre, n); sprintf(b, L[h_rn(3) ? 0 : h_rn(5)], pre, n); if (!h_rn(4)) { char *c; for (c = b; *c && *c != ' ' && *c != '\t'; c++) if (*c >= 'a' && *c <= 'z') *c -= 32; } pr(b); sprintf(b, "\necho %s\n", what); pr(b); }
static void pscript(S *s) { int i; char b[30]; for (i = 0; i < s->n; i++) { if (s->lab[i]) plabel("l", s->lab[i] - 1, "label"); pn(s->ln[i]); pr("\n"); } }
static N *lblecho(void) { N *p = nn(ECHO); strcpy(p->t, "wlwawbwewl"); return p; }
int main(void)
{
    int it, i, N_ = h_thorough ? 40000 : 6000, bad; char b[100], *g; ESTR *e;
    f_shell("prog"); f_run("@echo off\nshift /q\nset elf=%errorlevel%\n", ""); { char nm[] = "elf"; const char *v = pBat_GetEnv(lpeEnv, nm); if (v && atoi(v)) ELF = atoi(v); }
    for (it = 0; it < N_; it++) {
        np = 0; budget = 14; delayed = h_rn(2); busy = 0;
        for (insub = 2; insub >= 0; insub--) gscript(&subS[insub], 1 + h_rn(2), 2);
        gscript(&mainS, 2 + h_rn(4), 3);
        o = text; pr("@echo off\n"); if (delayed) pr("setlocal enabledelayedexpansion\n");
        if (PROP == 18 ? h_rn(3) : !h_rn(8)) { pr("goto begin\n"); for (i = 0; i < 5; i++) { int q = h_rn(6); while (q--) pdecoy(i < 3 ? "sub" : "l", i < 3 ? i : i - 3); pr("echo decoy\ngoto :eof\n"); } pr(":begin\n"); }
        pscript(&mainS); if (delayed) pr("goto ende\n"); else pr("goto :eof\n");
        for (i = 0; i < 3; i++) { sprintf(b, "in%d", i); plabel("sub", i, b); pscript(&subS[i]); pr("goto :eof\n"); }
        if (delayed) pr(":ende\n"); else for (i = 0; i < nlab; i++) if (!h_rn(3)) { sprintf(b, ":l%d\necho second\n", i); pr(b); }
        /* labels and subs print a line first: add it to the model */
        for (i = 0; i < 3; i++) { S *s = &subS[i]; int k; N *p = nn(ECHO); sprintf(p->t, "wiwnw%d", i); for (k = s->n; k > 0; k--) s->ln[k] = s->ln[k - 1]; s->ln[0] = p; s->n++; }
        { S m; int k, j = 0; memset(&m, 0, sizeof m); for (k = 0; k < mainS.n && j < 11; k++) { if (mainS.lab[k]) { m.lab[j] = mainS.lab[k]; m.ln[j++] = lblecho(); } m.ln[j++] = mainS.ln[k]; } m.n = j; mainS = m; }
        memset(V, 0, sizeof V); memset(F, 0, sizeof F); memset(FE, 0, sizeof FE); *MO = 0; *ME = 0; cur = -1; cure = -2; EL = 0; memset(LV, 0, sizeof LV); memset(ARG, 0, sizeof ARG); steps = 0;
        if (mscript(&mainS) == -2) continue;
        for (i = 0; i < 12; i++) { sprintf(b, "f%d", i); unlink(b); }
        for (i = 0; i < 4; i++) { sprintf(b, "v%d", i); pBat_UnSetEnv(lpeEnv, b); }
        { static char q[4000]; h_esc(q, 3900, text, strlen(text)); h_begin("%s", q); }
        f_run(text, "");
        bad = 0;
        if (strcmp(f_out, MO)) { bad = 1; h_fail("program", "printed |%s| instead of |%s|", h_q(f_out), h_q(MO)); }
        if (!bad && strcmp(f_errout, ME)) { bad = 1; h_fail("program", "sent |%s| to the error stream instead of |%s|", h_q(f_errout), h_q(ME)); }
        for (i = 0; i < 12 && !bad; i++) { sprintf(b, "f%d", i); g = f_get(b); if (!g != !FE[i]) { h_fail("program", "file %s %s", b, g ? "was created" : "is missing"); bad = 1; } else if (g && strcmp(g, F[i])) { h_fail("program", "file %s holds |%s| instead of |%s|", b, h_q(g), h_q(F[i])); bad = 1; } }
    }
    f_done(); (void)e;
    return h_end();
}
