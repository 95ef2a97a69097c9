#include "h.h"
#include "libpbat/libpBat.h"
/* executable contract of escape / quote aware scanning */
static int dl(int c) { return c == ' ' || c == '\t' || c == ',' || c == ';' || c == '\n'; }
static void marks(const char *s, char *esc, char *inq)
{
    int i, n = strlen(s), q = 0;
    for (i = 0; i <= n; i++) {
        esc[i] = i > 0 && s[i-1] == '^' && !esc[i-1];
        inq[i] = q;
        if (s[i] == '"' && !esc[i]) q = !q;
    }
}
static void pos(const char *what, const char *s, char *got, int want)
{
    int g = got ? (int)(got - s) : -1;
    if (g != want) h_fail(what, "%s: returned %d, want %d", what, g, want);
}
static const char *SETS[] = {"&", "|&", "& ", "a", "\"", "%&", " \t,;\n", "<>|", 0};
static const char *QS[] = {"&", "|&", "& ", "a", "<>", " ", "ab&", 0};
static void one(const char *src)
{
    char *s = h_dup(src), esc[512], inq[512]; int n = strlen(s), i, k, m; const char *c;
    h_begin("text \"%s\"", h_q(src));
    marks(s, esc, inq);
    for (i = 0; dl(s[i]); i++); pos("SkipBlanks", s, pBat_SkipBlanks(s), i);
    for (i = 0; dl(s[i]) || s[i] == '@'; i++); pos("SkipAllBlanks", s, pBat_SkipAllBlanks(s), i);
    pos("GetNextNonEscaped", s, pBat_GetNextNonEscaped(s), *s == '^' ? (s[1] ? 2 : 1) : !!*s);
    for (c = "\"& a|b>%!"; *c; c++) {
        int f = -1, l = -1, q = -1;
        for (i = 0; i < n; i++) if (s[i] == *c && !esc[i]) { if (f < 0) f = i; l = i; if (!inq[i] && q < 0) q = i; }
        pos("SearchChar", s, pBat_SearchChar(s, *c), f);
        pos("SearchLastChar", s, pBat_SearchLastChar(s, *c), l);
        if (*c != '"') pos("SearchChar_OutQuotes", s, pBat_SearchChar_OutQuotes(s, *c), q);
    }
    for (k = 0; SETS[k]; k++) {
        int f = -1, l = -1;
        for (i = 0; i < n; i++) if (strchr(SETS[k], s[i]) && !esc[i]) { if (f < 0) f = i; l = i; }
        pos("SearchToken", s, pBat_SearchToken(s, SETS[k]), f);
        pos("SearchLastToken", s, pBat_SearchLastToken(s, SETS[k]), l);
        for (m = 0; QS[m]; m++) {
            int q = -1;
            for (i = 0; i < n; i++) if (strchr(QS[m], s[i]) && !esc[i] && !inq[i]) { q = i; break; }
            if (!k) pos("SearchToken_OutQuotes", s, pBat_SearchToken_OutQuotes(s, QS[m]), q);
            pos("SearchToken_Hybrid", s, pBat_SearchToken_Hybrid(s, SETS[k], QS[m]), f < 0 ? q : q < 0 ? f : f < q ? f : q);
        }
    }
    { char *d = h_dup(s), w[512]; for (i = k = 0; i < n; i++) if (!(s[i] == '^' && !esc[i])) w[k++] = s[i]; w[k] = 0;
      pBat_UnEscape(d); if (strcmp(d, w)) h_fail("UnEscape", "got \"%s\" want \"%s\"", h_q(d), h_q(w)); free(d); }
    { char *d = h_dup(s), w[512]; strcpy(w, s); for (k = n; k && dl(w[k-1]); k--); w[k] = 0;
      pBat_StripEndDelims(d); if (strcmp(d, w)) h_fail("StripEndDelims", "got \"%s\" want \"%s\"", h_q(d), h_q(w)); free(d); }
    free(s);
}
int main(void)
{
    char s[512]; int i;
    h_init();
    for (*s = 0;;) { one(s); if (!h_next(s, "^\"&a", h_thorough ? 8 : 7)) break; }
    for (*s = 0;;) { one(s); if (!h_next(s, "^\" ,@a", 5)) break; }
    for (i = 0; i < (h_thorough ? 200000 : 15000); i++) { h_str(s, i & 1 ? "^^^\"\"&a" : "^\"& \t,;\n@ab|<>%!", i % 5 ? 24 : 200); one(s); }
    for (i = 0; i < 300; i++) { int n = h_rn(120); memset(s, '^', n); h_str(s + n, "^\"&a", 30); one(s); }
    return h_end();
}
