#include "h.h"
#include <strings.h>
#include "libpbat/libpBat.h"
/* executable contract of the dynamic strings */
static char *mk(size_t n, int kind)
{
    char *s = malloc(n + 1); size_t i;
    for (i = 0; i < n; i++) s[i] = kind == 0 ? 'a' + i % 26 : (char)(1 + h_rn(255));
    s[n] = 0; return s;
}
static int inv(ESTR *e, const char *op)
{
    size_t l;
    if (!e->str) return h_fail("null", "%s: buffer lost", op);
    l = strlen(e->str);
    if (e->len < (int)l + 1) return h_fail("capacity", "%s: capacity %d for a string of %zu", op, e->len, l);
    { volatile char *p = e->str; p[e->len - 1] = p[e->len - 1]; } /* ASan: capacity is really allocated */
    return 0;
}
static void expect(ESTR *e, const char *want, const char *op)
{
    if (inv(e, op)) return;
    if (strcmp(e->str, want)) h_fail("content", "%s: got \"%s\" (len %zu) want \"%s\" (len %zu)", op, h_q(e->str), strlen(e->str), h_q(want), strlen(want));
}
static int h_ci;
static char *repl(const char *s, const char *p, const char *r)
{
    size_t m = strlen(p), l = strlen(r), n = strlen(s), k = 0; char *o = malloc((n + 1) * (l + 1) + 1);
    while (*s) if (m && !(h_ci ? strncasecmp : strncmp)(s, p, m)) { memcpy(o + k, r, l); k += l; s += m; } else o[k++] = *s++;
    o[k] = 0; return o;
}
static void pair(size_t a, size_t b, int kind)
{
    char *x = mk(a, kind), *y = mk(b, kind), *w = malloc(a + b + 1);
    ESTR *e = pBat_EsInit(), *f = pBat_EsInit(); size_t n;
    h_begin("lengths %zu and %zu kind %d", a, b, kind);
    if (*e->str) h_fail("init", "new string not empty");
    inv(e, "init");
    if (pBat_EsCpy(e, x)) h_fail("ret", "EsCpy"); expect(e, x, "EsCpy");
    if (pBat_EsCpy(f, y)) h_fail("ret", "EsCpy"); expect(f, y, "EsCpy");
    sprintf(w, "%s%s", x, y);
    if (pBat_EsCat(e, y)) h_fail("ret", "EsCat"); expect(e, w, "EsCat");
    pBat_EsCpy(e, x);
    if (pBat_EsCatE(e, f)) h_fail("ret", "EsCatE"); expect(e, w, "EsCatE"); expect(f, y, "EsCatE source");
    if (pBat_EsCpyE(e, f)) h_fail("ret", "EsCpyE"); expect(e, y, "EsCpyE"); expect(f, y, "EsCpyE source");
    for (n = 0; n <= b + 2; n += (b > 8 ? b / 4 + 1 : 1)) {
        size_t k = n < b ? n : b;
        pBat_EsCpy(e, x); if (pBat_EsCatN(e, y, n)) h_fail("ret", "EsCatN");
        sprintf(w, "%s%.*s", x, (int)k, y); expect(e, w, "EsCatN");
        pBat_EsCpy(e, x); if (pBat_EsCpyN(e, y, n)) h_fail("ret", "EsCpyN");
        sprintf(w, "%.*s", (int)k, y); expect(e, w, "EsCpyN");
    }
    { char *d = pBat_strdup(y); if (!d || strcmp(d, y)) h_fail("dup", "strdup"); free(d); }
    /* repeated growth */
    pBat_EsCpy(e, ""); { size_t t = 0; char *acc = malloc(b * 4 + 5); *acc = 0;
        for (n = 0; n < 4; n++) { pBat_EsCat(e, y); strcat(acc, y); expect(e, acc, "EsCat repeated"); } free(acc); }
    if (pBat_EsFree(e) || pBat_EsFree(f)) h_fail("ret", "EsFree");
    free(x); free(y); free(w);
}
static void rep(const char *s, const char *p, const char *r)
{
    ESTR *e = pBat_EsInit(); char *w;
    h_begin("replace \"%s\" by \"%s\" in \"%s\"", h_q(p), h_q(r), h_q(s));
    pBat_EsCpy(e, s); w = repl(s, p, r); pBat_EsReplace(e, p, r); expect(e, w, "EsReplace");
    free(w); h_ci = 1;
    pBat_EsCpy(e, s); w = repl(s, p, r); pBat_EsReplaceI(e, p, r); expect(e, w, "EsReplaceI"); h_ci = 0;
    free(w); pBat_EsFree(e);
}
static void get(const char *data, size_t n)
{
    /* lines come back one by one, CRLF/CR/LF all as LF (default mode) */
    FILE *t = tmpfile(); ESTR *e = pBat_EsInit(); char *w = malloc(n + 2), *l = malloc(n + 2); size_t i = 0, k; int r;
    h_begin("EsGet of %zu bytes \"%s\"", n, h_q(data));
    fwrite(data, 1, n, t); rewind(t);
    while (i < n) {
        k = 0;
        do l[k++] = data[i++]; while (i < n && data[i - 1] != '\n');
        l[k] = 0;
        { size_t a, b = 0; for (a = 0; a < k; a++) { if (l[a] == '\r') { w[b++] = '\n'; if (l[a + 1] == '\n') a++; } else w[b++] = l[a]; } w[b] = 0; }
        *e->str = 0;
        r = pBat_EsGet(e, t);
        if (r) h_fail("eof", "EsGet returned %d before the end", r);
        expect(e, w, "EsGet");
    }
    *e->str = 0;
    if (pBat_EsGet(e, t) != 1) h_fail("eof", "EsGet at end of file");
    fclose(t); free(w); free(l); pBat_EsFree(e);
}
int main(void)
{
    static const int S[] = {0,1,2,254,255,256,257,510,511,512,513,1023,1024,1025,2047,2048,4096,10000};
    int i, j, n = sizeof S / sizeof *S; char s[64], p[64], r[64];
    h_init();
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) { pair(S[i], S[j], 0); if ((i + j) % 3 == 0) pair(S[i], S[j], 1); }
    for (i = 0; i < 600; i++) pair(h_rn(1200), h_rn(1200), 1);
    for (*p = 'a', p[1] = 0; ; ) {
        for (*s = 0; ; ) {
            rep(s, p, ""); rep(s, p, "x"); rep(s, p, p); rep(s, p, "aba");
            if (!h_next(s, "ab", 6)) break;
        }
        if (!h_next(p, "ab", 3)) break;
    }
    for (i = 0; i < 3000; i++) { h_str(s, h_rn(2) ? "aab \n\r" : "aAbB", 40); h_str(p, h_rn(2) ? "aab\n\r" : "aAbB", 4); h_str(r, "abcdef", 20); rep(s, p, r); }
    { char *big = mk(5000, 0), *w; rep(big, "abc", "0123456789"); rep(big, "z", ""); free(big); }
    for (i = 0; i < n; i++) { char *d = malloc(S[i] * 2 + 8); size_t k = 0; 
        for (j = 0; j < S[i]; j++) d[k++] = 'a' + j % 26; d[k++] = '\n'; for (j = 0; j < S[i] / 2; j++) d[k++] = 'z'; d[k] = 0; get(d, k);
        k = 0; for (j = 0; j < S[i]; j++) d[k++] = 'a' + j % 26; d[k] = 0; if (k) get(d, k); free(d); }
    for (i = 0; i < 1500; i++) { char d[400]; h_str(d, "abc\n\r", 60); if (*d) get(d, strlen(d)); }
    return h_end();
}
