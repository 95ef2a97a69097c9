/* common part of the contract-execution harnesses */
#ifndef H_H
#define H_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <stdint.h>
static char h_case[4096];
static unsigned long h_n, h_d;
static int h_fails;
static int h_thorough;
static uint64_t h_s = 88172645463325252ull;
extern void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void h_flush(void)
{
    printf("CASE %s\n", h_case);
    printf("CASES %lu %lu\n", h_n, h_d);
    fflush(stdout);
}
static void h_alarm(int s)
{
    char b[] = "CASE (no termination) ";
    write(1, b, sizeof(b) - 1); write(1, h_case, strlen(h_case)); write(1, "\n", 1);
    _exit(97);
}
static uint64_t h_rnd(void)
{
    h_s ^= h_s << 13; h_s ^= h_s >> 7; h_s ^= h_s << 17; return h_s;
}
static unsigned h_rn(unsigned n) { return n ? (unsigned)(h_rnd() >> 11) % n : 0; }
static void h_init(void)
{
    const char *e = getenv("VERIF_SEED");
    h_s += (e ? strtoull(e, 0, 10) : 1) * 0x9E3779B97F4A7C15ull;
    if (!h_s) h_s = 1;
    e = getenv("VERIF_TIER"); h_thorough = e && !strcmp(e, "thorough");
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(h_flush);
    signal(SIGALRM, h_alarm);
    setvbuf(stdout, 0, _IOFBF, 1 << 16);
}
static void h_esc(char *d, size_t n, const char *s, size_t l)
{
    size_t i, k = 0;
    for (i = 0; i < l && k + 6 < n; i++) {
        unsigned char c = s[i];
        if (c == '\\') { d[k++] = '\\'; d[k++] = '\\'; }
        else if (c >= 32 && c < 127) d[k++] = c;
        else k += sprintf(d + k, "\\x%02x", c);
    }
    if (i < l && k + 4 < n) { strcpy(d + k, "..."); k += 3; }
    d[k] = 0;
}
static const char *h_q(const char *s)
{
    static char b[8][700]; static int i; char *r = b[i = (i + 1) & 7];
    if (!s) return "(null)";
    h_esc(r, 600, s, strlen(s)); return r;
}
/* begin one case: description kept for crash reports */
static void h_begin(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); vsnprintf(h_case, sizeof h_case, fmt, ap); va_end(ap);
    h_n++; h_d++;
    if ((h_n & 0x7f) == 1) alarm(60);
    if (h_n == 7 || h_n == 1000) printf("SAMPLE %s\n", h_case);
}
static int h_fail(const char *key, const char *fmt, ...)
{
    char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    printf("FAIL key=%s [%s] %s\n", key, h_case, b); fflush(stdout);
    if (++h_fails > 40) { printf("CASES %lu %lu\n", h_n, h_d); exit(1); }
    return 1;
}
static int h_end(void)
{
    printf("CASES %lu %lu\n", h_n, h_d); fflush(stdout);
    return h_fails ? 1 : 0;
}
/* random / exhaustive strings over an alphabet */
static char *h_str(char *d, const char *alpha, int maxlen)
{
    int n = h_rn(maxlen + 1), k = strlen(alpha), i;
    for (i = 0; i < n; i++) d[i] = alpha[h_rn(k)];
    d[n] = 0; return d;
}
/* enumerate: next string of at most maxlen over alpha, 0 when done */
static int h_next(char *s, const char *alpha, int maxlen)
{
    int n = strlen(s), k = strlen(alpha), i;
    for (i = n - 1; i >= 0; i--) {
        char *p = strchr(alpha, s[i]);
        if (p - alpha + 1 < k) { s[i] = p[1]; return 1; }
        s[i] = alpha[0];
    }
    if (n == maxlen) return 0;
    s[n] = alpha[0]; s[n + 1] = 0; 
    for (i = 0; i <= n; i++) s[i] = alpha[0];
    return 1;
}
/* exact-size heap copy so that ASan sees overreads */
static char *h_dup(const char *s)
{
    size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p;
}
#endif
