#include <math.h>
#include "full.h"
/* comparisons of IF, one by one */
#include "pbat/command/pBat_If.h"
static double val; 
static void gen(char *s)
{
    int k = h_rn(9); long n = h_rn(3) ? (long)h_rn(12) : h_rn(2) ? (long)h_rn(70000) : 2147483640 + (long)h_rn(20); const char *sg = h_rn(4) ? "" : h_rn(2) ? "-" : "+", *bl = h_rn(5) ? "" : " "; double m = *sg == '-' ? -1 : 1;
    val = m * n;
    switch (k) {
    case 0: case 1: sprintf(s, "%s%ld%s", sg, n, bl); break;
    case 2: sprintf(s, "%s0x%lx%s", sg, n, bl); break;
    case 3: sprintf(s, "%s0%lo%s", sg, n, bl); break;
    case 4: { int q = h_rn(4); sprintf(s, "%s%ld.%s%s", sg, n, q == 0 ? "0" : q == 1 ? "25" : q == 2 ? "5" : "75", bl); val = m * (n + q * .25); break; }
    case 5: sprintf(s, "%s.5", sg); val = m * .5; break;
    case 6: { static const char *T[] = {"a","A","b","B","abc","ABC","abd","","7x","0x","x7","-","+a","1 2","1,a","zz","0x1g",".","-.x"}; strcpy(s, T[h_rn(19)]); val = NAN; break; }
    case 7: sprintf(s, "%s08%s", sg, bl); val = m * 8; break;
    default: { int i, l = h_rn(4); for (i = 0; i < l; i++) s[i] = "aAbBz"[h_rn(5)]; s[l] = 0; val = NAN; }
    }
}
int main(void)
{
    static const char *O[] = {"EQU","NEQ","LSS","GTR","LEQ","GEQ","=="}; int it, n = h_thorough ? 400000 : 60000;
    f_init();
    for (it = 0; it < n; it++) {
        char a[1024], b[1024], op[8], sa[1024], sb[1024]; double x, y; int o = h_rn(7), i = h_rn(2), w, r; char *c;
        gen(a); x = val; if (h_rn(5)) gen(b); else strcpy(b, a); y = val;
        if (!h_rn(9)) {   /* long texts that only differ far from their beginning */
            int k, l = 1 + h_rn(h_rn(2) ? 20 : 700); gen(sa); gen(sb);
            for (k = 0; k < l; k++) { a[k] = "kKmMzZ"[h_rn(6)]; b[k] = i && h_rn(2) ? a[k] ^ 32 : a[k]; }
            strcpy(a + l, sa); strcpy(b + l, h_rn(3) ? sb : sa); x = y = NAN;
        }
        strcpy(op, O[o]); if (h_rn(3) == 0) for (c = op; *c; c++) *c = *c >= 'A' && *c <= 'Z' ? *c + 32 : *c;
        if (x == x && y == y) r = (x > y) - (x < y); else r = i ? strcasecmp(a, b) : strcmp(a, b);
        w = o == 0 || o == 6 ? r == 0 : o == 1 ? r != 0 : o == 2 ? r < 0 : o == 3 ? r > 0 : o == 4 ? r <= 0 : r >= 0;
        h_begin("[%s] %s [%s]%s", a, op, b, i ? " /i" : ""); strcpy(sa, a); strcpy(sb, b);
        r = pBat_PerformExtendedTest(op, a, b, i ? PBAT_IF_CASE_UNSENSITIVE : 0);
        if (r != w) h_fail("compare", "is %d instead of %d", r, w);
        if (strcmp(a, sa) || strcmp(b, sb)) h_fail("compare-args", "changed its operands");
    }
    return h_end();
}
