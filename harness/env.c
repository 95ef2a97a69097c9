#include "full.h"
#include <strings.h>
#include <sys/mman.h>
#include "libpbat/libpBat.h"
#include "pbat/core/pBat_Core.h"
/* executable contract of the environment: a case-insensitive map with frames */
#define NV 24
static const char *NAMES[NV] = {"_","_a","_B","_zz","__","_9","A","a1","Path","http_proxy","X","y","zeta","0","9x","[b]","~t","foo bar","TEMP","lower","Upper","`q","^c","{z"};
typedef struct M { char *name[NV], *val[NV]; int inh[NV]; struct M *up; } M;
/* model: per variable a stack of (name as stored, value, inherit) */
typedef struct V { char *val; int inh; struct V *prev; int set; } V;
static V *mod[NV];
static char *keymem[2]; 
static const char *place(const char *s)
{   /* keys live at addresses with either sign of their low 32 bits */
    char *p = keymem[h_rn(2)] + h_rn(900) ; strcpy(p, s); return p;
}
static void recase(char *s) { for (; *s; s++) if (h_rn(2)) *s = (*s >= 'a' && *s <= 'z') ? *s - 32 : (*s >= 'A' && *s <= 'Z') ? *s + 32 : *s; }
static char *low(int hi) { static char *at; char *p = mmap((void*)(hi ? 0x200080000000ull : 0x200000000000ull), 8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) p = malloc(8192); return p; }
static void check(const char *op)
{
    int i, n = 0; char k[64]; char *g;
    for (i = 0; i < NV; i++) {
        strcpy(k, NAMES[i]); recase(k);
        g = pBat_GetEnv(lpeEnv, place(k));
        if (mod[i]) n++;
        if (!mod[i] != !g || (g && strcmp(g, mod[i]->val)))
            h_fail(op, "%s: variable %s is \"%s\", want \"%s\"", op, k, h_q(g), h_q(mod[i] ? mod[i]->val : 0));
    }
    g = pBat_GetEnv(lpeEnv, place("nosuch")); if (g) h_fail(op, "%s: unset variable has a value", op);
    for (i = 0; i < lpeEnv->index; i++) if (lpeEnv->envbuf[i]->name) n--;
    if (n) h_fail(op, "%s: %d variables too few/many listed", op, n);
    { size_t sz = 0; char *b = pBat_GetEnvBlock(lpeEnv, &sz), *p = b; int c = 0;
      while (*p) { char *e = strchr(p + 1, '='); if (!e) e = strchr(p, '='); if (e) { char nm[64]; sprintf(nm, "%.*s", (int)(e - p), p); 
          for (i = 0; i < NV; i++) if (!strcasecmp(nm, NAMES[i])) { if (!mod[i] || strcmp(mod[i]->val, e + 1)) h_fail("block", "%s: block has %s", op, h_q(p)); else c++; } }
          p += strlen(p) + 1; }
      for (i = 0; i < NV; i++) if (mod[i]) c--;
      if (c) h_fail("block", "%s: environment block does not list every variable once (%d)", op, c);
      if ((size_t)(p - b) + 1 != sz) h_fail("block", "size %zu for a block of %zu", sz, (size_t)(p - b) + 1);
      free(b); }
}
static void m_set(int i, const char *v, int inh)
{
    if (mod[i]) { mod[i]->val = strdup(v); mod[i]->inh |= inh; }
    else { mod[i] = calloc(1, sizeof(V)); mod[i]->val = strdup(v); mod[i]->inh = inh; }
}
static void m_push(void) { int i; for (i = 0; i < NV; i++) if (mod[i] && NAMES[i][0] == '_') { V *v = calloc(1, sizeof *v); v->val = mod[i]->val; v->prev = mod[i]; mod[i] = v; } }
static void m_pop(void)
{
    int i;
    for (i = 0; i < NV; i++) if (mod[i] && NAMES[i][0] == '_') {
        V *o = mod[i]->prev;
        if (!o) { if (!mod[i]->inh) mod[i] = 0; }
        else if (mod[i]->inh) mod[i]->prev = o->prev;
        else mod[i] = o;
    }
}
static void seq(int steps, int locals)
{
    static char desc[4000]; int s, depth = 0, d; char kind[64]; V *save[64][NV]; char dl[64], cc[64];
    char *env[] = {"A=1 ", "zeta=two words", "http_proxy=h", "Path=/bin:/usr/bin", "EMPTY2=x=y", 0};
    memset(mod, 0, sizeof mod); *desc = 0;
    lpeEnv = pBat_InitEnv(env); lpesEnv = 0;
    m_set(6, "1 ", 0); m_set(12, "two words", 0); m_set(9, "h", 0); m_set(8, "/bin:/usr/bin", 0);
    { char *g = pBat_GetEnv(lpeEnv, "empty2"); if (!g || strcmp(g, "x=y")) h_fail("init", "initial EMPTY2 is %s", h_q(g)); char e2[] = "EMPTY2"; pBat_UnSetEnv(lpeEnv, e2); }
    d = 0; bDelayedExpansion = 0; bCmdlyCorrect = 1;
    for (s = 0; s < steps; s++) {
        int i = h_rn(NV), op = h_rn(locals ? 16 : 12), t; char k[80], v[40];
        if (locals && h_rn(2)) i = h_rn(6);
        strcpy(k, NAMES[i]); recase(k);
        if (strlen(desc) > 3500) *desc = 0;
        if (op < 6) {
            h_str(v, "ab =%", 12); if (h_rn(8) == 0) *v = 0;
            t = h_rn(5); while (t-- > 3) strcat(k, h_rn(2) ? " " : "\t ");
            int inh = locals && NAMES[i][0] == '_' && h_rn(3) == 0;
            sprintf(desc + strlen(desc), "%s%s=%s;", inh ? "/x " : "", k, v); h_begin("%s", desc);
            if (!*v && mod[i] && mod[i]->prev) continue; /* unsetting an outer local: unspecified */
            pBat_SetEnvEx(lpeEnv, (char*)place(k), v, inh);
            if (*v) m_set(i, v, inh); else mod[i] = 0;
            check("set");
        } else if (op < 9) {
            if (mod[i] && mod[i]->prev) continue;
            sprintf(desc + strlen(desc), "unset %s;", k); h_begin("%s", desc);
            pBat_UnSetEnv(lpeEnv, (char*)place(k)); mod[i] = 0; check("unset");
        } else if (op < 12) {
            if ((h_rn(2) || d == 0) && d < 12) {
                if (depth) continue;
                strcat(desc, "setlocal;"); h_begin("%s", desc);
                for (i = 0; i < NV; i++) { save[d][i] = 0; if (mod[i]) { V *c = calloc(1, sizeof *c); *c = *mod[i]; save[d][i] = c; } }
                dl[d] = bDelayedExpansion; cc[d] = bCmdlyCorrect; kind[d++] = 's';
                { static const char *O[] = {"setlocal", "setlocal enabledelayedexpansion", "SETLOCAL DisableDelayedExpansion", "setlocal cmdlycorrect", "setlocal CMDLYINCORRECT enabledelayedexpansion", "setlocal enableextensions"};
                  char line[80]; int o = h_rn(6); strcpy(line, O[o]); pBat_CmdSetLocal(line); check("setlocal");
                  if (bDelayedExpansion != (o == 1 || o == 4 ? 1 : o == 2 ? 0 : dl[d-1])) h_fail("options", "%s: delayed expansion %d", O[o], bDelayedExpansion);
                  if (bCmdlyCorrect != (o == 3 ? 1 : o == 4 ? 0 : cc[d-1])) h_fail("options", "%s: cmdlycorrect %d", O[o], bCmdlyCorrect); }
                if (h_rn(4) == 0) bDelayedExpansion = h_rn(2);
            } else if (d && kind[d-1] == 's') {
                strcat(desc, "endlocal;"); h_begin("%s", desc); d--;
                for (i = 0; i < NV; i++) mod[i] = save[d][i];
                { char line[] = "endlocal"; pBat_CmdEndLocal(line); } check("endlocal");
                if (bDelayedExpansion != dl[d] || bCmdlyCorrect != cc[d]) h_fail("options", "ENDLOCAL does not restore the options");
            }
        } else if (op < 14 && d < 40) {
            strcat(desc, "call{"); h_begin("%s", desc); kind[d++] = 'c'; depth++;
            pBat_PushEnvLocals(lpeEnv); m_push(); check("call");
        } else if (d && kind[d-1] == 'c') {
            strcat(desc, "}"); h_begin("%s", desc); d--; depth--;
            pBat_PopEnvLocals(lpeEnv); m_pop(); check("return");
        }
    }
    while (d) { d--; if (kind[d] == 's') { int i; for (i = 0; i < NV; i++) mod[i] = save[d][i]; pBat_PopEnvStack(); check("endlocal"); } else { pBat_PopEnvLocals(lpeEnv); m_pop(); check("return"); } }
    { /* a copy is independent */
      ENVBUF *c = pBat_EnvDup(lpeEnv), *o = lpeEnv; char k[] = "X", v[] = "changed"; 
      pBat_SetEnv(o, k, v); lpeEnv = c; check("copy"); pBat_SetEnv(c, k, "other"); { char *g = pBat_GetEnv(o, k); if (!g || strcmp(g, v)) h_fail("copy", "copy not independent: %s", h_q(g)); } pBat_EnvFree(c); lpeEnv = o; }
    pBat_EnvFree(lpeEnv);
}
static void many(int n)
{
    int i; char k[32], v[32]; char *env[] = {0};
    lpeEnv = pBat_InitEnv(env);
    for (i = 0; i < n; i++) { sprintf(k, "V%d", (i * 7919) % n); sprintf(v, "%d", (i * 7919) % n); h_begin("set %d of %d variables", i, n); pBat_SetEnv(lpeEnv, k, v); }
    for (i = 0; i < n; i += 3) { sprintf(k, "v%d", i); h_begin("unset %s of %d", k, n); pBat_UnSetEnv(lpeEnv, (char*)place(k)); }
    for (i = 0; i < n; i++) { char *g; sprintf(k, "v%d", i); sprintf(v, "%d", i); h_begin("get %s of %d", k, n); g = pBat_GetEnv(lpeEnv, place(k)); if (i % 3 ? !g || strcmp(g, v) : !!g) h_fail("lookup-after-unset", "%s is %s", k, h_q(g)); }
    pBat_EnvFree(lpeEnv);
}
int main(void)
{
    int i;
    f_init(); keymem[0] = low(0); keymem[1] = low(1);
    { static const char *W[] = {"a","a ","a\t ","a b"," a","a b  ","", " ", "=x "}; static const char *R[] = {"a","a","a","a b"," a","a b",""," ","=x"};
      for (i = 0; i < 9; i++) { char b[16]; strcpy(b, W[i]); h_begin("adjust \"%s\"", W[i]); pBat_AdjustVarName(b); if (strcmp(b, R[i])) h_fail("adjust", "got \"%s\"", b); } }
    many(127); many(128); many(129); many(700);
    for (i = 0; i < (h_thorough ? 20000 : 1500); i++) seq(30, 0);
    for (i = 0; i < (h_thorough ? 20000 : 1500); i++) seq(40, 1);
    return h_end();
}
