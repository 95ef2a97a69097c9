include common.spec
use string.spec
use estr.spec
source pbat/core/pBat_Expand.c
// a line being expanded and the two buffers it is expanded with: distinct growable strings
pred sepes(ESTR* a, ESTR* b) = \obj(a) != \obj(b) && \obj(a) != \obj(b->str) && \obj(a->str) != \obj(b) && \obj(a->str) != \obj(b->str)
pred line(ESTR* c, ESTR** buf) = ES(c) && \valid(buf, 16) && \obj(buf) > 0 && ES(buf[0]) && ES(buf[1]) && sepes(c, buf[0]) && sepes(c, buf[1]) && sepes(buf[0], buf[1]) && \obj(buf) != \obj(c) && \obj(buf) != \obj(c->str) && \obj(buf) != \obj(buf[0]->str) && \obj(buf) != \obj(buf[1]->str) && \obj(buf) != \obj(buf[0]) && \obj(buf) != \obj(buf[1])
// the reading of one special variable: moves forward in the text, which it leaves alone
extern char* pBat_GetLocalVar(char** b, char* n, ESTR* r)
requires \str(n) && ES(r) && \obj(r) != \obj(n) && \obj(r->str) != \obj(n)
assigns r, r->str
frees r->str
ensures ES(r)
ensures r->str == \old(r->str) || \fresh(r->str)
ensures \len(r->str) < 0x1000
ensures \result != \null ==> \obj(\result) == \obj(n) && \off(n) < \off(\result) && \off(\result) <= \off(n) + \old(\len(n))

fn pBat_ExpandSpecialVar
requires line(ptrCommandLine, buf) && \len(ptrCommandLine->str) < 0x10000 && \len(buf[1]->str) == 0 && !\oom
assigns ptrCommandLine, ptrCommandLine->str, buf[0], buf[0]->str, buf[1], buf[1]->str
frees ptrCommandLine->str, buf[0]->str, buf[1]->str
ensures ES(ptrCommandLine)
ensures ES(buf[0]) && ES(buf[1])
ensures sepes(ptrCommandLine, buf[0]) && sepes(ptrCommandLine, buf[1]) && sepes(buf[0], buf[1])
loop 1
 assigns ptrCommandLine->str, buf[0], buf[0]->str, buf[1], buf[1]->str
 frees buf[0]->str, buf[1]->str
 invariant ES(lpExpanded) && ES(lpVarContent) && ES(ptrCommandLine) && sepes(lpExpanded, lpVarContent) && sepes(lpExpanded, ptrCommandLine) && sepes(lpVarContent, ptrCommandLine)
 invariant lpExpanded->str == \entry(lpExpanded->str) || \newin(lpExpanded->str)
 invariant lpVarContent->str == \entry(lpVarContent->str) || \newin(lpVarContent->str)
 invariant \obj(lpToken) == \obj(ptrCommandLine->str) && \obj(lpPreviousToken) == \obj(ptrCommandLine->str) && 0 <= \off(lpPreviousToken) && \off(lpPreviousToken) <= \off(lpToken) && \off(lpToken) <= \old(\len(ptrCommandLine->str))
 invariant \str(lpToken) && \off(lpToken) + \len(lpToken) == \old(\len(ptrCommandLine->str))
 invariant \str(lpPreviousToken) && \off(lpPreviousToken) + \len(lpPreviousToken) == \old(\len(ptrCommandLine->str))
 invariant \len(lpExpanded->str) <= \off(lpPreviousToken) * 0x1000
 variant \old(\len(ptrCommandLine->str)) - \off(lpToken)

// as proved for pBat_GetVar (getvar.spec), for values shorter than 4096 bytes
logic int envobj(int z)
pred dirs(ESTR* r) = \str(lpCurrentDir) && \len(lpCurrentDir) < 4096 && \obj(lpCurrentDir) != \obj(r) && \obj(lpCurrentDir) != \obj(r->str) && envobj(0) > 0 && envobj(0) != \obj(r) && envobj(0) != \obj(r->str) && envobj(0) != \obj(lpCurrentDir) && \alive(\mk(envobj(0), 0)) && \len(\mk(envobj(0), 0)) < 0x10000
extern int pBat_GetVar(char* n, ESTR* r)
requires \str(n) && ES(r) && \obj(n) != \obj(r) && \obj(n) != \obj(r->str)
requires dirs(r) && envobj(0) != \obj(n)
assigns r, r->str
frees r->str
ensures ES(r)
ensures r->str == \old(r->str) || \fresh(r->str)
ensures \len(r->str) < 0x1000
extern void** __ctype_b_loc()
extern int isdigit(int c)

fn pBat_ExpandVar
option merge
option mergemem
option aliveax
requires line(ptrCommandLine, buf) && \len(ptrCommandLine->str) < 0x10000 && \len(buf[0]->str) == 0 && !\oom
requires cDelimiter == '%' || cDelimiter == '!'
requires dirs(ptrCommandLine) && dirs(buf[0]) && dirs(buf[1])
assigns ptrCommandLine, ptrCommandLine->str, buf[0], buf[0]->str, buf[1], buf[1]->str
frees ptrCommandLine->str, buf[0]->str, buf[1]->str
before pBat_GetLocalVar: \bytes(ptrCommandLine->str)[\old(\len(ptrCommandLine->str))] == 0
before pBat_GetLocalVar: \forall int k; \off(ptrNextToken) <= k && k < \old(\len(ptrCommandLine->str)) ==> \bytes(ptrCommandLine->str)[k] != 0
before pBat_SearchChar: \bytes(ptrCommandLine->str)[\old(\len(ptrCommandLine->str))] == 0
ensures ES(ptrCommandLine)
ensures ES(buf[0]) && ES(buf[1])
ensures sepes(ptrCommandLine, buf[0]) && sepes(ptrCommandLine, buf[1]) && sepes(buf[0], buf[1])
loop 1
 assigns ptrCommandLine->str, buf[0], buf[0]->str, buf[1], buf[1]->str
 frees buf[0]->str, buf[1]->str
 invariant ES(lpExpanded) && ES(lpVarContent) && ES(ptrCommandLine) && sepes(lpExpanded, lpVarContent) && sepes(lpExpanded, ptrCommandLine) && sepes(lpVarContent, ptrCommandLine)
 invariant lpExpanded->str == \entry(lpExpanded->str) || \newin(lpExpanded->str)
 invariant lpVarContent->str == \entry(lpVarContent->str) || \newin(lpVarContent->str)
 invariant \forall int k; \off(ptrToken) <= k && k < \old(\len(ptrCommandLine->str)) ==> \bytes(ptrCommandLine->str)[k] != 0
 invariant \bytes(ptrCommandLine->str)[\old(\len(ptrCommandLine->str))] == 0
 invariant \obj(ptrToken) == \obj(ptrCommandLine->str) && 0 <= \off(ptrToken) && \off(ptrToken) <= \old(\len(ptrCommandLine->str))
 invariant \str(ptrToken) && \off(ptrToken) + \len(ptrToken) == \old(\len(ptrCommandLine->str))
 invariant \len(lpExpanded->str) <= \off(ptrToken) * 0x1000
 variant \old(\len(ptrCommandLine->str)) - \off(ptrToken)
