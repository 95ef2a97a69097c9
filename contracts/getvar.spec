include common.spec
use string.spec
use estr.spec
source pbat/core/pBat_Var.c
// the object that holds the value the environment has under the looked-up name
logic int envobj(int z)
pred curdir(char* c) = \str(c) && \len(c) < 4096 && \off(c) == 0
extern char* pBat_GetEnv(ENVBUF* e, char* n)
requires \str(n)
ensures \result == \null || (\obj(\result) == envobj(0) && \off(\result) == 0 && \str(\result))
extern int strcasecmp(char* a, char* b)
requires \str(a) && \str(b)
extern int rand()
ensures 0 <= \result
extern void pBat_GetTimeBasedVar(char t, char* b, size_t n)
requires \valid(b, n) && n >= 30
assigns range(b, 0, n)
ensures \str(b)
extern long atol(char* s)
requires \str(s)
fn pBat_GetVar
option merge
option mergemem
option aliveax
requires \str(lpName) && \len(lpName) < 0x1000 && ES(lpRecieve) && curdir(lpCurrentDir)
requires \obj(lpName) != \obj(lpRecieve) && \obj(lpName) != \obj(lpRecieve->str) && \obj(lpCurrentDir) != \obj(lpRecieve) && \obj(lpCurrentDir) != \obj(lpRecieve->str)
requires envobj(0) > 0 && envobj(0) != \obj(lpRecieve) && envobj(0) != \obj(lpRecieve->str) && envobj(0) != \obj(lpCurrentDir)
requires \alive(\mk(envobj(0), 0)) && \len(\mk(envobj(0), 0)) < 0x10000 && !\oom
assigns lpRecieve, lpRecieve->str, \mk(envobj(0), 0), lpCurrentDir
before strchr: lpNameCpy[\old(\len(lpName))] == 0
before atol: lpNameCpy[\old(\len(lpName))] == 0
before free: \obj(lpRecieve->str) != envobj(0) && \obj(lpRecieve->str) != \obj(lpCurrentDir)
before free: \valid(lpRecieve->str, lpRecieve->len) && \size(lpRecieve->str) == lpRecieve->len
before free: lpRecieve->str[\len(lpRecieve->str)] == 0
frees lpRecieve->str
ensures ES(lpRecieve)
ensures \forall int k; 0 <= k < \old(\size(\mk(envobj(0), 0))) ==> \mk(envobj(0), 0)[k] == \old(\mk(envobj(0), 0)[k])
ensures \forall int k; 0 <= k < 4096 ==> lpCurrentDir[k] == \old(lpCurrentDir[k])
