include libc.spec
source libpbat/estr/pBat_Estr.c

// capacity invariant: allocated buffer, at least 256 bytes, len = its size
pred ES(ESTR* e) = \valid(e) && \off(e) == 0 && \valid(e->str, e->len) && \off(e->str) == 0 && \size(e->str) == e->len && 256 <= e->len && e->len <= 0x20000000 && \str(e->str) && \obj(e) != \obj(e->str) && \obj(e) > 0 && \obj(e->str) > 0

fn __fast_compute_size
requires s <= 0x20000000
ensures \result >= s && 256 <= \result && \result <= 0x20000000
loop 1
 invariant 256 <= r && (exists2(r))
 invariant r <= 0x20000000
 variant s - r

logic bool exists2(int r) = r == 256 || r == 512 || r == 1024 || r == 2048 || r == 4096 || r == 8192 || r == 16384 || r == 32768 || r == 65536 || r == 131072 || r == 262144 || r == 524288 || r == 1048576 || r == 2097152 || r == 4194304 || r == 8388608 || r == 16777216 || r == 33554432 || r == 67108864 || r == 134217728 || r == 268435456 || r == 536870912

extern int puts(char* s)

fn pBat_EsInit
requires !\oom
ensures \fresh(\result) && ES(\result) && \fresh(\result->str) && \len(\result->str) == 0 && \result->len == 256

fn pBat_strdup
requires \str(src)
ensures \result == \null ==> \oom
ensures \result != \null ==> (\fresh(\result) && \off(\result) == 0 && \str(\result) && \len(\result) == \len(src) && (\forall int k; 0 <= k <= \len(src) ==> \result[k] == src[k]))

fn pBat_EsFree
requires \valid(ptrESTR) && \off(ptrESTR) == 0 && \off(ptrESTR->str) == 0 && \valid(ptrESTR->str,1) && \obj(ptrESTR) > 0 && \obj(ptrESTR->str) > 0 && \obj(ptrESTR) != \obj(ptrESTR->str)
frees ptrESTR, ptrESTR->str
ensures \result == 0 && !\alive(ptrESTR) && !\alive(\old(ptrESTR->str))

fn pBat_EsCpy
requires ES(ptrESTR) && \str(ptrChaine) && \len(ptrChaine) < 0x20000000
requires \obj(ptrChaine) != \obj(ptrESTR->str)  && \obj(ptrChaine) != \obj(ptrESTR)
assigns ptrESTR, ptrESTR->str
frees ptrESTR->str
ensures ES(ptrESTR)
ensures \result == 0 || \oom
ensures \result == 0 ==> (\len(ptrESTR->str) == \old(\len(ptrChaine)) && (\forall int k; 0 <= k < \old(\len(ptrChaine)) ==> ptrESTR->str[k] == \old(ptrChaine[k])))
ensures \result != 0 ==> (ptrESTR->str == \old(ptrESTR->str) && \same(ptrESTR->str))
ensures ptrESTR->str == \old(ptrESTR->str) || (\fresh(ptrESTR->str) && !\alive(\old(ptrESTR->str)))

fn pBat_EsCpyN
requires ES(ptrESTR) && (\str(ptrChaine) || (\valid(ptrChaine, iSize) && iSize <= \len(ptrChaine))) && iSize < 0x20000000
requires \obj(ptrChaine) != \obj(ptrESTR->str)  && \obj(ptrChaine) != \obj(ptrESTR)
assigns ptrESTR, ptrESTR->str
frees ptrESTR->str
hint \result == 0 ==> ptrESTR->str[\min(iSize, \old(\len(ptrChaine)))] == 0
ensures ES(ptrESTR)
ensures \result == 0 || \oom
ensures \result == 0 ==> (\len(ptrESTR->str) == \min(iSize, \old(\len(ptrChaine))) && (\forall int k; 0 <= k < \min(iSize, \old(\len(ptrChaine))) ==> ptrESTR->str[k] == \old(ptrChaine[k])))
ensures \result != 0 ==> (ptrESTR->str == \old(ptrESTR->str) && \same(ptrESTR->str))
ensures ptrESTR->str == \old(ptrESTR->str) || (\fresh(ptrESTR->str) && !\alive(\old(ptrESTR->str)))

fn pBat_EsCat
requires ES(ptrESTR) && \str(ptrChaine) && \len(ptrESTR->str) + \len(ptrChaine) < 0x20000000
requires \obj(ptrChaine) != \obj(ptrESTR->str)  && \obj(ptrChaine) != \obj(ptrESTR)
assigns ptrESTR, ptrESTR->str
frees ptrESTR->str
ensures ES(ptrESTR)
ensures \result == 0 || \oom
ensures \result == 0 ==> (\len(ptrESTR->str) == \old(\len(ptrESTR->str)) + \old(\len(ptrChaine)) && (\forall int k; 0 <= k < \old(\len(ptrESTR->str)) ==> ptrESTR->str[k] == \old(ptrESTR->str[k])) && (\forall int k; 0 <= k < \old(\len(ptrChaine)) ==> ptrESTR->str[\old(\len(ptrESTR->str)) + k] == \old(ptrChaine[k])))
ensures \result != 0 ==> (ptrESTR->str == \old(ptrESTR->str) && \same(ptrESTR->str))
ensures ptrESTR->str == \old(ptrESTR->str) || (\fresh(ptrESTR->str) && !\alive(\old(ptrESTR->str)))

fn pBat_EsCatN
requires ES(ptrESTR) && (\str(ptrChaine) || (\valid(ptrChaine, iSize) && iSize <= \len(ptrChaine))) && \len(ptrESTR->str) + iSize < 0x20000000
requires \obj(ptrChaine) != \obj(ptrESTR->str)  && \obj(ptrChaine) != \obj(ptrESTR)
assigns ptrESTR, ptrESTR->str
frees ptrESTR->str
ensures ES(ptrESTR)
ensures \result == 0 || \oom
ensures \result == 0 ==> (\len(ptrESTR->str) == \old(\len(ptrESTR->str)) + \min(iSize, \old(\len(ptrChaine))) && (\forall int k; 0 <= k < \old(\len(ptrESTR->str)) ==> ptrESTR->str[k] == \old(ptrESTR->str[k])) && (\forall int k; 0 <= k < \min(iSize, \old(\len(ptrChaine))) ==> ptrESTR->str[\old(\len(ptrESTR->str)) + k] == \old(ptrChaine[k])))
ensures \result != 0 ==> (ptrESTR->str == \old(ptrESTR->str) && \same(ptrESTR->str))
ensures ptrESTR->str == \old(ptrESTR->str) || (\fresh(ptrESTR->str) && !\alive(\old(ptrESTR->str)))

fn pBat_EsCpyE
requires ES(ptrDest) && ES(ptrSource)
requires \obj(ptrSource->str) != \obj(ptrDest->str)  && \obj(ptrSource->str) != \obj(ptrDest) && \obj(ptrSource) != \obj(ptrDest->str) && \obj(ptrSource) != \obj(ptrDest)
assigns ptrDest, ptrDest->str
frees ptrDest->str
ensures ES(ptrDest)
ensures \result == 0 || \oom
ensures \result == 0 ==> (\len(ptrDest->str) == \len(ptrSource->str) && (\forall int k; 0 <= k < \len(ptrSource->str) ==> ptrDest->str[k] == ptrSource->str[k]))
ensures \result != 0 ==> (ptrDest->str == \old(ptrDest->str) && \same(ptrDest->str))
ensures ptrDest->str == \old(ptrDest->str) || (\fresh(ptrDest->str) && !\alive(\old(ptrDest->str)))

fn pBat_EsCatE
requires ES(ptrDest) && ES(ptrSource) && \len(ptrDest->str) + \len(ptrSource->str) < 0x20000000
requires \obj(ptrSource->str) != \obj(ptrDest->str)  && \obj(ptrSource->str) != \obj(ptrDest) && \obj(ptrSource) != \obj(ptrDest->str) && \obj(ptrSource) != \obj(ptrDest)
assigns ptrDest, ptrDest->str
frees ptrDest->str
ensures ES(ptrDest)
ensures \result == 0 || \oom
ensures \result == 0 ==> (\len(ptrDest->str) == \old(\len(ptrDest->str)) + \len(ptrSource->str) && (\forall int k; 0 <= k < \old(\len(ptrDest->str)) ==> ptrDest->str[k] == \old(ptrDest->str[k])) && (\forall int k; 0 <= k < \len(ptrSource->str) ==> ptrDest->str[\old(\len(ptrDest->str)) + k] == ptrSource->str[k]))
ensures \result != 0 ==> (ptrDest->str == \old(ptrDest->str) && \same(ptrDest->str))
ensures ptrDest->str == \old(ptrDest->str) || (\fresh(ptrDest->str) && !\alive(\old(ptrDest->str)))

// replacement: the text keeps the invariant of ESTR, nothing else is touched
pred rep(ESTR* e, char* a, char* b) = ES(e) && \len(e->str) < 0x10000 && \str(a) && \len(a) < 0x10000 && \str(b) && \len(b) < 0x1000 && \obj(a) != \obj(e) && \obj(a) != \obj(e->str) && \obj(b) != \obj(e) && \obj(b) != \obj(e->str)
fn pBat_EsReplace
requires rep(ptrESTR, ptrPattern, ptrReplace) && !\oom
assigns ptrESTR, ptrESTR->str
frees ptrESTR->str
ensures ES(ptrESTR) && \result == 0
ensures ptrESTR->str == \old(ptrESTR->str) || \fresh(ptrESTR->str)
ensures \len(ptrPattern) == 0 ==> ptrESTR->str == \old(ptrESTR->str) && \same(ptrESTR->str)
loop 1
 assigns ptrESTR->str, lpReturn, lpReturn->str
 frees lpReturn->str
 invariant ES(lpReturn) && \fresh(lpReturn) && \fresh(lpReturn->str)
 invariant lpReturn->str == \entry(lpReturn->str) || \newin(lpReturn->str)
 invariant \obj(lpBuffer) == \obj(ptrESTR->str) && 0 <= \off(lpBuffer) && \off(lpBuffer) <= \old(\len(ptrESTR->str)) && \str(lpBuffer)
 invariant \off(lpBuffer) + \len(lpBuffer) == \old(\len(ptrESTR->str))
 invariant \len(lpReturn->str) <= \off(lpBuffer) * 0x1000
 invariant ES(ptrESTR)
 variant \old(\len(ptrESTR->str)) - \off(lpBuffer)

extern int strncasecmp(char* a, char* b, size_t n)
requires (\str(a) || \valid(a, n)) && (\str(b) || \valid(b, n))
ensures \result == 0 ==> (\forall int k; 0 <= k < n && k < \len(b) ==> a[k] != 0)
fn stristr
requires \str(str) && \str(pattern)
ensures \result != \null ==> \off(\result) + \len(pattern) <= \off(str) + \len(str)
ensures \result != \null ==> \obj(\result) == \obj(str) && \off(str) <= \off(\result) && \off(\result) <= \off(str) + \len(str) && (\len(pattern) == 0 || \off(\result) < \off(str) + \len(str))
loop 1
 invariant \obj(str) == \obj(\old(str)) && \off(\old(str)) <= \off(str) && \off(str) <= \off(\old(str)) + \len(\old(str))
 variant \off(\old(str)) + \len(\old(str)) - \off(str)

fn pBat_EsReplaceI
requires rep(ptrESTR, ptrPattern, ptrReplace) && !\oom
assigns ptrESTR, ptrESTR->str
frees ptrESTR->str
ensures ES(ptrESTR) && \result == 0
ensures ptrESTR->str == \old(ptrESTR->str) || \fresh(ptrESTR->str)
ensures \len(ptrPattern) == 0 ==> ptrESTR->str == \old(ptrESTR->str) && \same(ptrESTR->str)
loop 1
 assigns ptrESTR->str, lpReturn, lpReturn->str
 frees lpReturn->str
 invariant ES(lpReturn) && \fresh(lpReturn) && \fresh(lpReturn->str)
 invariant lpReturn->str == \entry(lpReturn->str) || \newin(lpReturn->str)
 invariant \obj(lpBuffer) == \obj(ptrESTR->str) && 0 <= \off(lpBuffer) && \off(lpBuffer) <= \old(\len(ptrESTR->str)) && \str(lpBuffer)
 invariant \off(lpBuffer) + \len(lpBuffer) == \old(\len(ptrESTR->str))
 invariant \len(lpReturn->str) <= \off(lpBuffer) * 0x1000
 invariant ES(ptrESTR)
 variant \old(\len(ptrESTR->str)) - \off(lpBuffer)
