include common.spec
use str.spec
use estr.spec
use var.spec
use cache.spec
source pbat/command/pBat_For.c
// ---- tokens of a line (absolute positions in bytes a, line starting at o; d: the delimiters)
pred dl(char* d, int c) = inset(d, c)
// number of tokens that start in [o, i)
logic int ntok(bytes a, char* d, int o, int i) = i <= o ? 0 : ntok(a, d, o, i-1) + ((!inset(d, a[i-1]) && (i-1 == o || inset(d, a[i-2]))) ? 1 : 0)
lemma ntok_run induct i from p: \forall bytes a, str d, int o, int p, int i; { ntok(a, d, o, p), ntok(a, d, o, i) } o < p && p <= i && !inset(d, a[p-1]) && (\forall int j; p <= j < i ==> !inset(d, a[j])) ==> ntok(a, d, o, i) == ntok(a, d, o, p)
lemma ntok_mono induct i from p: \forall bytes a, str d, int o, int p, int i; { ntok(a, d, o, p), ntok(a, d, o, i) } o <= p && p <= i ==> ntok(a, d, o, p) <= ntok(a, d, o, i) && ntok(a, d, o, i) <= ntok(a, d, o, p) + i - p
lemma ntok_start induct i from p: \forall bytes a, str d, int o, int p, int i; { ntok(a, d, o, p), ntok(a, d, o, i) } o <= p && p < i && !inset(d, a[p]) && (p == o || inset(d, a[p-1])) ==> ntok(a, d, o, p) < ntok(a, d, o, i)
pred N(char* s, char* d, int i) = ntok(\bytes(s), d, \off(s), i)
// a token starts at i
pred tstart(char* s, char* d, int i) = \off(s) <= i < eos(s) && !inset(d, \bytes(s)[i]) && (i == \off(s) || inset(d, \bytes(s)[i-1]))
// tokens b to e of s (b <= e), e cut at the end: L characters from position i
pred tokens(char* s, char* d, int b, int e, int i, int L) = (i + L == eos(s) && (\forall int j; i <= j < eos(s) && inset(d, \bytes(s)[j]) ==> N(s, d, j) < e)) || (i + L < eos(s) && L > 0 && inset(d, \bytes(s)[i+L]) && !inset(d, \bytes(s)[i+L-1]) && N(s, d, i+L) == e)
pred hi(int t) = (t % 4294967296) / 65536
pred lo(int t) = t % 65536

fn pBat_ForGetToken
requires ES(lpContent) && ES(lpReturn) && !\oom && \len(lpContent->str) < 0x10000000
requires \obj(lpContent->str) != \obj(lpReturn->str) && \obj(lpContent->str) != \obj(lpReturn) && \obj(lpContent) != \obj(lpReturn) && \obj(lpContent) != \obj(lpReturn->str)
requires \valid(lpfrInfo) && \str(lpfrInfo->lpDelims) && 0 <= iPos && iPos < 96 && \obj(lpfrInfo) > 0
requires \obj(lpfrInfo) != \obj(lpContent->str) && \obj(lpfrInfo) != \obj(lpReturn->str) && \obj(lpfrInfo) != \obj(lpReturn) && \obj(lpfrInfo) != \obj(lpContent)
assigns lpReturn, lpReturn->str
frees lpReturn->str
ensures ES(lpReturn)
ensures lpReturn->str == \old(lpReturn->str) || \fresh(lpReturn->str)
// number of the first and the last token wanted
ensures hi(lpfrInfo->lpToken[iPos]) == 0 || hi(lpfrInfo->lpToken[iPos]) > N(lpContent->str, lpfrInfo->lpDelims, eos(lpContent->str)) ==> \len(lpReturn->str) == 0
before pBat_EsCpyN: lpBeginToken != \null ==> \obj(lpBeginToken) == \obj(lpContent->str) && N(lpContent->str, lpfrInfo->lpDelims, \off(lpBeginToken)) == hi(lpfrInfo->lpToken[iPos]) - 1
before pBat_EsCpy: lpBeginToken != \null ==> \obj(lpBeginToken) == \obj(lpContent->str) && N(lpContent->str, lpfrInfo->lpDelims, \off(lpBeginToken)) == hi(lpfrInfo->lpToken[iPos]) - 1
before pBat_EsCpyN: lpBeginToken != \null && \off(lpBeginToken) < eos(lpContent->str) ==> tstart(lpContent->str, lpfrInfo->lpDelims, \off(lpBeginToken))
before pBat_EsCpy: lpBeginToken != \null && \off(lpBeginToken) < eos(lpContent->str) ==> tstart(lpContent->str, lpfrInfo->lpDelims, \off(lpBeginToken))
before pBat_EsCpyN: lpBeginToken != \null ==> (\forall int i; tstart(lpContent->str, lpfrInfo->lpDelims, i) && N(lpContent->str, lpfrInfo->lpDelims, i) == hi(lpfrInfo->lpToken[iPos]) - 1 ==> i == \off(lpBeginToken))
before pBat_EsCpy: lpBeginToken != \null ==> (\forall int i; tstart(lpContent->str, lpfrInfo->lpDelims, i) && N(lpContent->str, lpfrInfo->lpDelims, i) == hi(lpfrInfo->lpToken[iPos]) - 1 ==> i == \off(lpBeginToken))
before pBat_EsCpyN: lpEndToken != \null ==> \obj(lpEndToken) == \obj(lpContent->str) && inset(lpfrInfo->lpDelims, \bytes(lpContent->str)[\off(lpEndToken)]) && !inset(lpfrInfo->lpDelims, \bytes(lpContent->str)[\off(lpEndToken)-1]) && \off(lpEndToken) < eos(lpContent->str)
before pBat_EsCpy: lpEndToken != \null ==> \obj(lpEndToken) == \obj(lpContent->str) && inset(lpfrInfo->lpDelims, \bytes(lpContent->str)[\off(lpEndToken)]) && !inset(lpfrInfo->lpDelims, \bytes(lpContent->str)[\off(lpEndToken)-1]) && \off(lpEndToken) < eos(lpContent->str)
before pBat_EsCpyN: lpEndToken != \null ==> \off(lpToken) < \off(lpEndToken) && N(lpContent->str, lpfrInfo->lpDelims, \off(lpToken) + 1) == N(lpContent->str, lpfrInfo->lpDelims, \off(lpToken)) + 1
before pBat_EsCpyN: lpEndToken != \null ==> N(lpContent->str, lpfrInfo->lpDelims, \off(lpEndToken)) == N(lpContent->str, lpfrInfo->lpDelims, \off(lpToken) + 1)
before pBat_EsCpyN: lpEndToken != \null ==> N(lpContent->str, lpfrInfo->lpDelims, \off(lpEndToken)) == lo(lpfrInfo->lpToken[iPos])
before pBat_EsCpy: lpEndToken != \null ==> N(lpContent->str, lpfrInfo->lpDelims, \off(lpEndToken)) == lo(lpfrInfo->lpToken[iPos])
before pBat_EsCpyN: lpEndToken == \null && lo(lpfrInfo->lpToken[iPos]) > 0 ==> (\forall int j; \off(lpContent->str) <= j < eos(lpContent->str) && inset(lpfrInfo->lpDelims, \bytes(lpContent->str)[j]) ==> N(lpContent->str, lpfrInfo->lpDelims, j) < lo(lpfrInfo->lpToken[iPos]))
before pBat_EsCpy: lpEndToken == \null && lo(lpfrInfo->lpToken[iPos]) > 0 ==> (\forall int j; \off(lpContent->str) <= j < eos(lpContent->str) && inset(lpfrInfo->lpDelims, \bytes(lpContent->str)[j]) ==> N(lpContent->str, lpfrInfo->lpDelims, j) < lo(lpfrInfo->lpToken[iPos]))
ensures hi(lpfrInfo->lpToken[iPos]) > 0 && lo(lpfrInfo->lpToken[iPos]) >= hi(lpfrInfo->lpToken[iPos]) ==> (\forall int i; tstart(lpContent->str, lpfrInfo->lpDelims, i) && N(lpContent->str, lpfrInfo->lpDelims, i) == hi(lpfrInfo->lpToken[iPos]) - 1 ==> i + \len(lpReturn->str) <= eos(lpContent->str) && (\forall int k; 0 <= k < \len(lpReturn->str) ==> lpReturn->str[k] == \bytes(lpContent->str)[i+k]))
ensures hi(lpfrInfo->lpToken[iPos]) > 0 && lo(lpfrInfo->lpToken[iPos]) >= hi(lpfrInfo->lpToken[iPos]) ==> (\forall int i; tstart(lpContent->str, lpfrInfo->lpDelims, i) && N(lpContent->str, lpfrInfo->lpDelims, i) == hi(lpfrInfo->lpToken[iPos]) - 1 ==> tokens(lpContent->str, lpfrInfo->lpDelims, hi(lpfrInfo->lpToken[iPos]), lo(lpfrInfo->lpToken[iPos]), i, \len(lpReturn->str)))
loop 1
 invariant within(lpToken, lpContent->str)
 invariant 1 <= iTokenPos && iTokenPos <= \off(lpToken) - \off(lpContent->str) + 1
 invariant \off(lpToken) == \off(lpContent->str) || inset(lpfrInfo->lpDelims, \bytes(lpContent->str)[\off(lpToken) - 1])
 invariant N(lpContent->str, lpfrInfo->lpDelims, \off(lpToken)) == iTokenPos - 1
 invariant lpEndToken == \null && (iTokenEnd >= 1 ==> iTokenPos <= iTokenEnd)
 invariant iTokenPos <= iTokenBegin || iTokenBegin < 1 ==> lpBeginToken == \null
 invariant iTokenBegin >= 1 && iTokenPos > iTokenBegin ==> within(lpBeginToken, lpContent->str) && \off(lpBeginToken) < \off(lpToken) && tstart(lpContent->str, lpfrInfo->lpDelims, \off(lpBeginToken)) && N(lpContent->str, lpfrInfo->lpDelims, \off(lpBeginToken)) == iTokenBegin - 1
 hint \off(lpToken) > \off(\prev(lpToken)) + 1 ==> N(lpContent->str, lpfrInfo->lpDelims, \off(\prev(lpToken)) + 1) == N(lpContent->str, lpfrInfo->lpDelims, \off(\prev(lpToken))) + 1
 hint \off(lpToken) > \off(\prev(lpToken)) + 1 ==> N(lpContent->str, lpfrInfo->lpDelims, \off(lpToken) - 1) == N(lpContent->str, lpfrInfo->lpDelims, \off(\prev(lpToken)) + 1)
 hint N(lpContent->str, lpfrInfo->lpDelims, \off(lpToken)) == N(lpContent->str, lpfrInfo->lpDelims, \off(lpToken) - 1)
 variant eos(lpContent->str) - \off(lpToken)

// ---- the variables of the loop: cFirstVar, the following ones, after 127 comes 33
pred vn(int c, int i) = c + i <= 127 ? c + i : (c + i <= 222 ? c + i - 95 : c + i - 190)
// k is one of the first n variables
logic bool loopvar(int c, int n, int k) = n > 0 && (vn(c, n-1) == k || loopvar(c, n-1, k))
pred forinfo(struct FORINFO* f) = \valid(f) && \obj(f) > 0 && f->cFirstVar > 0x20 && 0 <= f->iTokenNb && f->iTokenNb <= 96

// a name for positions, so that the one found can be pointed at
logic bool ix(int i)
axiom ix: \forall int i; { ix(i) } ix(i)
fn pBat_ForVarCheckAssignment
requires blk(lpvLocalVars) && forinfo(lpfrInfo) && \obj(lpfrInfo) != \obj(lpvLocalVars)
ensures \result == 0 ==> (\forall int k; 0 <= k < 128 && loopvar(lpfrInfo->cFirstVar, lpfrInfo->iTokenNb, k) ==> lpvLocalVars[k] == \null)
ensures \result != 0 ==> (\exists int i; { ix(i) } ix(i) && 0 <= i && i < lpfrInfo->iTokenNb && lpvLocalVars[vn(lpfrInfo->cFirstVar, i)] != \null)
loop 1
 invariant ix(i) && 0 <= i && i <= iMax && 0x20 < cVarName && cVarName == vn(lpfrInfo->cFirstVar, i)
 invariant \forall int k; 0 <= k < 128 && loopvar(lpfrInfo->cFirstVar, i, k) ==> lpvLocalVars[k] == \null
 variant iMax - i

fn pBat_ForVarUnassign
requires blk(lpvLocalVars) && forinfo(lpfrInfo) && \obj(lpfrInfo) != \obj(lpvLocalVars)
requires \forall int k; 0x20 < k < 128 && lpvLocalVars[k] != \null ==> \obj(lpvLocalVars[k]) != \obj(lpfrInfo)
assigns lpvLocalVars
frees each(k, 0x20 < k && k < 128, lpvLocalVars[k])
ensures blk(lpvLocalVars)
ensures \forall int k; 0 <= k < 128 && loopvar(lpfrInfo->cFirstVar, lpfrInfo->iTokenNb, k) ==> lpvLocalVars[k] == \null
ensures \forall int k; 0 <= k < 128 && !loopvar(lpfrInfo->cFirstVar, lpfrInfo->iTokenNb, k) ==> lpvLocalVars[k] == \old(lpvLocalVars[k])
loop 1
 assigns lpvLocalVars
 frees each(k, 0x20 < k && k < 128, lpvLocalVars[k])
 invariant blk(lpvLocalVars)
 invariant 0 <= i && i <= iMax && 0x20 < cVarName && cVarName == vn(lpfrInfo->cFirstVar, i)
 invariant \forall int k; 0 <= k < 128 && loopvar(lpfrInfo->cFirstVar, i, k) ==> lpvLocalVars[k] == \null
 invariant \forall int k; 0 <= k < 128 && !loopvar(lpfrInfo->cFirstVar, i, k) ==> lpvLocalVars[k] == \entry(lpvLocalVars[k])
 invariant \forall int k; 0 <= k < 128 && lpvLocalVars[k] != \null ==> lpvLocalVars[k] == \entry(lpvLocalVars[k])
 variant iMax - i
