// S07: arguments of a line, SHIFT
use var.spec
include args.spec
include cache.spec
source pbat/command/pBat_Shift.c
extern void pBat_ShowInternalHelp(int s)

pred av(int c) = ('0' <= c && c <= '9') || c == '+'
pred sep(ESTR* e) = \obj(e) > 0 && \obj(e->str) > 0 && \obj(e) != \obj(lpvArguments) && \obj(e->str) != \obj(lpvArguments) && (\forall int k; { lpvArguments[k] } 0x20 < k < 128 && lpvArguments[k] != \null ==> \obj(lpvArguments[k]) != \obj(e) && \obj(lpvArguments[k]) != \obj(e->str))
pred exists() = \allocated(lpvArguments) && (\forall int k; { lpvArguments[k] } 0x20 < k < 128 && lpvArguments[k] != \null ==> \allocated(lpvArguments[k]))
// a name for the numbers of a request
logic bool pr(int b, int d)
axiom pr: \forall int b, int d; { pr(b, d) } pr(b, d)
// the arguments from the b-th to the n-th are those d further, those before them as they were
pred asbefore(int b) = \forall int k; { lpvArguments[k] } '0' <= k && k < '0' + b ==> lpvArguments[k] == \old(lpvArguments[k])
pred one(int k, int d) = (lpvArguments[k] == \null <==> \old(lpvArguments[k+d]) == \null) && (lpvArguments[k] != \null ==> \len(lpvArguments[k]) == \old(\len(lpvArguments[k+d])) && (\forall int m; { \bytes(lpvArguments[k])[m] } 0 <= m && m < \len(lpvArguments[k]) ==> \bytes(lpvArguments[k])[m] == \old(\bytes(lpvArguments[k+d])[m])))
pred shifted(int n) = \exists int b, int d; { pr(b, d) } pr(b, d) && 0 <= b <= 9 && 0 <= d <= 9 && b <= n && asbefore(b)
fn pBat_CmdShift
requires \str(lpLine) && \len(lpLine) >= 5 && \len(lpLine) < 0x10000000 && !\oom && \obj(lpLine) > 0
requires blk(lpvArguments) && exists() && \obj(lpLine) != \obj(lpvArguments) && (\forall int k; 0x20 < k < 128 && lpvArguments[k] != \null ==> \len(lpvArguments[k]) < 0x10000000 && \obj(lpvArguments[k]) != \obj(lpLine))
requires lpvArguments['+'] != \null ==> \str(lpvArguments['+']) && \obj(lpvArguments['+']) != \obj(lpvArguments) && \len(lpvArguments['+']) < 0x10000000
assigns lpvArguments
frees each(k, av(k), lpvArguments[k])
ensures blk(lpvArguments)
// a request that is refused changes nothing
ensures \result != 0 ==> (\forall int k; 0 <= k < 128 ==> lpvArguments[k] == \old(lpvArguments[k]))
// only the arguments and what lies beyond the ninth
ensures \forall int k; 0 <= k < 128 && !av(k) ==> lpvArguments[k] == \old(lpvArguments[k])
before pBat_EsCacheFree: sep(lpEsArg)
before pBat_SetLocalVar: lpvArguments == \old(lpvArguments) && \obj(lpEsArg) != \obj(lpvArguments) && \obj(lpEsArg->str) != \obj(lpvArguments)
before pBat_SetLocalVar: sep(lpEsArg)
before pBat_GetNextParameterEsD: sep(lpEsArg)
before pBat_GetNextParameterEsD: exists()
// what was asked for
ensures \result == 0 ==> (shifted(10) || (\forall int k; 0 <= k < 128 ==> lpvArguments[k] == \old(lpvArguments[k])))
loop 1
 invariant exists()
 invariant sep(lpEsArg)
 assigns lpEsArg, lpEsArg->str
 frees lpEsArg->str
 invariant within(lpLine, \old(lpLine)) && \off(lpLine) >= \off(\old(lpLine)) + 5 && ES(lpEsArg) && status == 0 && 0 <= iBegin <= 9 && 0 <= iDisplacement <= 9
 invariant ES(lpEsArg)
 invariant \newin(lpEsArg->str) || lpEsArg->str == \entry(lpEsArg->str)
 variant eos(\old(lpLine)) - \off(lpLine)
loop 2
 cut
 hint \forall int k; { lpvArguments[k] } 0 <= k < 128 && k != '0' + iBegin - 1 ==> lpvArguments[k] == \prev(lpvArguments[k])
 hint \forall int k; { lpvArguments[k] } 0 <= k < '0' + iBegin - 1 && lpvArguments[k] != \null ==> \len(lpvArguments[k]) == \prev(\len(lpvArguments[k]))
 // each step takes the very text of the position further on
 hint one('0' + iBegin - 1, iDisplacement)
 invariant pr(iSkip + 10 - iDisplacement, iDisplacement) && 0 <= iSkip + 10 - iDisplacement <= 9 && iSkip + 10 - iDisplacement <= iBegin && (iBegin + iDisplacement <= 10 || iBegin == iSkip + 10 - iDisplacement)
 invariant asbefore(iSkip + 10 - iDisplacement)
 invariant lpvArguments == \old(lpvArguments)
 invariant lpvArguments['+'] == \old(lpvArguments['+']) && (lpvArguments['+'] != \null ==> \str(lpvArguments['+']) && \obj(lpvArguments['+']) != \obj(lpvArguments) && \len(lpvArguments['+']) < 0x10000000)
 invariant blk(lpvArguments)
 invariant exists() && status == 0 && 0 <= iBegin <= 10 && 0 <= iDisplacement <= 9 && iSkip <= 9 && iSkip >= 0 - 10
 invariant \forall int k; { lpvArguments[k] } 0 <= k < 128 && !('0' <= k && k < '0' + iBegin) ==> lpvArguments[k] == \old(lpvArguments[k])
 invariant \forall int k; { lpvArguments[k] } '0' <= k < '0' + iBegin && lpvArguments[k] != \null ==> lpvArguments[k] == \old(lpvArguments[k]) || \fresh(lpvArguments[k])
 invariant \forall int k; { lpvArguments[k] } 0x20 < k < 128 && lpvArguments[k] != \null ==> \len(lpvArguments[k]) < 0x10000000
 invariant \fresh(lpEsArg) && ES(lpEsArg) && \fresh(lpEsArg->str)
 invariant sep(lpEsArg)
 variant 10 - iBegin
loop 3
 hint lpvArguments == \old(lpvArguments) && (\forall int k; { lpvArguments[k] } 0 <= k < 128 ==> lpvArguments[k] == \prev(lpvArguments[k]))
 cut
 invariant shifted(iBegin)
 invariant lpvArguments == \old(lpvArguments)
 invariant lpvArguments['+'] == \old(lpvArguments['+']) && (lpvArguments['+'] != \null ==> \str(lpvArguments['+']) && \obj(lpvArguments['+']) != \obj(lpvArguments) && \len(lpvArguments['+']) < 0x10000000)
 invariant blk(lpvArguments)
 invariant exists() && status == 0 && 0 <= iBegin <= 10 && iSkip <= 9 && iSkip >= 0 - 11
 invariant \forall int k; { lpvArguments[k] } 0 <= k < 128 && !('0' <= k && k <= '9') ==> lpvArguments[k] == \old(lpvArguments[k])
 invariant \forall int k; { lpvArguments[k] } '0' <= k <= '9' && lpvArguments[k] != \null ==> lpvArguments[k] == \old(lpvArguments[k]) || \fresh(lpvArguments[k])
 invariant \fresh(lpEsArg) && ES(lpEsArg) && \fresh(lpEsArg->str)
 invariant sep(lpEsArg)
 invariant lpvArguments['+'] != \null && \str(lpvArguments['+']) && \len(lpvArguments['+']) < 0x10000000 && (lpToken == \null || within(lpToken, lpvArguments['+']))
 variant iSkip
loop 4
 cut
 invariant shifted(iBegin)
 invariant lpvArguments == \old(lpvArguments)
 invariant lpvArguments['+'] == \old(lpvArguments['+']) && (lpvArguments['+'] != \null ==> \str(lpvArguments['+']) && \obj(lpvArguments['+']) != \obj(lpvArguments) && \len(lpvArguments['+']) < 0x10000000)
 invariant blk(lpvArguments)
 invariant exists() && status == 0 && 0 <= iBegin <= 10
 invariant \forall int k; { lpvArguments[k] } 0 <= k < 128 && !('0' <= k && k <= '9') ==> lpvArguments[k] == \old(lpvArguments[k])
 invariant \forall int k; { lpvArguments[k] } '0' <= k <= '9' && lpvArguments[k] != \null ==> lpvArguments[k] == \old(lpvArguments[k]) || \fresh(lpvArguments[k])
 invariant \fresh(lpEsArg) && ES(lpEsArg) && \fresh(lpEsArg->str)
 invariant sep(lpEsArg)
 invariant lpvArguments['+'] != \null && \str(lpvArguments['+']) && \len(lpvArguments['+']) < 0x10000000 && (lpToken == \null || within(lpToken, lpvArguments['+']))
 variant 10 - iBegin
loop 5
 cut
 invariant shifted(iBegin)
 invariant lpvArguments == \old(lpvArguments)
 invariant blk(lpvArguments)
 invariant exists() && status == 0 && 0 <= iBegin <= 10
 invariant \forall int k; { lpvArguments[k] } 0 <= k < 128 && !av(k) ==> lpvArguments[k] == \old(lpvArguments[k])
 invariant \forall int k; { lpvArguments[k] } av(k) && lpvArguments[k] != \null ==> lpvArguments[k] == \old(lpvArguments[k]) || \fresh(lpvArguments[k])
 invariant \fresh(lpEsArg) && ES(lpEsArg) && \fresh(lpEsArg->str)
 invariant sep(lpEsArg)
 variant 10 - iBegin
