// S16: loops
include for.spec
use args.spec
// FOR /L: the three numbers in the order they are read, the value of the next iteration, how many numbers there were
ghost int nn
ghost int vbegin
ghost int vinc
ghost int vend
ghost int nextv
logic int declen(int v)
logic int decch(int v, int k)
pred decimal(char* p, int v) = \str(p) && \len(p) == declen(v) && (\forall int k; { \bytes(p)[k] } \off(p) <= k < \off(p) + declen(v) ==> \bytes(p)[k] == decch(v, k - \off(p)))
// numbers are assumed to fit in an int (what is larger is cut down by the cast)
extern long strtol(char* s, char** e, int base)
requires \str(s) && \valid(e) && base == 0 && \obj(e) != \obj(s)
assigns e, &errno
ensures \old(nn) == 1 ==> \result >= 0
ensures within(*e, s) && 0 - 2147483648 <= \result <= 2147483647
gset vbegin = nn == 0 ? \result : vbegin
gset nextv = nn == 0 ? \result : nextv
gset vinc = nn == 1 ? \result : vinc
gset vend = nn == 2 ? \result : vend
gset nn = nn + 1
extern int snprintf(char* d, size_t n, char* f, int v)
requires \valid(d, n) && n >= 12 && f[0] == '%' && f[1] == 'd' && f[2] == 0
assigns range(d, 0, n)
ensures decimal(d, v) && \len(d) < n

source pbat/command/pBat_For.c
pred exists() = \allocated(lpvLocalVars) && (\forall int k; { lpvLocalVars[k] } 0x20 < k && k < 128 && lpvLocalVars[k] != \null ==> \allocated(lpvLocalVars[k]))
pred sep(ESTR* e) = \obj(e) > 0 && \obj(e->str) > 0 && \obj(e) != \obj(lpvLocalVars) && \obj(e->str) != \obj(lpvLocalVars) && (\forall int k; { lpvLocalVars[k] } 0x20 < k && k < 128 && lpvLocalVars[k] != \null ==> \obj(lpvLocalVars[k]) != \obj(e) && \obj(lpvLocalVars[k]) != \obj(e->str))
// a run of the body: leaves a block of variables, sets or not the request to leave the loop
extern void pBat_RunForBody(PARSED_LINE* p)
requires blk(lpvLocalVars) && exists()
assigns lpvLocalVars, &bAbortCommand
frees each(k, 0x20 < k && k < 128 && lpvLocalVars[k] != \null, lpvLocalVars[k])
ensures blk(lpvLocalVars) && exists()
ensures \forall int k; { lpvLocalVars[k] } 0x20 < k && k < 128 && lpvLocalVars[k] != \null ==> lpvLocalVars[k] == \old(lpvLocalVars[k]) || \fresh(lpvLocalVars[k])
gset nextv = nextv + vinc

fn pBat_CmdForL
requires ES(lpInput) && !\oom && blk(lpvLocalVars) && \obj(lpInput) != \obj(lpvLocalVars) && \obj(lpInput->str) != \obj(lpvLocalVars) && \len(lpInput->str) < 0x10000000 && \allocated(lpvLocalVars) && \allocated(lpInput->str)
requires \forall int k; { lpvLocalVars[k] } 0x20 < k && k < 128 && lpvLocalVars[k] != \null ==> \obj(lpvLocalVars[k]) != \obj(lpInput) && \obj(lpvLocalVars[k]) != \obj(lpInput->str)
requires nn == 0 && vbegin == 0 && vinc == 0 && vend == 0 && nextv == 0 && bAbortCommand == 0 && exists()
assigns lpvLocalVars, &bAbortCommand, &errno, nn, vbegin, vinc, vend, nextv
frees each(k, 0x20 < k && k < 128, lpvLocalVars[k])
// once for each value, in order, and none is left out unless the body left the loop
before pBat_SetLocalVar: lpvLocalVars == \old(lpvLocalVars)
before pBat_RunForBody: lpvLocalVars == \old(lpvLocalVars)
before pBat_EsCacheFree: lpvLocalVars == \old(lpvLocalVars)
before pBat_EsCacheFree: \obj(lpesStr) > 0 && \obj(lpesStr) != \obj(lpvLocalVars) && \obj(lpesStr->str) != \obj(lpvLocalVars)
before pBat_EsCacheFree: sep(lpesStr)
before pBat_SetLocalVar: sep(lpesStr)
before pBat_RunForBody: sep(lpesStr)
before pBat_RunForBody: \forall int k; { lpvLocalVars[k] } 0x20 < k && k < 128 && lpvLocalVars[k] != \null ==> lpvLocalVars[k] == \old(lpvLocalVars[k]) || \fresh(lpvLocalVars[k])
before pBat_RunForBody: \forall int k; { lpvLocalVars[k] } 0x20 < k && k < 128 && lpvLocalVars[k] != \null ==> \obj(lpvLocalVars[k]) != \obj(iLoopInfo) && \obj(lpvLocalVars[k]) != \obj(lpValue)
before pBat_SetLocalVar: \forall int k; { lpvLocalVars[k] } 0x20 < k && k < 128 && lpvLocalVars[k] != \null ==> lpvLocalVars[k] == \old(lpvLocalVars[k]) || \fresh(lpvLocalVars[k])
before pBat_GetNextParameterEsD: sep(lpesStr)
before pBat_GetNextParameterEsD: exists()
before pBat_RunForBody: iValue == nextv && nextv <= vend && (lvname(cVarName) ==> lpvLocalVars[cVarName] != \null && decimal(lpvLocalVars[cVarName], nextv))
ensures \result == 0 && bAbortCommand == 0 ==> nextv > vend
ensures \result != 0 ==> nextv == vbegin && (\forall int k; 0 <= k < 128 ==> lpvLocalVars[k] == \old(lpvLocalVars[k]))
ensures \result == 0 && lvname(cVarName) ==> lpvLocalVars[cVarName] == \null
ensures blk(lpvLocalVars)
loop 1
 invariant exists() && sep(lpesStr)
 assigns lpesStr, lpesStr->str, &errno, &iLoopInfo, &lpNext, nn, vbegin, vinc, vend, nextv
 frees lpesStr->str
 invariant ES(lpesStr) && (lpesStr->str == \entry(lpesStr->str) || \newin(lpesStr->str))
 invariant within(lpToken, lpInput->str) && 0 <= i <= 3 && status == 0 && i == nn
 invariant iLoopInfo[0] == vbegin && iLoopInfo[1] == vinc && iLoopInfo[2] == vend && nextv == vbegin && 0 <= vinc <= 2147483647 && 0 - 2147483648 <= vbegin <= 2147483647 && 0 - 2147483648 <= vend <= 2147483647
 variant eos(lpInput->str) - \off(lpToken)
loop 2
 cut
 invariant lpvLocalVars == \old(lpvLocalVars) && exists() && nn <= 3 && \old(bAbortCommand) == 0
 invariant \fresh(lpesStr) && ES(lpesStr) && \fresh(lpesStr->str)
 invariant blk(lpvLocalVars) && bAbortCommand == 0 && status == 0
 invariant \forall int k; { lpvLocalVars[k] } 0x20 < k && k < 128 && lpvLocalVars[k] != \null ==> lpvLocalVars[k] == \old(lpvLocalVars[k]) || \fresh(lpvLocalVars[k])
 invariant \forall int k; { lpvLocalVars[k] } 0x20 < k && k < 128 && lpvLocalVars[k] != \null ==> \obj(lpvLocalVars[k]) != \obj(lpesStr) && \obj(lpvLocalVars[k]) != \obj(lpesStr->str)
 invariant \forall int k; { lpvLocalVars[k] } 0x20 < k && k < 128 && lpvLocalVars[k] != \null ==> \obj(lpvLocalVars[k]) != \obj(iLoopInfo) && \obj(lpvLocalVars[k]) != \obj(lpValue)
 invariant iValue == nextv && iLoopInfo[2] == vend && iLoopInfo[1] == vinc && 0 <= vinc <= 2147483647 && 0 - 2147483648 <= vend <= 2147483647 && 0 - 2147483648 <= nextv && nextv < 8589934592
