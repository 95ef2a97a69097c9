include common.spec
use string.spec
use estr.spec
source pbat/core/pBat_Args.c
extern void pBat_DelayedExpand(ESTR* e)
requires ES(e)
assigns e, e->str
frees e->str
ensures ES(e)
ensures e->str == \old(e->str) || \fresh(e->str)

fn pBat_GetParameterPointers
requires \str(lpLine) && \len(lpLine) < 0x10000000 && goodset(lpDelims) && inset(lpDelims, '"') && \valid(lpPBegin) && \valid(lpPEnd) && \obj(lpPBegin) != \obj(lpLine) && \obj(lpPEnd) != \obj(lpLine) && \obj(lpPBegin) != \obj(lpPEnd) && \obj(lpPBegin) != \obj(lpDelims) && \obj(lpPEnd) != \obj(lpDelims)
assigns lpPBegin, lpPEnd
ensures \result == 0 || \result == 1
ensures \result == 0 ==> *lpPEnd == \old(*lpPEnd) && (\forall int j; \off(lpLine) <= j < eos(lpLine) ==> delim(\bytes(lpLine)[j]))
ensures \result == 1 ==> within(*lpPBegin, lpLine) && !delim(**lpPBegin) && **lpPBegin != 0 && (\forall int j; \off(lpLine) <= j < \off(*lpPBegin) ==> delim(\bytes(lpLine)[j]))
ensures \result == 1 && *lpPEnd != \null ==> \obj(*lpPEnd) == \obj(lpLine) && \off(*lpPBegin) <= \off(*lpPEnd) && \off(*lpPEnd) < eos(lpLine) && inset(lpDelims, **lpPEnd) && **lpPEnd != '"'
ensures \result == 1 && *lpPEnd != \null && **lpPBegin == '"' ==> \off(*lpPBegin) + 2 <= \off(*lpPEnd)
loop 1
 invariant within(lpLine, \old(lpLine)) && \off(lpBegin) <= \off(lpLine)
 invariant lpLine == lpBegin || \off(lpLine) >= \off(lpBegin) + 2
 variant eos(\old(lpLine)) - \off(lpLine)

fn pBat_GetNextParameterEsD
requires \str(lpLine) && \len(lpLine) < 0x10000000 && goodset(lpDelims) && inset(lpDelims, '"') && ES(lpReturn) && !\oom
requires \obj(lpReturn) != \obj(lpLine) && \obj(lpReturn->str) != \obj(lpLine) && \obj(lpReturn) != \obj(lpDelims) && \obj(lpReturn->str) != \obj(lpDelims)
assigns lpReturn, lpReturn->str
frees lpReturn->str
ensures ES(lpReturn)
ensures lpReturn->str == \old(lpReturn->str) || \fresh(lpReturn->str)
ensures \result == \null || (within(\result, lpLine) && \off(lpLine) <= \off(\result))
ensures (\forall int j; 0 <= j < \len(lpDelims) ==> lpDelims[j] == '"' || delim(lpDelims[j])) && \result != \null ==> \off(lpLine) < \off(\result)
loop label next
 assigns lpReturn, lpReturn->str, &lpBegin, &lpEnd
 frees lpReturn->str
 invariant within(lpLine, \old(lpLine)) && ES(lpReturn)
 invariant lpReturn->str == \entry(lpReturn->str) || \newin(lpReturn->str)
 variant eos(\old(lpLine)) - \off(lpLine)
loop 1
 assigns &lpEnd
 invariant within(lpEnd, lpBegin)
 variant eos(lpBegin) - \off(lpEnd)
