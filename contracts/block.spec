include common.spec
use string.spec
source pbat/core/pBat_ParseBlock.c
extern int strncasecmp(char* a, char* b, size_t n)
requires (\str(a) || \valid(a, n)) && (\str(b) || \valid(b, n))
ensures (\result == 0) ==> (\forall int k; 0 <= k < n && k < \len(b) ==> a[k] != 0 && a[k] != '^')
// what ends a line of commands: an operator, a line feed, a closing parenthesis, the end of the text
pred lend(int c, int par) = c == 0 || c == 10 || c == '&' || c == '|' || (par != 0 && c == ')')

fn pBat_GetBlockLineEndEx
option rec
requires \str(pch) && \len(pch) < 0x40000000
decreases 2 * \len(pch) + 1
ensures \result == \null || (within(\result, pch) && (*\result == 0 || !escp(pch, \result)))
ensures \result != \null && \result != pch && !lend(*\result, par_end) ==> \bytes(pch)[\off(\result)-1] == ')'
hint \result == \null || within(\result, pch)
hint \result == \null || \off(\result) == \off(pch) || \bytes(pch)[\off(\result)-1] == ')' || *\result == 0 || lend(*\result, par_end)
loop 1
 invariant within(pch, \old(pch)) && bnd(\old(pch), pch) && eos(pch) == eos(\old(pch))
 variant eos(\old(pch)) - \off(pch)
loop 2
 invariant within(pch, \old(pch))
 variant eos(\old(pch)) - \off(pch)
loop 3
 invariant pch != \null && within(pch, \old(pch)) && bnd(\old(pch), pch) && eos(pch) == eos(\old(pch))
 variant eos(\old(pch)) - \off(pch)
loop 4
 invariant within(pch, \old(pch))
 variant eos(\old(pch)) - \off(pch)

fn pBat_GetNextBlockEnd
option rec
requires \str(pch) && \len(pch) < 0x40000000
decreases 2 * \len(pch)
ensures *pch != '(' ==> \result == \null
ensures \result != \null ==> within(\result, pch) && \off(pch) < \off(\result) && *\result == ')' && \off(\result) < eos(pch)
loop 1
 invariant pch != \null && within(pch, \old(pch)) && \off(\old(pch)) < \off(pch)
 variant eos(\old(pch)) - \off(pch)

fn pBat_GetNextBlockBeginEx
requires \str(pch) && \len(pch) < 0x40000000
ensures \result != \null ==> within(\result, pch) && *\result == '(' && !escp(pch, \result)
loop 1
 invariant within(pch, \old(pch)) && bnd(\old(pch), pch)
 variant eos(\old(pch)) - \off(pch)


source pbat/core/pBat_Args.c
// the block after blanks: between its brackets, or up to the end of the line
fn pBat_GetNextBlock
requires \str(lpLine) && \len(lpLine) < 0x40000000 && \valid(lpbkInfo) && \obj(lpbkInfo) != \obj(lpLine)
assigns lpbkInfo
ensures within(\result, lpLine) && lpbkInfo->lpEnd == \result && within(lpbkInfo->lpBegin, lpLine) && \off(lpbkInfo->lpBegin) <= \off(\result)
ensures *\result == ')' || *\result == 10 || *\result == 0
ensures \forall int j; \off(lpLine) <= j && j < \off(lpbkInfo->lpBegin) - 1 ==> delim(\bytes(lpLine)[j])
ensures \off(lpLine) < \off(lpbkInfo->lpBegin) ==> delim(\bytes(lpLine)[\off(lpbkInfo->lpBegin) - 1]) || \bytes(lpLine)[\off(lpbkInfo->lpBegin) - 1] == '('
ensures *\result == ')' ==> \off(lpbkInfo->lpBegin) > \off(lpLine) && \bytes(lpLine)[\off(lpbkInfo->lpBegin) - 1] == '('
loop 1
 invariant within(lpBlockEnd, lpLine) && \off(lpLine) <= \off(lpBlockEnd)
 invariant \forall int j; { \bytes(lpLine)[j] } \off(lpLine) <= j && j < \off(lpBlockEnd) ==> \bytes(lpLine)[j] != 10
 variant eos(lpLine) - \off(lpBlockEnd)

fn pBat_GetBlockLine
requires \str(pLine) && \len(pLine) < 0x40000000 && \valid(pBk) && \obj(pBk) != \obj(pLine)
assigns pBk
ensures pBk->lpEnd == \result && (\result == \null || within(\result, pLine))
ensures pBk->lpBegin == (*pLine == '(' ? pLine + 1 : pLine)
