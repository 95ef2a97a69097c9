// S03: variables and their frames, SETLOCAL and ENDLOCAL
include env.spec
use string.spec
use args.spec
include cache.spec
extern void pBat_ShowInternalHelp(int s)
extern int strncasecmp(char* a, char* b, size_t n)
requires \str(a) && \str(b)

extern int strcmp(char* a, char* b)
requires \str(a) && \str(b)

source pbat/core/pBat_Args.c
fn pBat_GetNextParameter
requires \str(lpLine) && \len(lpLine) < 0x10000000 && !\oom && iLength > 0 && \valid(lpResponseBuffer, iLength) && \obj(lpResponseBuffer) != \obj(lpLine) && \allocated(lpLine) && \allocated(lpResponseBuffer)
assigns range(lpResponseBuffer, 0, iLength)
ensures \str(lpResponseBuffer)
ensures \result == \null || (within(\result, lpLine) && \off(lpLine) < \off(\result))

source pbat/command/pBat_Setlocal.c
// what SETLOCAL keeps is the state before it; a request it refuses keeps nothing
fn pBat_CmdSetLocal
requires \str(lpLine) && \len(lpLine) >= 8 && \len(lpLine) < 0x10000000 && !\oom && \allocated(lpLine)
requires table(lpeEnv) && (lpesEnv == \null || \allocated(lpesEnv))
assigns &lpeEnv, &lpesEnv, &bDelayedExpansion, &bCmdlyCorrect
ensures lpesEnv == \old(lpesEnv) || (\fresh(lpesEnv) && \valid(lpesEnv))
ensures lpesEnv == \old(lpesEnv) ==> lpeEnv == \old(lpeEnv)
ensures lpesEnv != \old(lpesEnv) ==> lpesEnv->previous == \old(lpesEnv) && lpesEnv->lpeEnv == \old(lpeEnv) && \result == iErrorLevel
ensures lpesEnv != \old(lpesEnv) ==> lpesEnv->bDelayedExpansion == \old(bDelayedExpansion) && lpesEnv->bCmdlyCorrect == \old(bCmdlyCorrect)
ensures lpesEnv != \old(lpesEnv) ==> dup0(lpeEnv, \old(lpeEnv))
loop 1
 assigns &lpName, &bDelayedExpansion, &bCmdlyCorrect
 invariant within(lpNext, \old(lpLine)) && (push == 0 || push == 1) && delayed == \old(bDelayedExpansion) && correct == \old(bCmdlyCorrect)
 invariant lpesEnv == \old(lpesEnv) && lpeEnv == \old(lpeEnv)
 variant eos(\old(lpLine)) - \off(lpNext)

// ENDLOCAL takes back exactly that; its help does nothing
fn pBat_CmdEndLocal
requires \str(lpLine) && \len(lpLine) >= 8
requires lpesEnv == \null || (\valid(lpesEnv) && \off(lpesEnv) == 0 && \obj(lpesEnv) > 0 && \valid(lpeEnv))
assigns &lpeEnv, &lpesEnv, &bDelayedExpansion, &bCmdlyCorrect
frees lpesEnv
ensures \old(lpesEnv) == \null ==> lpesEnv == \null && lpeEnv == \old(lpeEnv) && bDelayedExpansion == \old(bDelayedExpansion) && bCmdlyCorrect == \old(bCmdlyCorrect)
ensures \old(lpesEnv) != \null ==> ((lpesEnv == \old(lpesEnv->previous) && lpeEnv == \old(lpesEnv->lpeEnv) && bDelayedExpansion == \old(lpesEnv->bDelayedExpansion) && bCmdlyCorrect == \old(lpesEnv->bCmdlyCorrect)) || (lpesEnv == \old(lpesEnv) && lpeEnv == \old(lpeEnv) && bDelayedExpansion == \old(bDelayedExpansion) && bCmdlyCorrect == \old(bCmdlyCorrect)))
