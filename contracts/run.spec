use string.spec
use stream.spec
use parse.spec
include cache.spec
source pbat/core/pBat_Run.c

// a file name of a redirection
pred name(char* f) = f == \null || (\str(f) && \obj(f) > 0)
fn pBat_ExecOutput
requires !\oom && streams() && open3(fdt) && (lppsStreamStack == \null || item(lppsStreamStack))
requires lppssStart == \null || (\valid(lppssStart) && \obj(lppssStart) > 0 && name(lppssStart->lpInputFile) && name(lppssStart->lpOutputFile) && name(lppssStart->lpErrorFile))
assigns fdt, fl, cl, &fOutput, &fError, &lppsStreamStack
ensures streams() && open3(fdt)
// nothing asked for: nothing changes
ensures (lppssStart == \null || (lppssStart->lpInputFile == \null && lppssStart->lpOutputFile == \null && lppssStart->lpErrorFile == \null && lppssStart->cRedir == 0)) ==> fdt == \old(fdt) && fOutput == \old(fOutput) && fError == \old(fError) && lppsStreamStack == \old(lppsStreamStack)
// substitutions
ensures lppssStart != \null && lppssStart->cRedir == 1 ==> fError == fOutput
ensures lppssStart != \null && lppssStart->cRedir == 2 ==> fOutput == fError
ensures lppsStreamStack == \old(lppsStreamStack) || (\fresh(lppsStreamStack) && item(lppsStreamStack) && lppsStreamStack->lock == 0)
ensures lppssStart != \null && lppssStart->cRedir == 0 && lppssStart->lpInputFile == \null && lppssStart->lpErrorFile == \null && lppssStart->lpOutputFile != \null && \fresh(lppsStreamStack) && lppsStreamStack->fd == 1 ==> fOutput == _fOutput && fdt[fno(_fOutput)] == opened(lppssStart->lpOutputFile, ((lppssStart->cOutputMode / 4) % 2 != 0) ? 1601 : 1089)
ensures lppssStart != \null && lppssStart->cRedir == 0 && lppssStart->lpInputFile == \null && lppssStart->lpOutputFile == \null && lppssStart->lpErrorFile != \null && \fresh(lppsStreamStack) && lppsStreamStack->fd == 2 ==> fError == _fError && fdt[fno(_fError)] == opened(lppssStart->lpErrorFile, ((lppssStart->cErrorMode / 4) % 2 != 0) ? 1601 : 1089)
ensures lppssStart != \null && lppssStart->cRedir == 0 && lppssStart->lpInputFile != \null && lppssStart->lpOutputFile == \null && lppssStart->lpErrorFile == \null && \fresh(lppsStreamStack) && lppsStreamStack->fd == 0 ==> fdt[fno(fInput)] == opened(lppssStart->lpInputFile, 0)


// commands of a line: records closed under "next"
logic bool node(PARSED_LINE* l)
pred recs(PARSED_STREAM* s) = s == \null || (PSO(s) && \allocated(s) && \allocated(s->lpInputFile) && \allocated(s->lpOutputFile) && \allocated(s->lpErrorFile))
pred rec(PARSED_LINE* l) = LN(l) && \obj(l->lpCmdLine->str) > 0 && \allocated(l) && \allocated(l->lpCmdLine) && \allocated(l->lpCmdLine->str) && recs(l->sStream) && (l->lppsNode == \null || (node(l->lppsNode) && \off(l->lppsNode) == 0 && l->sStream != \null))
pred away(PARSED_LINE** p, PARSED_LINE* l) = \obj(p) != \obj(l) && \obj(p) != \obj(l->lpCmdLine) && \obj(p) != \obj(l->lpCmdLine->str) && (l->sStream == \null || (\obj(p) != \obj(l->sStream) && \obj(p) != \obj(l->sStream->lpInputFile) && \obj(p) != \obj(l->sStream->lpOutputFile) && \obj(p) != \obj(l->sStream->lpErrorFile)))
pred line(PARSED_LINE* l, PARSED_LINE** p) = node(l) && \off(l) == 0 && (\forall int k; { node(\mk(k, 0, l)) } node(\mk(k, 0, l)) ==> rec(\mk(k, 0, l)) && away(p, \mk(k, 0, l)))
extern int pipe(int* p)
requires \valid(p, 8)
assigns p, fdt
ensures \result != 0 - 1 ==> p[0] >= 0 && p[1] >= 0 && p[0] != p[1] && \old(fdt)[p[0]] == 0 && \old(fdt)[p[1]] == 0 && fdt[p[0]] != 0 && fdt[p[1]] != 0
ensures \result != 0 - 1 ==> (\forall int k; k != p[0] && k != p[1] ==> fdt[k] == \old(fdt)[k])
ensures \result == 0 - 1 ==> fdt == \old(fdt)
extern int pBat_LockMutex(MUTEX* m)
extern int pBat_ReleaseMutex(MUTEX* m)
extern void pBat_CloseThread(THREAD* t)
extern THREAD pBat_CloneInstance(void* f, void* d)
fn pBat_ExecOperators
option merge
option mergemem
requires \valid(lpLine) && line(*lpLine, lpLine) && streams() && open3(fdt) && !\oom && \obj(lpLine) > 0
assigns fdt, fl, cl, lpLine, &lppsStreamStack
// || runs the command if the previous one failed, && if it succeeded; the rest of a pipe whose start did not run is skipped
ensures \old((*lpLine)->cNodeType) == 0 ==> \result % 2 == 0
ensures \old((*lpLine)->cNodeType) == 2 ==> (\result % 2 == 1 <==> iErrorLevel == 0)
ensures \old((*lpLine)->cNodeType) == 1 ==> (\result % 2 == 1 <==> iErrorLevel != 0)
ensures \old((*lpLine)->cNodeType) == 3 ==> \result % 2 == 1
ensures 0 <= \result <= 3 && line(*lpLine, lpLine)
ensures \result != 0 || (*lpLine)->lppsNode == \null || (*lpLine)->lppsNode->cNodeType != 3
loop 1
 assigns pipedes, &res, fdt, lpLine
 invariant *lpLine == line
 invariant line(line, lpLine)
 invariant (lastin == 0 - 1 || fdt[lastin] != 0) && open3(fdt)
 invariant status != 0 ==> line == \entry(line)
