use if.spec
use estr.spec
include cache.spec
source pbat/command/pBat_IfExp.c
// trees of conditions: records closed under "child", with a rank that decreases and the value they should have
logic bool et(ifexp_t* e)
logic bool tn(ifexp_line_t* t)
logic int rk(ifexp_t* e)
logic int ev(ifexp_t* e)
logic int tst(ifexp_line_t* t)
pred okc1(ifexp_t* e) = e->child1.type == 1 ? tn(e->child1.child.ops) && \off(e->child1.child.ops) == 0 : et(e->child1.child.exp) && \off(e->child1.child.exp) == 0 && 0 <= rk(e->child1.child.exp) < rk(e)
pred okc2(ifexp_t* e) = e->child2.type == 1 ? tn(e->child2.child.ops) && \off(e->child2.child.ops) == 0 : et(e->child2.child.exp) && \off(e->child2.child.exp) == 0 && 0 <= rk(e->child2.child.exp) < rk(e)
pred v1(ifexp_t* e) = e->child1.type == 1 ? tst(e->child1.child.ops) : ev(e->child1.child.exp)
pred v2(ifexp_t* e) = e->child2.type == 1 ? tst(e->child2.child.ops) : ev(e->child2.child.exp)
// and, or: the right side does not matter once the left side decides; -1 is an error
pred both(int t, int a, int b) = a == 0 - 1 ? 0 - 1 : (t == 2 ? (a == 0 ? 0 : b) : (a != 0 ? 1 : b))
pred okexp(ifexp_t* e) = \valid(e) && \obj(e) > 0 && 0 <= e->type <= 2 && (e->type == 0 ? tn(e->child1.child.ops) && \off(e->child1.child.ops) == 0 && ev(e) == tst(e->child1.child.ops) : okc1(e) && okc2(e) && ev(e) == both(e->type, v1(e), v2(e)))
// what the tests ask of the environment, the file system and the C library (assumed: functions of the text only)
logic bool defd(char* s)
logic bool fmatch(char* s)
logic int cmpv(char* op, char* a, char* b, int fl)
extern char* pBat_GetEnv(ENVBUF* e, char* n)
requires \str(n)
ensures \result != \null <==> defd(n)
extern void pBat_MakeFullPath(char* full, char* part, int n)
requires \str(part) && \valid(full, n) && \obj(full) != \obj(part)
assigns full
ensures \str(full) && (fmatch(full) <==> fmatch(part))
extern FILELIST* pBat_GetMatchFileList(char* name, int flags)
requires \str(name)
ensures \result != \null <==> fmatch(name)
extern void pBat_FreeFileList(FILELIST* l)
extern long strtol(char* s, char** e, int base)
requires \str(s) && e == \null && base == 0
assigns &errno
ensures \result == slv(s)
// its contract is proved in if.spec; here: what it answers depends on the texts and the flags only
extern int pBat_PerformExtendedTest(char* lpCmp, char* lpParam1, char* lpParam2, int iFlag)
requires \str(lpCmp) && \str(lpParam1) && \str(lpParam2) && \obj(lpParam1) > 0 && \obj(lpParam2) > 0
assigns &errno
ensures \result == cmpv(lpCmp, lpParam1, lpParam2, iFlag) && (\result == 0 - 1 || \result == 0 || \result == 1)
// a test is a list of texts
pred e1(ifexp_line_t* t) = \valid(t) && \obj(t) > 0 && \valid(t->op) && \obj(t->op) > 0 && \str(t->op->str) && \obj(t->op->str) > 0 && \allocated(t) && \allocated(t->op) && \allocated(t->op->str)
pred e2(ifexp_line_t* t) = e1(t) && (t->next == \null || e1(t->next))
pred e4(ifexp_line_t* t) = e2(t) && (t->next == \null || t->next->next == \null || (e1(t->next->next) && (t->next->next->next == \null || e1(t->next->next->next))))
pred un(ifexp_line_t* t) = ci(t->op->str, "DEFINED") == 0 || ci(t->op->str, "EXIST") == 0 || ci(t->op->str, "ERRORLEVEL") == 0
pred unval(ifexp_line_t* t) = ci(t->op->str, "DEFINED") == 0 ? defd(t->next->op->str) : (ci(t->op->str, "EXIST") == 0 ? fmatch(t->next->op->str) : iErrorLevel >= slv(t->next->op->str))
// the value of a test without NOT, then with it; -1 for a malformed one
pred tv(ifexp_line_t* t, int fl) = un(t) ? ((t->next == \null || t->next->next != \null) ? 0 - 1 : (unval(t) ? 1 : 0)) : ((t->next == \null || t->next->next == \null || t->next->next->next != \null) ? 0 - 1 : cmpv(t->next->op->str, t->op->str, t->next->next->op->str, fl))
pred inv2(int v) = v == 0 - 1 ? 0 - 1 : (v == 0 ? 1 : 0)
pred ntv(ifexp_line_t* t, int fl) = ci(t->op->str, "NOT") == 0 ? (t->next == \null ? 0 - 1 : inv2(tv(t->next, fl))) : tv(t, fl)
fn pBat_IfExp_ExecuteTest
requires e4(test)
assigns &errno
ensures \result == \old(ntv(test, flags))
ensures \result == 0 - 1 || \result == 0 || \result == 1

fn pBat_IfExp_Evaluate
option rec
requires et(exp) && \off(exp) == 0 && rk(exp) >= 0 && (\forall int k; { et(\mk(k, 0, exp)) } et(\mk(k, 0, exp)) ==> okexp(\mk(k, 0, exp)))
requires \forall int k; { tn(\mk(k, 0, exp->child1.child.ops)) } tn(\mk(k, 0, exp->child1.child.ops)) ==> e4(\mk(k, 0, exp->child1.child.ops)) && tst(\mk(k, 0, exp->child1.child.ops)) == ntv(\mk(k, 0, exp->child1.child.ops), flags)
decreases rk(exp)
assigns &errno
ensures \result == ev(exp) && (\result == 0 - 1 || \result == 0 || \result == 1)

// lists of elements, with a rank that decreases
logic bool el(ifexp_line_t* l)
logic int lr(ifexp_line_t* l)
pred okel(ifexp_line_t* l) = \valid(l) && \obj(l) > 0 && ES(l->op) && \obj(l) != \obj(l->op) && \obj(l) != \obj(l->op->str) && \allocated(l) && \allocated(l->op) && \allocated(l->op->str) && (l->next == \null || (el(l->next) && \off(l->next) == 0 && 0 <= lr(l->next) && lr(l->next) < lr(l)))
pred list(ifexp_line_t* l) = el(l) && \off(l) == 0 && lr(l) >= 0 && (\forall int k; { el(\mk(k, 0, l)) } el(\mk(k, 0, l)) ==> okel(\mk(k, 0, l)))
pred is1(ESTR* e, int c) = e->str[0] == c && e->str[1] == 0

fn pBat_IfExp_AddLineElement
requires \valid(line) && \valid(ops) && (*ops == \null || \valid(*ops)) && \obj(line) > 0 && \obj(ops) > 0 && \obj(line) != \obj(ops) && (*ops == \null || (\obj(*ops) != \obj(line) && \obj(*ops) != \obj(ops)))
assigns line, ops, *ops
ensures \result == 0 || (\result == 1 && \oom && *line == \old(*line) && *ops == \old(*ops))
ensures \result == 0 ==> \fresh(*ops) && \valid(*ops) && (*ops)->op == elem && (*ops)->next == \null && *line == (\old(*line) == \null ? *ops : \old(*line))
ensures \result == 0 && \old(*ops) != \null ==> \old(*ops)->next == *ops && \old(*ops)->op == \old((*ops)->op)
