include common.spec
// comparison of two strings ignoring case: sign only, a strict weak order (assumed of strcasecmp)
logic int ci(bytes a, int i, bytes b, int j)
extern int strcasecmp(char* a, char* b)
requires \str(a) && \str(b)
ensures \result == ci(\bytes(a), \off(a), \bytes(b), \off(b))
extern int tolower(int c)
requires -1 <= c <= 255
ensures \result == ((c >= 'A' && c <= 'Z') ? c + 32 : c)
source pbat/core/pBat_Env.c
pred blank(int c) = c == ' ' || c == 9
// order of two slots: unset ones (no name) after every name
pred ncmp0(char* a, char* b) = (a == \null && b == \null) || (a != \null && b != \null && ci(\bytes(a), \off(a), \bytes(b), \off(b)) == 0)
pred ncmplt(char* a, char* b) = (a != \null && b == \null) || (a != \null && b != \null && ci(\bytes(a), \off(a), \bytes(b), \off(b)) < 0)
pred slot(ENVVAR* v) = \valid(v) && v != \null && (v->name == \null || \str(v->name))

fn pBat_EnvCompName
requires \valid((ENVVAR**)p1) && \valid((ENVVAR**)p2) && slot(*(ENVVAR**)p1) && slot(*(ENVVAR**)p2)
ensures \result == 0 <==> ncmp0((*(ENVVAR**)p1)->name, (*(ENVVAR**)p2)->name)
ensures \result < 0 <==> ncmplt((*(ENVVAR**)p1)->name, (*(ENVVAR**)p2)->name)

// '_' against the lower-cased first byte, the way the table is sorted
fn pBat_EnvCompLocal
requires \valid((ENVVAR**)p1) && \valid((ENVVAR**)p2) && slot(*(ENVVAR**)p1) && slot(*(ENVVAR**)p2)
ensures (*(ENVVAR**)p2)->name == \null ==> \result < 0
ensures (*(ENVVAR**)p2)->name != \null ==> \result == '_' - lowb(*((*(ENVVAR**)p2)->name))
logic int lowb(int c) = (c >= 'A' && c <= 'Z') ? c + 32 : (c < 0 ? c + 256 : c)

fn pBat_ReAllocEnvBuf
requires \valid(nb) && 0 <= *nb && *nb < 0x1000000
requires envbuf == \null || (\valid(envbuf, 1) && \off(envbuf) == 0 && \obj(envbuf) > 0 && \obj(envbuf) != \obj(nb))
assigns nb
frees envbuf
ensures *nb > \old(*nb) && *nb <= \old(*nb) + 128
ensures \result != \null && \valid(\result, *nb) && \off(\result) == 0 && \fresh(\result)
ensures envbuf != \null ==> (\forall int k; 0 <= k && 8 * k + 8 <= \old(\size(envbuf)) && k < *nb ==> \result[k] == \old(envbuf[k]))

fn pBat_AllocEnvVar
requires (name == \null || \str(name)) && (content == \null || \str(content))
ensures \result != \null && \fresh(\result) && \valid(\result) && \result->previous == \null && \result->inherit == 0
ensures (name == \null || content == \null) ==> (\result->name == \null && \result->content == \null)
ensures (name != \null && content != \null) ==> (\fresh(\result->name) && \str(\result->name) && \len(\result->name) == \len(name) && (\forall int k; 0 <= k < \len(name) ==> \result->name[k] == name[k]))
ensures (name != \null && content != \null) ==> (\fresh(\result->content) && \str(\result->content) && \len(\result->content) == \len(content) && (\forall int k; 0 <= k < \len(content) ==> \result->content[k] == content[k]))

fn pBat_AdjustVarName
requires \str(name)
assigns range(name, 0, \len(name)+1)
ensures \str(name) && \len(name) <= \old(\len(name))
ensures \forall int k; 0 <= k < \len(name) ==> name[k] == \old(name[k])
ensures \len(name) < \old(\len(name)) ==> !blank(name[\len(name)-1]) && \len(name) > 0
ensures \forall int k; \len(name) <= k < \old(\len(name)) ==> blank(\old(name[k]))
ensures (\exists int k; 0 <= k < \old(\len(name)) && !blank(\old(name[k]))) ==> \len(name) > 0 && !blank(name[\len(name)-1])
loop 1
 invariant \obj(name) == \obj(\old(name)) && \off(\old(name)) <= \off(name) && \off(name) <= \off(\old(name)) + \len(\old(name))
 invariant pLast == \null || (\obj(pLast) == \obj(\old(name)) && \off(\old(name)) <= \off(pLast) && \off(pLast) < \off(name) && !blank(*pLast))
 invariant pLast == \null ==> (\forall int k; \off(\old(name)) <= k < \off(name) ==> blank(\bytes(name)[k]))
 invariant pLast != \null ==> (\forall int k; \off(pLast) < k < \off(name) ==> blank(\bytes(name)[k]))
 variant \off(\old(name)) + \len(\old(name)) - \off(name)

// a table of variables: every used entry is a variable with a name and a value (or an unset one)
pred var1(ENVVAR* v) = \valid(v) && \obj(v) > 0 && v != \null && \allocated(v) && (v->name == \null || (\str(v->name) && \allocated(v->name))) && (v->content == \null || (\str(v->content) && \allocated(v->content)))
pred table(ENVBUF* b) = \valid(b) && \obj(b) > 0 && \obj(b->envbuf) > 0 && 8 * b->index <= \size(b->envbuf) - \off(b->envbuf) && \allocated(b) && 0 <= b->index && b->index <= b->nb && b->nb < 0x1000000 && \valid(b->envbuf, b->nb) && \allocated(b->envbuf) && (\forall int k; 0 <= k < b->index ==> var1(b->envbuf[k]))

pred eqtext(char* p, char* q) = \str(p) && \len(p) == \len(q) && (\forall int k; 0 <= k < \len(q) ==> p[k] == q[k])
// the name and the value of v are those of w
pred named(ENVVAR* w) = w->name != \null && w->content != \null
pred copyname(ENVVAR* v, ENVVAR* w) = named(w) ? (v->name != \null && \allocated(v->name) && eqtext(v->name, w->name)) : v->name == \null
pred copyval(ENVVAR* v, ENVVAR* w) = named(w) ? (v->content != \null && \allocated(v->content) && eqtext(v->content, w->content)) : v->content == \null

// b is a copy of c: as many variables, in the same places, with the same names and values
pred dup0(ENVBUF* b, ENVBUF* c) = \fresh(b) && b != \null && \valid(b) && b->nb == c->nb && b->index == c->index && \fresh(b->envbuf) && \valid(b->envbuf, c->nb)
pred dup1(ENVBUF* b, ENVBUF* c) = \forall int k; { b->envbuf[k] } 0 <= k < c->index ==> \fresh(b->envbuf[k]) && \valid(b->envbuf[k])
pred dup2(ENVBUF* b, ENVBUF* c) = \forall int k; { b->envbuf[k] } 0 <= k < c->index ==> copyname(b->envbuf[k], c->envbuf[k])
pred dup3(ENVBUF* b, ENVBUF* c) = \forall int k; { b->envbuf[k] } 0 <= k < c->index ==> copyval(b->envbuf[k], c->envbuf[k])
// SETLOCAL keeps working on a copy: as many variables, in the same places, with the same names and
// values, and the copied table is left alone
fn pBat_EnvDup
requires table(pBuf)
ensures dup0(\result, pBuf)
ensures dup1(\result, pBuf)
ensures dup2(\result, pBuf)
ensures dup3(\result, pBuf)
loop 1
 assigns pNew->envbuf
 invariant \valid(pBuf->envbuf, pBuf->nb)
 invariant \valid(pNew->envbuf, pBuf->nb)
 invariant 0 <= i && i <= pBuf->index
 invariant \size(pBuf->envbuf) - \off(pBuf->envbuf) >= 8 * pBuf->index
 invariant \forall int k; 0 <= k < i ==> \fresh(pNew->envbuf[k]) && \allocated(pNew->envbuf[k]) && \valid(pNew->envbuf[k]) && \obj(pNew->envbuf[k]) != \obj(pNew->envbuf)
 invariant \forall int k; 0 <= k < i ==> copyname(pNew->envbuf[k], pBuf->envbuf[k])
 invariant \forall int k; 0 <= k < i ==> copyval(pNew->envbuf[k], pBuf->envbuf[k])
 hint \forall int k; 0 <= k < \prev(i) ==> pNew->envbuf[k] == \prev(pNew->envbuf[k])
 hint \forall int k; 0 <= k < \prev(i) ==> pNew->envbuf[k]->name == \prev(pNew->envbuf[k]->name) && pNew->envbuf[k]->content == \prev(pNew->envbuf[k]->content)
 hint \forall int k; 0 <= k < \prev(i) && pNew->envbuf[k]->name != \null ==> \bytes(pNew->envbuf[k]->name) == \prev(\bytes(pNew->envbuf[k]->name)) && \size(pNew->envbuf[k]->name) == \prev(\size(pNew->envbuf[k]->name)) && \allocated(pNew->envbuf[k]->name)
 hint \forall int k; 0 <= k < \prev(i) && pNew->envbuf[k]->content != \null ==> \bytes(pNew->envbuf[k]->content) == \prev(\bytes(pNew->envbuf[k]->content)) && \size(pNew->envbuf[k]->content) == \prev(\size(pNew->envbuf[k]->content)) && \allocated(pNew->envbuf[k]->content)
 hint copyname(pNew->envbuf[\prev(i)], pBuf->envbuf[\prev(i)]) && copyval(pNew->envbuf[\prev(i)], pBuf->envbuf[\prev(i)])
 hint \forall int k; 0 <= k < \prev(i) ==> copyname(pNew->envbuf[k], pBuf->envbuf[k])
 hint \forall int k; 0 <= k < \prev(i) ==> copyval(pNew->envbuf[k], pBuf->envbuf[k])
 variant pBuf->index - i

// ---- SETLOCAL / ENDLOCAL
source pbat/core/pBat_EnvStack.c
extern void pBat_EnvFree(ENVBUF* b)
requires \valid(b)

fn pBat_PushEnvStack
requires table(lpeEnv)
assigns &lpeEnv, &lpesEnv
ensures \fresh(lpesEnv) && \valid(lpesEnv) && lpesEnv->previous == \old(lpesEnv) && lpesEnv->lpeEnv == \old(lpeEnv)
ensures lpesEnv->bDelayedExpansion == bDelayedExpansion && lpesEnv->bCmdlyCorrect == bCmdlyCorrect
ensures dup0(lpeEnv, \old(lpeEnv))
ensures dup1(lpeEnv, \old(lpeEnv))
ensures dup2(lpeEnv, \old(lpeEnv))
ensures dup3(lpeEnv, \old(lpeEnv))
ensures \obj(lpeEnv) != \obj(lpesEnv)

fn pBat_PopEnvStack
requires lpesEnv == \null || (\valid(lpesEnv) && \off(lpesEnv) == 0 && \obj(lpesEnv) > 0 && \valid(lpeEnv))
assigns &lpeEnv, &lpesEnv, &bDelayedExpansion, &bCmdlyCorrect
frees lpesEnv
ensures \old(lpesEnv) == \null ==> lpesEnv == \null && lpeEnv == \old(lpeEnv) && bDelayedExpansion == \old(bDelayedExpansion) && bCmdlyCorrect == \old(bCmdlyCorrect)
ensures \old(lpesEnv) != \null ==> lpesEnv == \old(lpesEnv->previous) && lpeEnv == \old(lpesEnv->lpeEnv)
ensures \old(lpesEnv) != \null ==> bDelayedExpansion == \old(lpesEnv->bDelayedExpansion) && bCmdlyCorrect == \old(lpesEnv->bCmdlyCorrect)
