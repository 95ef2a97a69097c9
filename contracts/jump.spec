include common.spec
use string.spec
source pbat/core/pBat_Jump.c
ghost int upd
// comparison ignoring case, as the C library makes it (a function of the two texts)
logic bool pfxi(char* a, char* b)
extern int strncasecmp(char* a, char* b, size_t n)
requires \str(a) && \str(b)
ensures n == \len(b) ==> (\result == 0 <==> pfxi(a, b))
ensures n == \len(b) && \result == 0 ==> \len(b) <= \len(a)
extern int strcasecmp(char* a, char* b)
requires \str(a) && \str(b)
extern int pBat_OpenBatchScript(struct batch_script_t* s, char* name)
requires \str(name) && \valid(s)
assigns s
extern void pBat_FreeBatchScript(struct batch_script_t* s)
requires \valid(s)
assigns s
// brings the list of labels up to date with the file
logic bool node(struct labels_t* l)
logic int pos(struct labels_t* l)
// l is a label of the script: well formed, numbered in order, nobody shares a number
pred lab(struct labels_t* l) = \valid(l) && \off(l) == 0 && \obj(l) > 0 && \str(l->label) && \obj(l->label) > 0 && pos(l) >= 0 && (l->following == \null || (\valid(l->following) && \obj(l->following) > 0)) && (l->next == \null || (node(l->next) && \off(l->next) == 0 && pos(l->next) == pos(l) + 1))
pred labels(struct labels_t* h) = (\forall int k; { node(\mk(k, 0, h)) } node(\mk(k, 0, h)) ==> lab(\mk(k, 0, h)) && h != \null && (\mk(k, 0, h)->next == \null ==> (\forall int j; { node(\mk(j, 0, h)) } node(\mk(j, 0, h)) ==> pos(\mk(j, 0, h)) <= pos(\mk(k, 0, h))))) && (\forall int j, int k; { node(\mk(k, 0, h)), node(\mk(j, 0, h)) } node(\mk(k, 0, h)) && node(\mk(j, 0, h)) && pos(\mk(j, 0, h)) == pos(\mk(k, 0, h)) ==> j == k) && (h == \null || (node(h) && \off(h) == 0 && pos(h) == 0))
extern int pBat_UpdateScript(INPUT_FILE* in)
requires \valid(in)
assigns in, &errno, upd
ensures upd == \result
ensures \result != 0 - 1 ==> labels(in->batch.lbls)
// label l names s: the same text, ignoring case, up to a blank or the end
pred names(struct labels_t* l, char* s) = pfxi(l->label, s) && (l->label[\len(s)] == 0 || delim(l->label[\len(s)]))

fn pBat_JumpToLabel
requires lpFileName == \null && bCmdlyCorrect == 0 && \str(lpLabelName) && \obj(lpLabelName) > 0
assigns &ifIn, &errno, upd
ensures \result == 0 || \result == 0 - 1
ensures \old(ifIn.lpFileName[0]) == 0 ==> \result == 0 - 1
// the first label of that name, the line that follows it is the next one
ensures \result == 0 ==> (\exists int k; node(\mk(k, 0, ifIn.batch.lbls)) && names(\mk(k, 0, ifIn.batch.lbls), lpLabelName) && (\forall int j; { node(\mk(j, 0, ifIn.batch.lbls)) } node(\mk(j, 0, ifIn.batch.lbls)) && pos(\mk(j, 0, ifIn.batch.lbls)) < pos(\mk(k, 0, ifIn.batch.lbls)) ==> !names(\mk(j, 0, ifIn.batch.lbls), lpLabelName)) && ifIn.batch.curr == (\mk(k, 0, ifIn.batch.lbls)->following == \null ? ifIn.batch.cmds : \mk(k, 0, ifIn.batch.lbls)->following->next))
// no label of that name: only then, or when the file cannot be read
ensures \result == 0 - 1 && \old(ifIn.lpFileName[0]) != 0 && upd != 0 - 1 ==> (\forall int j; { node(\mk(j, 0, ifIn.batch.lbls)) } node(\mk(j, 0, ifIn.batch.lbls)) ==> !names(\mk(j, 0, ifIn.batch.lbls), lpLabelName))
loop 1
 invariant lbl == \null || (node(lbl) && \off(lbl) == 0)
 invariant lbl == \null ==> (\forall int j; { node(\mk(j, 0, ifIn.batch.lbls)) } node(\mk(j, 0, ifIn.batch.lbls)) ==> !names(\mk(j, 0, ifIn.batch.lbls), lpLabelName))
 invariant lbl != \null ==> (\forall int j; { node(\mk(j, 0, ifIn.batch.lbls)) } node(\mk(j, 0, ifIn.batch.lbls)) && pos(\mk(j, 0, ifIn.batch.lbls)) < pos(lbl) ==> !names(\mk(j, 0, ifIn.batch.lbls), lpLabelName))
