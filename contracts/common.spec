// shared assumed contracts
include libc.spec
extern void pBat_ShowErrorMessage(int iErr, char* lp, int st)
ensures st == 0
extern char* strdup(char* s)
requires \str(s)
ensures \result == \null ==> \oom
ensures \result != \null ==> (\fresh(\result) && \off(\result) == 0 && \str(\result) && \len(\result) == \len(s) && (\forall int k; 0 <= k <= \len(s) ==> \result[k] == s[k]))

