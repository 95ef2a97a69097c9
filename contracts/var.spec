include common.spec
source pbat/core/pBat_Var.c
pred lvname(int c) = c > 0x20
// a block of special variables: every defined one owns its own NUL-terminated copy
pred cell(char* b, char* p) = p == \null || (\str(p) && \off(p) == 0 && \obj(p) > 0 && \obj(p) != \obj(b))
pred blk(char** b) = \valid(b, 128) && \size(b) == 1024 && \off(b) == 0 && \obj(b) > 0 && (\forall int k; 0x20 < k < 128 ==> cell((char*)b, b[k])) && (\forall int i, int j; { b[i], b[j] } 0x20 < i && i < j && j < 128 && b[i] != \null && b[j] != \null ==> \obj(b[i]) != \obj(b[j])) && (\forall int k; 0 <= k <= 0x20 ==> b[k] == \null)

fn pBat_TestLocalVarName
ensures \result == 0 <==> lvname(cVar)
ensures \result == 0 || \result == -1

fn pBat_GetLocalVarPointer
requires blk(lpvBlock)
ensures !lvname(cVarName) ==> \result == \null
ensures lvname(cVarName) ==> \result == lpvBlock[cVarName]

fn pBat_SetLocalVar
requires blk(lpvBlock)
requires cVarContent == \null || (\str(cVarContent) && \obj(cVarContent) != \obj(lpvBlock))
assigns lpvBlock
frees lpvBlock[\max(cVarName, 0)]
hint lvname(cVarName) && cVarContent != \null ==> (\forall int k; { \old(lpvBlock[k]) } { lpvBlock[k] } 0x20 < k < 128 && k != cVarName && lpvBlock[k] != \null ==> (\obj(lpvBlock[k]) == \old(\obj(lpvBlock[k])) && \obj(lpvBlock[k]) != \obj(lpvBlock[cVarName])))
hint lvname(cVarName) ==> (\forall int k; { \old(lpvBlock[k]) } { lpvBlock[k] } 0 <= k < 128 && k != cVarName ==> lpvBlock[k] == \old(lpvBlock[k]))
ensures \valid(lpvBlock, 128)
ensures \forall int k; 0x20 < k < 128 ==> cell((char*)lpvBlock, lpvBlock[k])
ensures \forall int i, int j; { lpvBlock[i], lpvBlock[j] } 0x20 < i && i < j && j < 128 && lpvBlock[i] != \null && lpvBlock[j] != \null ==> \obj(lpvBlock[i]) != \obj(lpvBlock[j])
ensures blk(lpvBlock)
ensures !lvname(cVarName) ==> (\forall int k; 0 <= k < 128 ==> lpvBlock[k] == \old(lpvBlock[k]))
ensures lvname(cVarName) ==> (\forall int k; 0 <= k < 128 && k != cVarName ==> lpvBlock[k] == \old(lpvBlock[k]))
ensures cVarName != '+' ==> lpvBlock['+'] == \old(lpvBlock['+'])
ensures lvname(cVarName) && cVarContent == \null ==> lpvBlock[cVarName] == \null
ensures lvname(cVarName) && cVarContent != \null ==> (lpvBlock[cVarName] != \null && \fresh(lpvBlock[cVarName]) && \len(lpvBlock[cVarName]) == \old(\len(cVarContent)) && (\forall int k; 0 <= k < \old(\len(cVarContent)) ==> lpvBlock[cVarName][k] == \old(cVarContent[k])))

fn pBat_DuplicateLocalVar
requires blk(block) && !\oom
ensures blk(\result) && \fresh(\result)
ensures \forall int k; 0 <= k < 128 ==> (\result[k] == \null <==> block[k] == \null)
ensures \forall int k; 0 <= k < 128 && block[k] != \null ==> (\fresh(\result[k]) && \len(\result[k]) == \len(block[k]))
ensures \forall int k, int j; { \result[k][j] } 0 <= k < 128 && block[k] != \null && 0 <= j <= \len(block[k]) ==> \result[k][j] == block[k][j]
loop 1
 assigns new
 invariant 0 <= i && i <= 128
 invariant \fresh(new) && \valid(new, 128) && \off(new) == 0 && \size(new) == 1024
 invariant \forall int k; 0 <= k < i ==> (new[k] == \null <==> block[k] == \null)
 invariant \forall int k; i <= k && k < 128 ==> new[k] == \null
 invariant \forall int k; 0 <= k < i && new[k] != \null ==> (\fresh(new[k]) && \str(new[k]) && \off(new[k]) == 0 && \obj(new[k]) != \obj(new) && \len(new[k]) == \len(block[k]))
 invariant \forall int a, int b; { new[a], new[b] } 0 <= a && a < b && b < i && new[a] != \null && new[b] != \null ==> \obj(new[a]) != \obj(new[b])
 invariant \forall int k, int j; { new[k][j] } 0 <= k < i && new[k] != \null && 0 <= j <= \len(block[k]) ==> new[k][j] == block[k][j]
 variant 128 - i

fn pBat_FreeLocalBlock
requires blk(local)
frees local, each(k, 0x20 < k && k < 128, local[k])
loop 1
 frees each(k, 0x20 < k && k < 128, local[k])
 invariant \alive(local) && (\forall int k; i <= k && k < 128 && local[k] != \null ==> \alive(local[k]))
 invariant 0x21 <= i && i <= 0x80
 variant 0x80 - i
