include common.spec
use string.spec
use estr.spec
source pbat/core/pBat_SplitPath.c
pred nocaret(char* p) = \forall int k; 0 <= k < \len(p) ==> p[k] != '^'
pred out(char* p, char* path) = p == \null || (\valid(p, 4096) && \obj(p) != \obj(path))
pred slash(int c) = c == '/' || c == '\\'
pred drv(char* p) = p[0] != 0 && p[1] == ':' && slash(p[2])
logic int base(char* p) = drv(p) ? 3 : 0
pred dirok(char* p, int b, int n) = (n > 0 ==> slash(p[b+n-1])) && (\forall int k; b+n <= k < \len(p) ==> !slash(p[k]))

// where the directory part ends
logic int ds(char* p, char* d) = base(p) + \len(d)

fn pBat_SplitPath
requires \str(lpPath) && \len(lpPath) < 0x40000000 && out(lpDisk, lpPath) && out(lpDir, lpPath) && out(lpName, lpPath) && out(lpExt, lpPath)
requires (lpDisk == \null || (\obj(lpDisk) != \obj(lpDir) && \obj(lpDisk) != \obj(lpName) && \obj(lpDisk) != \obj(lpExt))) && (lpDir == \null || (\obj(lpDir) != \obj(lpName) && \obj(lpDir) != \obj(lpExt))) && (lpName == \null || \obj(lpName) != \obj(lpExt))
option merge
option mergemem
assigns range(lpPath, 0, \len(lpPath)+1), range(lpDisk, 0, 4096), range(lpDir, 0, 4096), range(lpName, 0, 4096), range(lpExt, 0, 4096)
ensures \str(lpPath) && \len(lpPath) == \old(\len(lpPath)) && (\forall int k; 0 <= k < \old(\len(lpPath)) ==> lpPath[k] == \old(lpPath[k]))
ensures lpDisk != \null ==> \str(lpDisk) && \len(lpDisk) < 4096
ensures lpDir != \null ==> \str(lpDir) && \len(lpDir) < 4096
ensures lpName != \null ==> \str(lpName) && \len(lpName) < 4096
ensures lpExt != \null ==> \str(lpExt) && \len(lpExt) < 4096
ensures lpDir != \null && \len(lpPath) < 4096 ==> base(lpPath) + \len(lpDir) <= \len(lpPath) && (\forall int k; 0 <= k < \len(lpDir) ==> lpDir[k] == lpPath[base(lpPath)+k])
ensures lpDir != \null && \len(lpPath) < 4096 && \len(lpDir) > 0 ==> slash(lpDir[\len(lpDir)-1])
ensures lpDir != \null && \len(lpPath) < 4096 && nocaret(lpPath) ==> (\forall int k; ds(lpPath, lpDir) <= k < \len(lpPath) ==> !slash(lpPath[k]))
ensures lpDir != \null && lpName != \null && \len(lpPath) < 4096 ==> ds(lpPath, lpDir) + \len(lpName) <= \len(lpPath) && (\forall int k; 0 <= k < \len(lpName) ==> lpName[k] == lpPath[ds(lpPath, lpDir)+k])
ensures lpDir != \null && lpName != \null && lpExt != \null && \len(lpPath) < 4096 ==> ds(lpPath, lpDir) + \len(lpName) + \len(lpExt) == \len(lpPath)
ensures lpName != \null && lpExt != \null && \len(lpPath) < 4096 ==> \len(lpName) + \len(lpExt) <= \len(lpPath)
ensures lpExt != \null && \len(lpPath) < 4096 ==> \len(lpExt) <= \len(lpPath) && (\forall int k; 0 <= k < \len(lpExt) ==> lpExt[k] == lpPath[\len(lpPath)-\len(lpExt)+k])
ensures lpExt != \null && \len(lpExt) > 0 ==> lpExt[0] == '.'
ensures lpExt != \null && \len(lpPath) < 4096 && nocaret(lpPath) ==> (\forall int k; 1 <= k < \len(lpExt) ==> lpExt[k] != '.')
ensures lpDir != \null && lpExt != \null && \len(lpPath) < 4096 && nocaret(lpPath) && \len(lpExt) == 0 ==> (\forall int k; ds(lpPath, lpDir) <= k < \len(lpPath) ==> lpPath[k] != '.')
ensures lpDisk != \null ==> (\len(lpDisk) == (drv(lpPath) ? 2 : 0))

source pbat/core/pBat_OsStream.c
extern int strcasecmp(char* a, char* b)
requires \str(a) && \str(b)
extern int strncasecmp(char* a, char* b, size_t n)
requires (\str(a) || \valid(a, n)) && (\str(b) || \valid(b, n))
ensures (\result == 0) ==> (\forall int k; 0 <= k < n && k < \len(b) ==> a[k] != 0)
extern long strtol(char* s, char** e, int b)
requires \str(s) && \valid(e)
assigns e
ensures \obj(*e) == \obj(s) && \off(s) <= \off(*e) && \off(*e) <= \off(s) + \len(s)
fn _pBat_GetOsStreamName
requires \str(str)
ensures \result == str || (\str(\result) && \result[0] == '/' && \result[1] != '/' && \len(\result) < 64 && \obj(\result) < 0)

source pbat/core/pBat_FilePath.c
pred abs(char* p) = p[0] == '/' && p[1] != '/'
// n bytes of q copied at d+at
pred cpy(char* d, int at, char* q, int n) = \forall int k; 0 <= k < n ==> d[at+k] == q[k]
pred curdir(char* c) = \str(c) && \len(c) < 4096

fn pBat_FullPathDup
requires \str(p) && \len(p) < 0x10000000 && curdir(lpCurrentDir)
ensures \result == \null ==> \oom
ensures \result != \null ==> \str(\result) && \fresh(\result) && \off(\result) == 0

fn pBat_EsToFullPath
requires ES(full) && \len(full->str) < 0x8000000 && curdir(lpCurrentDir) && \obj(full->str) != \obj(lpCurrentDir) && \obj(full) != \obj(lpCurrentDir) && !\oom
assigns full, full->str
frees full->str
before strlen: p == full->str
before strlen: !\old(abs(full->str))
hint !\old(abs(full->str)) ==> full->str[\len(lpCurrentDir) + 1 + \old(\len(full->str))] == 0 || \same(full->str)
ensures \str(full->str) && \result == full->str
ensures ES(full)
hint \old(abs(full->str)) ==> full->str == \old(full->str)
ensures \old(abs(full->str)) ==> full->str == \old(full->str)
ensures \old(abs(full->str)) ==> \len(full->str) == \old(\len(full->str)) && (\forall int k; 0 <= k < \old(\len(full->str)) ==> full->str[k] == \old(full->str[k]))
ensures !\old(abs(full->str)) ==> full->str == \old(full->str) && \same(full->str) || (\len(full->str) == \len(lpCurrentDir) + 1 + \old(\len(full->str)) && (\forall int k; 0 <= k < \len(lpCurrentDir) ==> full->str[k] == lpCurrentDir[k]) && full->str[\len(lpCurrentDir)] == '/' && (\forall int k; 0 <= k < \old(\len(full->str)) ==> full->str[\len(lpCurrentDir)+1+k] == \old(full->str[k])))
ensures \old(full->str) == full->str || \fresh(full->str)

fn pBat_MakeFullPath
option merge
option mergemem
requires \str(p) && \len(p) < 0x10000000 && curdir(lpCurrentDir) && \valid(full, size) && 0 < size && size < 0x10000000 && \obj(full) > 0
requires \obj(full) != \obj(p) && \obj(full) != \obj(lpCurrentDir)
assigns range(full, 0, size)
ensures \str(full) && \len(full) < size

fn pBat_MakeFullPathEs
requires \str(p) && \len(p) < 0x8000000 && curdir(lpCurrentDir) && ES(full) && \obj(full->str) != \obj(lpCurrentDir) && \obj(full) != \obj(lpCurrentDir) && \obj(full) != \obj(p) && \obj(full->str) != \obj(p) && !\oom
assigns full, full->str
frees full->str
ensures ES(full)

fn pBat_GetPathNextPart
requires (lpPath == \null || \str(lpPath) && \len(lpPath) < 0x10000000) && ES(lpReturn) && !\oom
requires lpPath == \null || (\obj(lpReturn) != \obj(lpPath) && \obj(lpReturn->str) != \obj(lpPath))
assigns lpReturn, lpReturn->str
frees lpReturn->str
ensures ES(lpReturn)
ensures (lpPath == \null || *lpPath == 0) <==> \result == \null
ensures \result != \null ==> within(\result, lpPath) && (\forall int k; 0 <= k < \len(lpReturn->str) ==> lpReturn->str[k] == lpPath[k] && lpPath[k] != ':')
ensures \result != \null ==> (lpPath[\len(lpReturn->str)] == ':' && \off(\result) == \off(lpPath) + \len(lpReturn->str) + 1) || (lpPath[\len(lpReturn->str)] == 0 && \off(\result) == \off(lpPath) + \len(lpReturn->str))
loop 1
 invariant \obj(lpPath) == \obj(\old(lpPath)) && \off(\old(lpPath)) <= \off(lpPath) && \off(lpPath) <= \off(\old(lpPath)) + \len(\old(lpPath))
 variant \off(\old(lpPath)) + \len(\old(lpPath)) - \off(lpPath)

fn pBat_GetLastChar
requires ES(lpReturn)
ensures within(\result, lpReturn->str) && (\len(lpReturn->str) == 0 ? \result == lpReturn->str : \off(\result) == \len(lpReturn->str) - 1)
loop 1
 invariant within(lpCh, lpReturn->str) && *lpCh != 0
 variant \len(lpReturn->str) - \off(lpCh)
