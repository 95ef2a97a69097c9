include common.spec
use string.spec
ghost int ngone
ghost int gone
ghost int nask
ghost int answer
// the standard input: its bytes, the next one to be read, their number
ghost bytes inp
ghost int ip
ghost int ie
source libpbat/dir/pBat_Attr.c
// ---- attributes written as text: letters, a dash negates the next one
logic int upr(int c) = ('a' <= c && c <= 'z') ? c - 32 : c
extern int toupper(int c)
ensures \result == upr(c)
pred flag(int c) = upr(c) == 'I' || upr(c) == 'A' || upr(c) == 'R' || upr(c) == 'H' || upr(c) == 'S' || upr(c) == 'D'
// a dash stands before position i, with no letter in between
logic bool pend(bytes m, int f, int i) = i <= f ? 0 != 0 : (m[i-1] == '-' ? 0 == 0 : (flag(m[i-1]) ? 0 != 0 : pend(m, f, i-1)))
// letter l occurs before i; it does so after a dash
logic bool has(bytes m, int f, int i, int l) = i <= f ? 0 != 0 : (upr(m[i-1]) == l || has(m, f, i-1, l))
logic bool neg(bytes m, int f, int i, int l) = i <= f ? 0 != 0 : ((upr(m[i-1]) == l && pend(m, f, i-1)) || neg(m, f, i-1, l))
pred bits(int w, bytes m, int f, int i) = 0 <= w && w < 0x1000 && (has(m, f, i, 'R') <==> (w & 0x01) != 0) && (neg(m, f, i, 'R') <==> (w & 0x02) != 0) && (has(m, f, i, 'I') <==> (w & 0x04) != 0) && (neg(m, f, i, 'I') <==> (w & 0x08) != 0) && (has(m, f, i, 'H') <==> (w & 0x10) != 0) && (neg(m, f, i, 'H') <==> (w & 0x20) != 0) && (has(m, f, i, 'S') <==> (w & 0x40) != 0) && (neg(m, f, i, 'S') <==> (w & 0x80) != 0) && (has(m, f, i, 'A') <==> (w & 0x100) != 0) && (neg(m, f, i, 'A') <==> (w & 0x200) != 0) && (has(m, f, i, 'D') <==> (w & 0x400) != 0) && (neg(m, f, i, 'D') <==> (w & 0x800) != 0)
fn pBat_MakeFileAttributes
requires \str(lpToken)
ensures bits(\result, \bytes(lpToken), \off(lpToken), eos(lpToken))
loop 1
 invariant within(lpToken, \old(lpToken))
 invariant bits(wAttr, \bytes(\old(lpToken)), \off(\old(lpToken)), \off(lpToken))
 invariant bNeg == 0 || bNeg == 1
 invariant bNeg == 1 <==> pend(\bytes(\old(lpToken)), \off(\old(lpToken)), \off(lpToken))
 variant eos(\old(lpToken)) - \off(lpToken)

// what the attributes ask of a file: never archive, hidden or system here; empty; directory; readable but not writable
pred is(int w, int a, bool b) = (w & a) == 0 || (b <==> (w & (2*a)) == 0)
pred passes(int w, int mode, int size) = is(w, 0x01, (mode & 0x180) == 0x100) && is(w, 0x04, size == 0) && is(w, 0x10, 0 != 0) && is(w, 0x40, 0 != 0) && is(w, 0x100, 0 != 0) && is(w, 0x400, (mode & 0x4000) != 0)
logic bool pk(int w, int mode, int size) = passes(w, mode, size)
fn pBat_CheckFileAttributes
option merge
requires \valid(lpflList) && 0 <= wAttr && wAttr < 0x1000
ensures \result != 0 <==> pk(wAttr, lpflList->stFileStats.st_mode, lpflList->stFileStats.st_size)

// ---- lists of files, numbered in order
logic bool node(struct FILELIST* l)
logic int pos(struct FILELIST* l)
pred fl(struct FILELIST* l) = \valid(l) && \obj(l) > 0 && \off(l) == 0 && pos(l) >= 0 && (l->lpflNext == \null || (node(l->lpflNext) && \off(l->lpflNext) == 0 && pos(l->lpflNext) == pos(l) + 1))
pred files(struct FILELIST* h) = (\forall int k; { node(\mk(k, 0, h)) } node(\mk(k, 0, h)) ==> h != \null && fl(\mk(k, 0, h)) && (\mk(k, 0, h)->lpflNext == \null ==> (\forall int j; { node(\mk(j, 0, h)) } node(\mk(j, 0, h)) ==> pos(\mk(j, 0, h)) <= pos(\mk(k, 0, h))))) && (\forall int j, int k; { node(\mk(k, 0, h)), node(\mk(j, 0, h)) } node(\mk(k, 0, h)) && node(\mk(j, 0, h)) && pos(\mk(j, 0, h)) == pos(\mk(k, 0, h)) ==> j == k) && (h == \null || (node(h) && \off(h) == 0 && pos(h) == 0))
pred picked(int w, struct FILELIST* l) = pk(w, l->stFileStats.st_mode, l->stFileStats.st_size)
// the list that begins at s is made of exactly the files that are picked (b) or not, in their order
pred chain(struct FILELIST* h, struct FILELIST* s, int w, bool b, int end) = (s == \null ==> (\forall int k; { node(\mk(k, 0, h)) } node(\mk(k, 0, h)) && pos(\mk(k, 0, h)) < end ==> !(picked(w, \mk(k, 0, h)) <==> b))) && (s != \null ==> node(s) && \off(s) == 0 && (picked(w, s) <==> b) && pos(s) < end && (\forall int k; { node(\mk(k, 0, h)) } node(\mk(k, 0, h)) && pos(\mk(k, 0, h)) < pos(s) ==> !(picked(w, \mk(k, 0, h)) <==> b)))
pred step(struct FILELIST* h, struct FILELIST* l, int w, bool b) = l->lpflNext != \null && node(l->lpflNext) && \off(l->lpflNext) == 0 && (picked(w, l->lpflNext) <==> b) && pos(l->lpflNext) > pos(l) && (\forall int k; { node(\mk(k, 0, h)) } node(\mk(k, 0, h)) && pos(l) < pos(\mk(k, 0, h)) && pos(\mk(k, 0, h)) < pos(l->lpflNext) ==> !(picked(w, \mk(k, 0, h)) <==> b))
pred last(struct FILELIST* h, struct FILELIST* l, int w, bool b, int end) = node(l) && \off(l) == 0 && (picked(w, l) <==> b) && pos(l) < end && (\forall int k; { node(\mk(k, 0, h)) } node(\mk(k, 0, h)) && pos(l) < pos(\mk(k, 0, h)) && pos(\mk(k, 0, h)) < end ==> !(picked(w, \mk(k, 0, h)) <==> b))
pred linked(struct FILELIST* h, int w, bool b) = \forall int k; { node(\mk(k, 0, h)) } node(\mk(k, 0, h)) && (picked(w, \mk(k, 0, h)) <==> b) ==> step(h, \mk(k, 0, h), w, b) || (\mk(k, 0, h)->lpflNext == \null && last(h, \mk(k, 0, h), w, b, 0x7FFFFFFF))
pred rest(struct FILELIST* h, int from) = \forall int k; { node(\mk(k, 0, h)) } node(\mk(k, 0, h)) && pos(\mk(k, 0, h)) >= from ==> fl(\mk(k, 0, h)) && (\mk(k, 0, h)->lpflNext == \null ==> (\forall int j; { node(\mk(j, 0, h)) } node(\mk(j, 0, h)) ==> pos(\mk(j, 0, h)) <= pos(\mk(k, 0, h))))
pred part(struct FILELIST* h, struct FILELIST* s, struct FILELIST* l, int w, bool b, int end) = chain(h, s, w, b, end) && (l == \null <==> s == \null) && (l != \null ==> last(h, l, w, b, end) && (\forall int k; { node(\mk(k, 0, h)) } node(\mk(k, 0, h)) && (picked(w, \mk(k, 0, h)) <==> b) && pos(\mk(k, 0, h)) < pos(l) ==> step(h, \mk(k, 0, h), w, b) && pos(\mk(k, 0, h)->lpflNext) <= pos(l)))
// a bound for the numbers
logic int top(struct FILELIST* h)
fn pBat_AttributesSplitFileList
option opaque pk
requires files(pIn) && 0 <= wAttr && wAttr < 0x1000
requires \forall int k; { node(\mk(k, 0, pIn)) } node(\mk(k, 0, pIn)) ==> pos(\mk(k, 0, pIn)) < 0x7FFFFFFF && pos(\mk(k, 0, pIn)) < top(pIn) && \obj(pSelected) != k && \obj(pRemaining) != k
requires \valid(pSelected) && \valid(pRemaining) && \obj(pSelected) != \obj(pRemaining) && \obj(pSelected) > 0 && \obj(pRemaining) > 0
assigns pSelected, pRemaining, each(k, node(\mk(k, 0, pIn)), &\mk(k, 0, pIn)->lpflNext)
ensures chain(pIn, *pSelected, wAttr, 0 == 0, 0x7FFFFFFF) && linked(pIn, wAttr, 0 == 0)
ensures chain(pIn, *pRemaining, wAttr, 0 != 0, 0x7FFFFFFF) && linked(pIn, wAttr, 0 != 0)
loop 1
 assigns pSelected, pRemaining, each(k, node(\mk(k, 0, pIn)), &\mk(k, 0, pIn)->lpflNext)
 invariant pIn == \null || (node(pIn) && \off(pIn) == 0)
 invariant pIn != \null ==> rest(\old(pIn), pos(pIn))
 invariant part(\old(pIn), *pSelected, pMatch, wAttr, 0 == 0, pIn == \null ? 0x7FFFFFFF : pos(pIn))
 invariant part(\old(pIn), *pRemaining, pUnMatch, wAttr, 0 != 0, pIn == \null ? 0x7FFFFFFF : pos(pIn))
 variant top(\old(pIn)) - (pIn == \null ? top(\old(pIn)) : pos(pIn))

source libpbat/dir/pBat_Dir.c
fn _pBat_FreeFileList
requires files(lpflFileList) && (\forall int k; { node(\mk(k, 0, lpflFileList)) } node(\mk(k, 0, lpflFileList)) ==> \allocated(\mk(k, 0, lpflFileList)) && pos(\mk(k, 0, lpflFileList)) < top(lpflFileList))
frees each(k, node(\mk(k, 0, lpflFileList)), \mk(k, 0, lpflFileList))
ensures \result == 0
loop 1
 frees each(k, node(\mk(k, 0, lpflFileList)), \mk(k, 0, lpflFileList))
 invariant lpflFileList == \null || (node(lpflFileList) && \off(lpflFileList) == 0)
 invariant lpflFileList != \null ==> (\forall int k; { node(\mk(k, 0, lpflFileList)) } node(\mk(k, 0, lpflFileList)) && pos(\mk(k, 0, lpflFileList)) >= pos(lpflFileList) ==> fl(\mk(k, 0, lpflFileList)) && \allocated(\mk(k, 0, lpflFileList)))
 variant top(\old(lpflFileList)) - (lpflFileList == \null ? top(\old(lpflFileList)) : pos(lpflFileList))
fn pBat_FreeFileList
requires files(lpflFileList) && (\forall int k; { node(\mk(k, 0, lpflFileList)) } node(\mk(k, 0, lpflFileList)) ==> \allocated(\mk(k, 0, lpflFileList)) && pos(\mk(k, 0, lpflFileList)) < top(lpflFileList))
frees each(k, node(\mk(k, 0, lpflFileList)), \mk(k, 0, lpflFileList))
ensures \result == 0

// ---- what is removed
source pbat/command/pBat_Del.c
extern int remove(char* f)
requires \str(f)
assigns &errno, ngone, gone
ensures ngone == \old(ngone) + 1 && gone == \obj(f)
extern int rmdir(char* f)
requires \str(f)
assigns &errno, ngone, gone
ensures ngone == \old(ngone) + 1 && gone == \obj(f)
extern int pBat_SetFileMode(char* f, int m)
requires \str(f)
pred qs() = \allocated(lpAskYes) && \allocated(lpAskYesA) && \allocated(lpAskNo) && \allocated(lpAskNoA) && \allocated(lpAskAll) && \allocated(lpAskAllA) && \str(lpAskYes) && \str(lpAskYesA) && \str(lpAskNo) && \str(lpAskNoA) && \str(lpAskAll) && \str(lpAskAllA) && lpAskYes[0] != 0 && lpAskYesA[0] != 0 && lpAskAll[0] != 0 && lpAskAllA[0] != 0
pred input() = 0 <= ip && ip <= ie && ie < 0x7fffffff && qs()
// the question is asked if it has to be, an answer for all is kept, and the file goes exactly if the answer is yes
fn pBat_DelFile
requires \str(file)
assigns &errno, ngone, gone
ensures ngone == \old(ngone) + 1 && gone == \obj(file)
ensures \result == 0 || \result == 0 - 1
fn pBat_CmdDelFile
requires \str(file) && \valid(choice) && \obj(choice) > 0 && \obj(file) != \obj(choice) && (*choice == 0 || *choice == 4) && input()
assigns choice, &errno, ip, ngone, gone, nask, answer
ensures \old(*choice) == 0 && (param & 0x01) != 0 ==> nask == \old(nask) + 1 && (answer == 2 ? ngone == \old(ngone) : ngone == \old(ngone) + 1 && gone == \obj(file)) && *choice == (answer == 4 ? 4 : 0)
ensures !(\old(*choice) == 0 && (param & 0x01) != 0) ==> nask == \old(nask) && *choice == \old(*choice) && (*choice == 4 ? ngone == \old(ngone) + 1 && gone == \obj(file) : ngone == \old(ngone))
source pbat/command/pBat_Rmdir.c
fn pBat_Rmdir
requires \str(dir)
assigns &errno, ngone, gone
ensures ngone == \old(ngone) + 1 && gone == \obj(dir)
fn pBat_CmdRmdirFile
requires \str(dir) && \valid(choice) && \obj(choice) > 0 && \obj(dir) != \obj(choice) && (*choice == 0 || *choice == 4) && input()
assigns choice, &errno, ip, ngone, gone, nask, answer
ensures \old(*choice) == 0 && (param & 0x01) != 0 ==> nask == \old(nask) + 1 && (answer == 2 ? ngone == \old(ngone) : ngone == \old(ngone) + 1 && gone == \obj(dir)) && *choice == (answer == 4 ? 4 : 0)
ensures !(\old(*choice) == 0 && (param & 0x01) != 0) ==> nask == \old(nask) && *choice == \old(*choice) && (*choice == 4 ? ngone == \old(ngone) + 1 && gone == \obj(dir) : ngone == \old(ngone))

source pbat/command/pBat_Ask.c
extern int fileno(FILE* f)
extern ssize_t read(int fd, void* p, size_t n)
requires n == 1 && \valid(p, 1)
assigns p, ip, &errno
ensures \result == 1 ? \old(ip) < ie && ip == \old(ip) + 1 && *(char*)p == \old(inp)[\old(ip)] : ip == \old(ip)
// number of characters before q that belong to the answer
logic int cnt(bytes s, int p, int q) = q <= p ? 0 : (s[q-1] == '\r' ? cnt(s, p, q-1) : cnt(s, p, q-1) + 1)
lemma cnt1 induct q from p: \forall bytes s, int p, int q; { cnt(s, p, q) } p <= q ==> 0 <= cnt(s, p, q) <= q - p
fn pBat_AskConfirmationRead
requires size > 0 && \valid(buffer, size) && 0 <= ip && ip <= ie && ie < 0x7fffffff && size < 0x40000000
assigns buffer, ip, &errno
ensures \str(buffer) && \len(buffer) < size
ensures \old(ip) <= ip && ip <= ie
// an empty line, or no input left, is an empty answer; any other answer uses the input up
ensures \old(ip) == ie || inp[\old(ip)] == '\n' ==> buffer[0] == 0
ensures buffer[0] != 0 ==> ip > \old(ip)
// the characters of a line, without the carriage returns, as many as fit
ensures \forall int q; \old(ip) <= q && q < ip && q < ie && inp[q] != '\r' && inp[q] != '\n' && cnt(inp, \old(ip), q) < size - 1 ==> buffer[cnt(inp, \old(ip), q)] == inp[q]
loop 1
 assigns buffer, ip, &errno, &c
 invariant \old(ip) <= ip && ip <= ie
 invariant i == cnt(inp, \old(ip), ip)
 invariant \forall int q; { cnt(inp, \old(ip), q) } \old(ip) <= q && q < ip ==> inp[q] != '\n' && (inp[q] != '\r' && cnt(inp, \old(ip), q) < size ==> buffer[cnt(inp, \old(ip), q)] == inp[q]) && cnt(inp, \old(ip), q) + (inp[q] == '\r' ? 0 : 1) <= i
 variant ie - ip

extern int vfprintf(FILE* f, char* m, va_list v)
extern int fputs(char* s, FILE* f)
extern int strcasecmp(char* a, char* b)
requires \str(a) && \str(b)
ensures \result == 0 ==> \len(a) == \len(b)
extern void fp_lpFn(char* buffer, size_t size)
requires size > 0 && \valid(buffer, size) && 0 <= ip && ip <= ie && ie < 0x7fffffff && size < 0x40000000
assigns buffer, ip, &errno
ensures \str(buffer) && \len(buffer) < size && \old(ip) <= ip && ip <= ie
ensures \old(ip) == ie || inp[\old(ip)] == '\n' ==> buffer[0] == 0
ensures buffer[0] != 0 ==> ip > \old(ip)
fn pBat_AskConfirmation
gset nask = nask + 1
gset answer = \result
requires lpFn == \null && iFlags == 26 && input()
requires qs()
assigns ip, &errno
// one of the three answers is given in the end, whatever the input; an empty answer declines
ensures \result == 1 || \result == 2 || \result == 4
ensures \old(ip) == ie || inp[\old(ip)] == '\n' ==> \result == 2
loop 1
 assigns ip, &errno, &lpInput
 invariant iRet == 0
 invariant \old(ip) <= ip && ip <= ie
 invariant ip > \old(ip) ==> \old(ip) < ie && inp[\old(ip)] != '\n'
 variant ie - ip
