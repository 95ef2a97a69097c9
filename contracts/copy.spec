include cache.spec
use string.spec
use estr.spec
use path.spec
use attr.spec
// the file that is read: its bytes, how many, the place reached; the file that is written
ghost bytes sd
ghost int sl
ghost int sp
ghost int rfd
ghost bytes dd
ghost int dl
ghost int dp
ghost int wfd
ghost int nmove
ghost int nact
ghost int exi
source pbat/command/pBat_Copy.c
logic bool there(char* f)
logic int dev(char* f)
logic int ino(char* f)
pred same(char* a, char* b) = there(a) && there(b) && dev(a) == dev(b) && ino(a) == ino(b)
extern int stat(char* f, struct stat* s)
requires \str(f) && \valid(s)
assigns s, &errno
ensures \result == 0 <==> there(f)
ensures \result == 0 ==> s->st_dev == dev(f) && s->st_ino == ino(f)
extern int fstat(int fd, struct stat* s)
requires \valid(s)
assigns s, &errno
extern int open(char* f, int flags, int mode)
requires \str(f)
assigns &errno, sp, rfd, dl, dp, wfd
ensures \result >= 0 - 1 && (\result == 0 - 1 ==> sp == \old(sp) && dl == \old(dl) && dp == \old(dp) && rfd == \old(rfd) && wfd == \old(wfd))
ensures \result != 0 - 1 && (flags & 3) == 0 ==> rfd == \result && sp == 0 && wfd == \old(wfd) && dl == \old(dl) && dp == \old(dp)
ensures \result != 0 - 1 && (flags & 3) == 1 ==> wfd == \result && wfd != rfd && dl == ((flags & 512) != 0 ? 0 : \old(dl)) && dp == ((flags & 1024) != 0 ? dl : 0) && rfd == \old(rfd) && sp == \old(sp)
extern int close(int fd)
extern int fsync(int fd)
extern ssize_t read(int fd, void* p, size_t n)
requires fd == rfd && n > 0 && \valid(p, n) && 0 <= sp && sp <= sl
assigns p, sp, &errno
ensures \result == 0 - 1 ? sp == \old(sp) : 0 <= \result && \result <= n && sp == \old(sp) + \result && sp <= sl && (\result == 0 <==> \old(sp) == sl) && (\forall int k; { ((char*)p)[k] } 0 <= k < \result ==> ((char*)p)[k] == sd[\old(sp) + k])
extern ssize_t write(int fd, void* p, size_t n)
requires fd == wfd && n > 0 && \valid(p, n)
assigns dd, dl, dp, &errno
ensures \result == 0 - 1 ? dd == \old(dd) && dl == \old(dl) && dp == \old(dp) : 0 < \result && \result <= n && dp == \old(dp) + \result && dl == (dp > \old(dl) ? dp : \old(dl))
ensures \result != 0 - 1 ==> (\forall int k; { dd[k] } dd[k] == (\old(dp) <= k && k < dp ? ((char*)p)[k - \old(dp)] : \old(dd)[k]))
fn pBat_IsSameFile
requires \str(file) && \str(dest)
assigns &errno
ensures \result != 0 <==> same(file, dest)
// a copy is the file it was made of, and a file is not copied onto itself
fn pBat_CopyFile
gset nact = nact + 1
requires \str(file) && \str(dest) && \obj(file) > 0 && \obj(dest) > 0 && 0 <= sl
assigns &errno, sp, rfd, dl, dp, wfd, dd
ensures same(file, dest) ==> \result != 0 && dd == \old(dd) && dl == \old(dl)
ensures \result == 0 ==> dl == sl && (\forall int k; 0 <= k < sl ==> dd[k] == sd[k])
loop 1
 assigns &errno, sp, dl, dp, dd, &buf
 invariant 0 <= sp && sp <= sl && dp == sp && dl == sp && old == rfd && new == wfd && old != 0 - 1
 invariant \forall int k; { dd[k] } 0 <= k < sp ==> dd[k] == sd[k]
 variant sl - sp
loop 2
 assigns &errno, dl, dp, dd
 invariant 0 < count && count <= 2048 && sp == \entry(sp) && sp <= sl
 invariant 0 <= writen && writen <= count && dp == sp - count + writen && dl == dp && sp >= count
 invariant \forall int k; { dd[k] } 0 <= k < dp ==> dd[k] == sd[k]
 variant count - writen

// a file is added to the end of what is there, the first one replaces it
fn pBat_CatFile
gset nact = nact + 1
requires \str(file) && \str(dest) && \obj(file) > 0 && \obj(dest) > 0 && 0 <= sl && 0 <= dl && \valid(flags) && \obj(flags) > 0 && 0 <= *flags
assigns &errno, sp, rfd, dl, dp, wfd, dd, flags
ensures same(file, dest) ==> \result == 0 && dd == \old(dd) && dl == \old(dl)
ensures \result == 0 ==> (*flags & 0x20) != 0
ensures *flags == \old(*flags) || *flags == \old(*flags) + 0x20
ensures \result == 0 && !same(file, dest) && (\old(*flags) & 0x20) == 0 ==> dl == sl && (\forall int k; 0 <= k < sl ==> dd[k] == sd[k])
ensures \result == 0 && !same(file, dest) && (\old(*flags) & 0x20) != 0 ==> dl == \old(dl) + sl && (\forall int k; 0 <= k < sl ==> dd[\old(dl) + k] == sd[k]) && (\forall int k; 0 <= k < \old(dl) ==> dd[k] == \old(dd)[k])
loop 1
 assigns &errno, sp, dl, dp, dd, &buf
 invariant 0 <= sp && sp <= sl && dp == \entry(dp) + sp && dl == dp && old == rfd && new == wfd && old != 0 - 1 && \entry(dp) >= 0
 invariant \forall int k; { dd[k] } \entry(dp) <= k && k < dp ==> dd[k] == sd[k - \entry(dp)]
 invariant \forall int k; { dd[k] } 0 <= k < \entry(dp) ==> dd[k] == \entry(dd)[k]
 variant sl - sp
loop 2
 assigns &errno, dl, dp, dd
 invariant 0 < count && count <= 2048 && sp == \entry(sp) && sp <= sl
 invariant 0 <= writen && writen <= count && dp == \entry(dp) + writen && dl == dp && sp >= count
 invariant \forall int k; { dd[k] } \entry(dp) <= k && k < dp ==> dd[k] == buf[k - \entry(dp)]
 invariant \forall int k; { dd[k] } 0 <= k < \entry(dp) ==> dd[k] == \entry(dd)[k]
 variant count - writen
extern int rename(char* a, char* b)
requires \str(a) && \str(b)
assigns nmove, &errno
ensures nmove == \old(nmove) + 1
fn pBat_MoveFile
gset nact = nact + 1
requires \str(file) && \str(dest)
assigns &errno, nmove
ensures nmove == \old(nmove) + 1 && (\result == 0 || \result == 47)
fn pBat__EndWithDirectoryMark
requires \str(dir)
ensures \result != 0 <==> \len(dir) > 0 && dir[\len(dir) - 1] == '/'
loop 1
 invariant within(dir, \old(dir))
 invariant dir == \old(dir) ? \str(c) && *c == 0 : c == dir - 1
 variant eos(\old(dir)) - \off(dir)
extern int pBat_FileExists(char* f)
requires \str(f)
assigns exi
ensures (\result != 0 <==> exi == 1) && (exi == 0 || exi == 1)
extern void pBat_MakePath(ESTR* e, int n, char* a, char* b)
requires ES(e) && \str(a) && \str(b) && !\oom
assigns e, e->str
frees e->str
ensures ES(e) && (e->str == \old(e->str) || \fresh(e->str))
pred apart(int o) = \obj(lpAskYes) != o && \obj(lpAskYesA) != o && \obj(lpAskNo) != o && \obj(lpAskNoA) != o && \obj(lpAskAll) != o && \obj(lpAskAllA) != o
// one action for a file, after a question if the destination exists and nothing said not to ask; none if the answer is no
fn pBat_CmdCopyFile
requires apart(\obj(file)) && apart(\obj(flags))
requires \str(file) && \len(file) < 4096 && \str(dest) && \len(dest) < 0x8000000 && \obj(file) > 0 && \obj(dest) > 0 && 0 <= sl && 0 <= dl && \valid(flags) && \obj(flags) > 0 && 0 <= *flags && *flags < 0x40 && \obj(file) != \obj(flags) && \obj(dest) != \obj(flags) && \obj(dest) != \obj(file) && input() && !\oom
assigns &errno, ip, sp, rfd, dl, dp, wfd, dd, flags, nact, nask, answer, nmove, exi, range(file, 0, \len(file)+1)
ensures exi == 1 && (\old(*flags) & 0x21) == 0 ==> nask == \old(nask) + 1 && nact == \old(nact) + (answer == 2 ? 0 : 1)
ensures !(exi == 1 && (\old(*flags) & 0x21) == 0) ==> nask == \old(nask) && nact == \old(nact) + 1
// answering no leaves both files alone
ensures nact == \old(nact) ==> dd == \old(dd) && dl == \old(dl) && nmove == \old(nmove)
// an answer for all is remembered
ensures nask != \old(nask) ==> ((*flags & 0x01) != 0 <==> answer == 4)
// moving renames, nothing else does
ensures nmove != \old(nmove) ==> (\old(*flags) & 0x04) != 0
ensures (\old(*flags) & 0x04) != 0 ==> dd == \old(dd) && dl == \old(dl)
