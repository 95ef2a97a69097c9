include common.spec
source pbat/core/pBat_Stream.c
// descriptor table: which open file a descriptor leads to (0: closed); what has been flushed since the last redirection
ghost bytes fdt
ghost bytes fl
// 1 when the end-of-file mark of the stream on a descriptor was taken back since the descriptor was replaced
ghost bytes cl
logic int fno(FILE* f)
logic int opened(char* name, int flags)
extern int fileno(FILE* f)
requires f != \null
ensures \result == fno(f)
extern int isatty(int fd)
extern int setvbuf(FILE* f, char* b, int m, size_t n)
extern long ftell(FILE* f)
// nobody may move the position of a descriptor behind the back of the stream on it
extern long lseek(int fd, long o, int w)
requires o == 0 && w == 1
extern void clearerr(FILE* f)
assigns cl
ensures cl == \store(\old(cl), fno(f), 1)
extern int fflush(FILE* f)
assigns fl
ensures fl == \store(\old(fl), fno(f), 1)
extern int dup(int fd)
requires fdt[fd] != 0
assigns fdt
ensures \result == 0 - 1 ==> fdt == \old(fdt)
ensures \result != 0 - 1 ==> \result >= 0 && \old(fdt)[\result] == 0 && fdt == \store(\old(fdt), \result, \old(fdt)[fd])
// nothing still buffered may reach the new file
extern int dup2(int a, int b)
requires fdt[a] != 0 && (a == b || fl[b] == 1)
assigns fdt, fl, cl
ensures \result == 0 - 1 ==> fdt == \old(fdt)
ensures \result != 0 - 1 ==> fdt == \store(\old(fdt), b, \old(fdt)[a])
ensures fl == \store(\old(fl), b, 0)
ensures cl == \store(\old(cl), b, 0)
extern int close(int fd)
assigns fdt
ensures fdt == \store(\old(fdt), fd, 0)
extern int open(char* name, int flags, int mode)
requires \str(name)
assigns fdt
ensures \result == 0 - 1 ==> fdt == \old(fdt)
ensures \result != 0 - 1 ==> \result >= 0 && \old(fdt)[\result] == 0 && fdt == \store(\old(fdt), \result, opened(name, flags)) && opened(name, flags) != 0

// the three streams of the thread are open and different
pred open3(bytes t) = t[fno(fInput)] != 0 && t[fno(_fOutput)] != 0 && t[fno(_fError)] != 0
pred streams() = fInput != \null && _fOutput != \null && _fError != \null && _fOutput != _fError && fno(fInput) >= 0 && fno(_fOutput) >= 0 && fno(_fError) >= 0 && fno(fInput) != fno(_fOutput) && fno(fInput) != fno(_fError) && fno(_fOutput) != fno(_fError) && (fOutput == _fOutput || fOutput == _fError) && (fError == _fOutput || fError == _fError)
pred SF(int fd) = fd == 0 ? fno(fInput) : (fd == 1 ? fno(_fOutput) : fno(_fError))
// a saved redirection
pred item(STREAMSTACK* s) = \valid(s) && \obj(s) > 0 && \off(s) == 0 && (s->fd == 0 - 1 || (0 <= s->fd <= 2 && s->oldfd >= 0 && fdt[s->oldfd] != 0 && s->oldfd != fno(fInput) && s->oldfd != fno(_fOutput) && s->oldfd != fno(_fError)))

fn pBat_OpenOutputD
requires !\oom && streams() && open3(fdt) && (fd == 0 - 1 || (0 <= fd <= 2 && fdt[newfd] != 0))
assigns fdt, fl, cl
ensures \result != \null && \fresh(\result) && item(\result) && \result->previous == stack && \result->lock == 0 && \result->fd == fd && open3(fdt)
ensures \result->subst == (fOutput == _fOutput ? 1 : 0) + (fError == _fOutput ? 2 : 0)
ensures fd == 0 - 1 ==> fdt == \old(fdt)
ensures fd == 0 ==> cl[fno(fInput)] == 1
ensures fd != 0 - 1 ==> fdt[SF(fd)] == \old(fdt)[newfd] && fdt[\result->oldfd] == \old(fdt)[SF(fd)] && \old(fdt)[\result->oldfd] == 0
ensures fd != 0 - 1 ==> (\forall int k; k != SF(fd) && k != \result->oldfd ==> fdt[k] == \old(fdt)[k])

fn pBat_OpenOutput
requires !\oom && streams() && open3(fdt) && 0 <= fd <= 2 && \str(name) && (stack == \null || item(stack))
assigns fdt, fl, cl, &fOutput, &fError
ensures streams() && open3(fdt)
ensures \result == stack || \fresh(\result)
ensures \result == stack ==> fdt == \old(fdt)
ensures \result != stack ==> item(\result)
ensures \result != stack ==> \result->lock == 0
ensures \fresh(\result) && \result->fd == fd ==> fdt[SF(fd)] == opened(name, fd == 0 ? 0 : (((mode / 4) % 2 != 0) ? 1601 : 1089))
ensures \fresh(\result) && \result->fd == fd ==> fdt[\result->oldfd] == \old(fdt)[SF(fd)]
ensures \fresh(\result) && \result->fd == fd ==> \result->previous == stack || (\fresh(\result->previous) && \result->previous->previous == stack)
// the stream redirected is the one written to, and one that was substituted to it does not follow
ensures \fresh(\result) && \result->fd == fd && fd == 1 ==> fOutput == _fOutput && (\old(fError) == _fOutput ? fError == _fError && fdt[fno(_fError)] == \old(fdt)[fno(_fOutput)] : fError == \old(fError) && fdt[fno(_fError)] == \old(fdt)[fno(_fError)])
ensures \fresh(\result) && \result->fd == fd && fd == 2 ==> fError == _fError && (\old(fOutput) == _fError ? fOutput == _fOutput && fdt[fno(_fOutput)] == \old(fdt)[fno(_fError)] : fOutput == \old(fOutput) && fdt[fno(_fOutput)] == \old(fdt)[fno(_fOutput)])
ensures fd == 0 && \result != stack && \result->fd == 0 ==> cl[fno(fInput)] == 1
ensures fd == 0 ==> fOutput == \old(fOutput) && fError == \old(fError) && fdt[fno(_fOutput)] == \old(fdt)[fno(_fOutput)] && fdt[fno(_fError)] == \old(fdt)[fno(_fError)]

fn pBat_PopStreamStack
requires streams() && open3(fdt) && (stack == \null || item(stack))
requires stack != \null && stack->lock == 0 ==> 0 <= stack->subst <= 3
assigns fdt, fl, cl, &fOutput, &fError
frees stack
ensures streams() && open3(fdt)
ensures stack != \null && \old(stack->lock) == 0 && \old(stack->fd) == 0 ==> cl[fno(fInput)] == 1
ensures stack == \null || \old(stack->lock) != 0 ==> \result == stack && fdt == \old(fdt) && fOutput == \old(fOutput) && fError == \old(fError) && (stack != \null ==> \alive(stack))
ensures stack != \null && \old(stack->lock) == 0 ==> \result == \old(stack->previous) && !\alive(stack) && fOutput == (\old(stack->subst) % 2 == 1 ? _fOutput : _fError) && fError == (\old(stack->subst) >= 2 ? _fOutput : _fError)
ensures stack != \null && \old(stack->lock) == 0 && \old(stack->fd) != 0 - 1 ==> fdt[SF(\old(stack->fd))] == \old(fdt[stack->oldfd]) && fdt[\old(stack->oldfd)] == 0
ensures stack != \null && \old(stack->lock) == 0 && \old(stack->fd) != 0 - 1 ==> (\forall int k; k != SF(\old(stack->fd)) && k != \old(stack->oldfd) ==> fdt[k] == \old(fdt)[k])
ensures stack != \null && \old(stack->lock) == 0 && \old(stack->fd) == 0 - 1 ==> fdt == \old(fdt)

// streams handed to an external program: 0, 1 and 2 lead where input, output and error lead; undone afterwards
pred std() = stdin != \null && stdout != \null && stderr != \null && fno(stdin) == 0 && fno(stdout) == 1 && fno(stderr) == 2
// the streams of the first thread are the standard ones, those of the others are all different from them
pred threads() = (fInput == stdin || fno(fInput) > 2) && (_fOutput == stdout || fno(_fOutput) > 2) && (_fError == stderr || fno(_fError) > 2)
fn pBat_ApplyStreams
requires streams() && open3(fdt) && std() && threads() && (fOutput == _fOutput || fError == _fError) && fdt[0] != 0 && fdt[1] != 0 && fdt[2] != 0
assigns fdt, fl, cl, &fdStdin, &fdStdout, &fdStderr
ensures fdt[0] == \old(fdt)[fno(fInput)] && fdt[1] == \old(fdt)[fno(fOutput)] && fdt[2] == \old(fdt)[fno(fError)]
ensures fdt[fdStdin] == \old(fdt)[0] && fdt[fdStdout] == \old(fdt)[1] && fdt[fdStderr] == \old(fdt)[2]
ensures fdStdin > 2 && fdStdout > 2 && fdStderr > 2 && fdStdin != fdStdout && fdStdin != fdStderr && fdStdout != fdStderr

fn pBat_UnApplyStreams
requires std() && fdStdin > 2 && fdStdout > 2 && fdStderr > 2 && fdStdin != fdStdout && fdStdin != fdStderr && fdStdout != fdStderr && fdt[fdStdin] != 0 && fdt[fdStdout] != 0 && fdt[fdStderr] != 0
assigns fdt, fl, cl
ensures fdt[0] == \old(fdt)[fdStdin] && fdt[1] == \old(fdt)[fdStdout] && fdt[2] == \old(fdt)[fdStderr]
ensures \forall int k; k > 2 && k != fdStdin && k != fdStdout && k != fdStderr ==> fdt[k] == \old(fdt)[k]
