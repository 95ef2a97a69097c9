/* harness linked with the whole interpreter (everything but main) */
#include "h.h"
#include <strings.h>
#include <sys/stat.h>
#include "libpbat/libpBat.h"
#include "pbat/core/pBat_Core.h"
#include "pbat/errors/pBat_Errors.h"
#include "pbat/init/pBat_Init.h"
static int f_err, f_nerr; static char f_arg[512];
void __wrap_pBat_ShowErrorMessage(int a, const char *b, int c)
{
    f_err = a; f_nerr++; *f_arg = 0; if ((unsigned long)b < 4096) b = 0; if (b) { strncpy(f_arg, b, 511); f_arg[511] = 0; }
    if (c) { printf("FAIL key=fatal fatal error %d on %s [%s]\n", a, b ? b : "?", h_case); printf("CASES %lu %lu\n", h_n, h_d); fflush(stdout); _exit(1); }
}
static void f_init(void)
{
    h_init();
    pBat_Init();
    fInput = fopen("/dev/null", "r"); _fOutput = fopen("/dev/null", "w"); _fError = _fOutput;
    fOutput = _fOutput; fError = _fError; bEchoOn = 0; bIsScript = 1;
}
#ifdef F_SHELL
/* a whole shell in this process: scripts are run by the interpreter itself, output captured */
#include "pbat/command/pBat_CommandInfo.h"
extern int pBat_CmdCall(char*);
static char f_dir[64], f_out[1 << 20], f_errout[1 << 18]; static long f_len;
static void f_shell(const char *name)
{
    int d;
    f_init();
    signal(SIGPIPE, SIG_IGN); signal(SIGFPE, SIG_IGN);
    sprintf(f_dir, "/tmp/h_%s.%d", name, (int)getpid()); mkdir(f_dir, 0700); chdir(f_dir); mkdir("w", 0700); chdir("w"); getcwd(lpCurrentDir, 1000);
    pBat_CreateMutex(&mThreadLock); pBat_CreateMutex(&mSetLock); pBat_CreateMutex(&mRunFile); pBat_CreateMutex(&mEchoLock); pBat_CreateMutex(&mModLock); pBat_CreateMutex(&mLineNoise);
    fInput = fopen("/dev/null", "r");
    _fOutput = fOutput = fopen("../out", "w+"); _fError = fError = fopen("../err", "w+");
    d = open("/dev/null", O_RDONLY); dup2(d, 0); close(d);
    lpclCommands = pBat_MapCommandInfo(lpCmdInfo, iCmdInfoNb);
    bEchoOn = 0; bDelayedExpansion = 0;
    pBat_SetLocalVar(lpvArguments, '0', ""); strcpy(ifIn.lpFileName, "none");
}
static void f_done(void) { char b[100]; chdir("/"); sprintf(b, "rm -rf %s", f_dir); system(b); }
static void f_put(const char *f, const char *s) { FILE *h = fopen(f, "w"); if (h) { fputs(s, h); fclose(h); } }
static char *f_get(const char *f) { static char b[3][70000]; static int i; char *r = b[i = (i + 1) % 3]; FILE *h = fopen(f, "r"); size_t n; if (!h) return 0; n = fread(r, 1, 69999, h); r[n] = 0; fclose(h); return r; }
/* run script text with arguments; what it printed is returned */
static char *f_run(const char *text, const char *args)
{
    static char line[9000];
    f_put("../s.bat", text);
    fflush(fOutput); rewind(fOutput); ftruncate(fileno(fOutput), 0);
    fflush(fError); rewind(fError); ftruncate(fileno(fError), 0);
    snprintf(line, sizeof line, "call %s/s.bat %s", f_dir, args ? args : "");
    f_nerr = 0; bAbortCommand = 0; iErrorLevel = 0;
    pBat_CmdCall(line);
    bAbortCommand = 0; bEchoOn = 0;
    fflush(fOutput); rewind(fOutput);
    f_len = fread(f_out, 1, sizeof f_out - 1, fOutput); f_out[f_len] = 0;
    if (fError != fOutput) { size_t n; fflush(fError); rewind(fError); n = fread(f_errout, 1, sizeof f_errout - 1, fError); f_errout[n] = 0; }
    return f_out;
}
#endif
