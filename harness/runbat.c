#define F_SHELL
#include "full.h"
/* development: run a script in the in-process shell and print what it wrote */
int main(void) { char *t = getenv("BAT"), *a = getenv("BATARGS"); static char b[60000]; FILE *f = fopen(t, "r"); b[fread(b, 1, 59999, f)] = 0; f_shell("runbat"); char *o = f_run(b, a ? a : ""); fwrite(o, 1, strlen(o), stdout); if (f_nerr) printf("[%d errors, last %d %s]\n", f_nerr, f_err, f_arg); f_done(); h_case[0] = 0; fflush(stdout); _exit(0); }
