#!/bin/bash
# runbat.sh FILE [ARGS] : run a script in the instrumented in-process shell (PBAT_REPO selects the tree; BUILD=0 reuses the last build)
B=/verif/build/runbat; mkdir -p $B
cd /verif
[ "$BUILD" = 0 ] || python3-vt - <<'P' || exit 1
import sys; sys.path.insert(0,'engine'); sys.path.insert(0,'.')
import run, mirror, fullbuild, os, subprocess
b='build/runbat'; root=mirror.mirror(os.path.join(run.VERIF,b,'src'))
srcs=fullbuild.build(root,None,objdir=b+'/full.o.d',drop=("pbat/pBat.c",))[1]
r=subprocess.run(["gcc"]+run.CFLAGS+["-I"+root]+["-I"+os.path.join(root,x) for x in ("libpbat","pbat","pbat/core","libfasteval","microgettext","libcu8")]+["-Iharness","harness/runbat.c"]+srcs+["-o",b+"/runbat","-Wl,--wrap=pBat_ShowErrorMessage","-lpthread","-lm","-ldl","-rdynamic"])
sys.exit(r.returncode)
P
BAT=$1 BATARGS="$2" ASAN_OPTIONS=detect_leaks=0:exitcode=99 UBSAN_OPTIONS=print_stacktrace=1 $B/runbat
