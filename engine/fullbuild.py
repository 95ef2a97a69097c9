"""build the whole of pbat (default Linux configuration) from a mirror, with sanitizers.
fullbuild.build(root, out) -> path of the executable (or raises BuildError)"""
import os, subprocess, re, sys
from concurrent.futures import ThreadPoolExecutor
CF = ["-g", "-O1", "-w", "-std=gnu11", "-fsanitize=address,undefined", "-fno-sanitize=alignment,shift-base",
      "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


def sources(root, d):
    t = open(os.path.join(root, d, "Makefile")).read() if os.path.exists(os.path.join(root, d, "Makefile")) else ""
    t = t.replace("\\\n", " ")
    return [os.path.normpath(os.path.join(d, m)) for m in re.findall(r"(?<![\w/])\.?/?([\w/]+\.c)\b", "\n".join(
        l for l in t.split("\n") if re.match(r"\s*SRC_(FILES|LINENOISE)\s*:?=", l)))]


def build(root, out, cflags=CF, objdir=None, drop=(), extra=()):
    objdir = objdir or out + ".o.d"
    os.makedirs(objdir, exist_ok=True)
    lib = os.path.join(root, "libfasteval/lib")
    inc = ["-I" + root] + ["-I" + os.path.join(root, d) for d in
           ("libpbat", "libfasteval/lib", "microgettext", "pbat", "pbat/core")]
    def run(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(" ".join(cmd)[:300] + "\n" + r.stdout.decode(errors="replace")[-3000:])
    run(["bison", "-d", "-p", "evaluator_", "-o", lib + "/parser.c", lib + "/parser.y"])
    run(["flex", "-Pevaluator_", "-L", "-o" + lib + "/scanner.c", lib + "/scanner.l"])
    srcs = ["libfasteval/lib/%s.c" % x for x in ("fasteval", "parser", "scanner", "xmath")]
    srcs += sources(root, "libpbat") + sources(root, "pbat") + sources(root, "microgettext")
    srcs = [s for s in dict.fromkeys(srcs) if s not in drop]
    objs = [os.path.join(objdir, s.replace("/", "_")[:-2] + ".o") for s in srcs]
    def cc(so):
        s, o = so
        run(["gcc", "-c"] + list(cflags) + list(extra) + inc + [os.path.join(root, s), "-o", o])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(cc, zip(srcs, objs)))
    if out:
        run(["gcc"] + list(cflags) + objs + ["-o", out, "-lpthread", "-lm", "-ldl", "-rdynamic"])
    return out, objs


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(__file__))
    import mirror
    os.makedirs(sys.argv[1], exist_ok=True)
    r = mirror.mirror(sys.argv[1] + "/src")
    print(build(r, sys.argv[1] + "/pbat")[0])
