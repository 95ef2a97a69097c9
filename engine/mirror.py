"""scratch mirror of /repo's working tree with the generated headers"""
import os, subprocess, re, sys, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBAT_REPO", "/repo")


def mirror(dest):
    os.makedirs(dest, exist_ok=True)
    for d in ("libpbat", "pbat", "libfasteval", "libcu8", "microgettext", "pbatize", "tea", "modules", "dump"):
        src = os.path.join(REPO, d)
        if not os.path.isdir(src):
            continue
        subprocess.check_call(["rsync", "-rlpt", "--delete", "--prune-empty-dirs",
                               "--include=*/", "--include=*.c", "--include=*.h", "--include=Makefile",
                               "--include=*.y", "--include=*.l", "--include=*.in",
                               "--exclude=*", src + "/", os.path.join(dest, d) + "/"])
    # config.h from config.h.in with the default linux configuration
    t = open(os.path.join(REPO, "config.h.in")).read()
    vals = {"use_cmdlycorrect": "0", "use_libcu8": "0", "use_nls": "1", "use_console": "1",
            "use_w10ansi": "0", "use_modules": "1", "use_linenoise": "1", "PACKAGE": "picobat",
            "VERSION": "226.11", "HOST": "x86_64-linux-gnu", "YEAR": "2026", "BINDIR": "bin",
            "prg_xdg-open": "0", "prg_mimeopen": "0", "path_xdg-open": "", "path_mimeopen": ""}
    t = re.sub(r"@([\w-]+)@", lambda m: vals.get(m.group(1), "0"), t)
    p = os.path.join(dest, "config.h")
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)
    return dest


FLAGS = ["-std=gnu11", "-D__NO_CTYPE", "-DPBAT_CONTRACTS=1", "-I.", "-Ilibpbat", "-Ipbat", "-Ipbat/core",
         "-Ilibfasteval/lib", "-Ilibfasteval", "-Imicrogettext", "-Ilibcu8"]
