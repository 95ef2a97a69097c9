"""mkseed.py [ID...]: (re)generate /verif/seeded/<ID> from the table in seeds.py; run on the clean tree of /repo"""
import sys, os, json, subprocess, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
REPO = "/repo"; OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
# runs script.bat with the built interpreter in a scratch directory and compares what it prints
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
p=$repo/_build/linux/pbat/pbat
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$here/script.bat" "$t/script.bat"; cd "$t"
%sout=$(timeout 60 "$p" script.bat </dev/null 2>&1); rc=$?
echo "$out"
if [ "$out" != "$(cat "$here/expected")" ]; then echo "expected:"; cat "$here/expected"; exit 1; fi
[ $rc -lt 124 ] || exit 1
'''
CDEMO = '''#!/bin/bash
# compiles demo.c with the sources under test and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cd "$t"
b=$repo/_build/linux
gcc -g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -D_GNU_SOURCE -I$b -I$b/libpbat -I$b/pbat -o demo "$here/demo.c" %s || exit 0
ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''
def sh(*a, **k): return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout
want = sys.argv[1:]
for s in seeds.SEEDS:
    if want and s["id"] not in want: continue
    if not want and os.path.exists(f"{OUT}/{s['id']}/patch.diff"): continue
    d = f"{OUT}/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp()
    try:
        diff = ""
        for f, old, new in s["edits"]:
            src = open(f"{REPO}/{f}", newline="").read()
            crlf = "\r\n" in src
            if crlf and src.count(old) != 1: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            n = src.count(old)
            if n != 1: raise SystemExit(f"{s['id']}: {n} occurrences in {f}")
            p = f"{t}/b/{f}"
            if os.path.exists(p): src = open(p, newline="").read()
            os.makedirs(os.path.dirname(p), exist_ok=True); os.makedirs(os.path.dirname(f"{t}/a/{f}"), exist_ok=True)
            open(p, "w", newline="").write(src.replace(old, new)); shutil.copy(f"{REPO}/{f}", f"{t}/a/{f}")
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True).stdout
        open(f"{d}/patch.diff", "w", newline="").write(r)
    finally: shutil.rmtree(t)
    subprocess.run(["git", "apply", "--check", f"{d}/patch.diff"], cwd=REPO, check=True)
    if "c" in s:
        open(f"{d}/demo.c", "w").write(s["c"]); open(f"{d}/demo.sh", "w").write(CDEMO % " ".join("$b/" + x for x in s["link"]))
    else:
        open(f"{d}/script.bat", "w").write(s["script"]); open(f"{d}/expected", "w").write(s["expect"])
        open(f"{d}/demo.sh", "w").write(DEMO % (s.get("pre", "")))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    print("made", s["id"])
