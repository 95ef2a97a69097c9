"""hrun.py PID : run only the harnesses of a check (development)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run, checks, mirror
pid = sys.argv[1]; cfg = checks.CHECKS[pid]
bdir = os.path.join(run.VERIF, "build", pid); os.makedirs(bdir, exist_ok=True)
root = mirror.mirror(os.path.join(bdir, "src"))
for h in cfg.get("harness", []):
    if len(sys.argv) > 2 and sys.argv[2] not in h["src"]: continue
    r = run.run_harness(pid, h, root, bdir, run.load_known(pid))
    print(h["src"], r["status"], r["cases"], "%.1fs" % r["s"]); seen = {}
    for f in r["failures"]:
        k = f.split()[0]; seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 3: print("  ", f[:2500])
    if r["status"] == "error": print(r["out"][-3000:])
    for k in r["known_hit"]: print("  known:", k)
