"""development CLI: vc.py spec [fn ...]"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cfront import *
from engine import *
from discharge import *
import mirror, spec as SP

def main():
    a = sys.argv[1:]
    dump = None
    slow = False
    while a and a[0].startswith("-"):
        if a[0] == "-d":
            dump = a[1]; a = a[2:]
        elif a[0] == "-n":
            slow = True; a = a[1:]
    spec = a[0]; fns = a[1:]
    root = "/tmp/mir"
    mirror.mirror(root)
    sf = SP.load(spec)
    t = time.time()
    units = [Unit(s, mirror.FLAGS, root) for s in dict.fromkeys(sf.sources)]
    print("front %.1fs" % (time.time() - t))
    todo = fns or [n for n, f in sf.fns.items() if not f.trusted and not f.inline and not f.imported and f.file == os.path.abspath(spec) or (n in fns)]
    todo = fns or [n for n, f in sf.fns.items() if not f.trusted and not f.inline and not f.imported]
    tot = bad = 0
    for n in todo:
        eng = Engine(units, sf)
        t = time.time()
        try:
            eng.verify(n)
        except (Unsupported, Unbound) as e:
            print("%-32s %s: %s" % (n, type(e).__name__, e)); bad += 1; continue
        t1 = time.time()
        res, prep, lem = discharge(eng, eng.vcs, plan=QUICKPLAN if not slow else PLAN)
        rb = reachable(eng, prep, lem, eng.reach)
        live = len(eng.returns)
        rr = reachable(eng, prep, lem, [("ret%d" % i, h) for i, h in enumerate(eng.returns)][:12])
        f = [r for r in res if r.status != "proved"]
        tot += len(res); bad += len(f)
        print("%-32s %4d obl %3d fail  paths %d feas %d gen %.1fs solve %.1fs%s%s unspec=%s" % (n, len(res), len(f), eng.npaths, eng.feas_calls, t1 - t, time.time() - t1,
              " VACUOUS " + str(rb) if rb else "", " deadret %d/%d" % (len(rr), live) if rr else "", eng.unspecified))
        names = {}
        for r in f:
            k = (r.vc.name, r.vc.line[1] if r.vc.line else None)
            names.setdefault(k, []).append(r)
        for k, l in names.items():
            print("   FAIL x%d %s line %s  %s" % (len(l), k[0], k[1], l[0].log[-1] if l[0].log else ""))
            if dump:
                open("%s_%s.smt2" % (dump, re.sub(r"\W+", "_", k[0])[:60]), "w").write(l[0].text)
                print("        goal", " ".join(str(l[0].goal).split())[:400], "...", " ".join(str(l[0].goal).split())[-400:])
    print("total", tot, "bad", bad)
main()
