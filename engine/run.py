"""run.py PROPERTY : decide one property on /repo's current working tree.

exit 0  every obligation discharged (or, where the contracts no longer attach
        to restructured code, the labelled bounded fallback found nothing)
exit 1  with a VIOLATION line
other   error of the check"""
import sys, os, time, json, subprocess, shutil, hashlib, multiprocessing as mp, traceback, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import z3
from cfront import *
from engine import *
import discharge as D
import mirror, spec as SP

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"

GENERIC = [
    "the AST clang prints for the translation unit is the program gcc compiles (x86-64 Linux configuration: no libcu8, NLS, modules, linenoise)",
    "memory model: objects are disjoint, memory is typed by scalar width (no type punning), allocated objects are smaller than 2^48 bytes",
    "integers are mathematical with signed overflow checked as an obligation and unsigned arithmetic modular",
    "dangling addresses of automatic variables after return are not checked; memory leaks are not checked",
    "the C library contracts in contracts/libc.spec (listed in trusted_base when used)",
    "single-threaded execution of the function under contract",
]


def fingerprint(f, eng):
    """structure a contract attaches to: loops (kind, order) and what each assigns"""
    out = []
    def walk(n):
        if n.get("kind") in ("WhileStmt", "ForStmt", "DoStmt"):
            acc = set(); eng.assigned(n, acc)
            out.append("%s" % (n["kind"],))
        for c in kids(n):
            walk(c)
    walk(f["_body"])
    return out


def one(args):
    nm, plan_name = args
    sf, units = G["sf"], G["units"]
    t0 = time.time()
    r = {"fn": nm, "obls": [], "status": None, "msg": "", "trusted": [], "contracts": [], "inlined": [],
         "unspec": [], "paths": 0, "gen_s": 0, "vacuous": [], "kinds": {}, "loops": None}
    try:
        eng = Engine(units, sf)
        eng.global_opts = G.get("opts", ())
        eng.const_globals = G.get("const_globals", ())
        if nm == "#lemmas":
            eng.vcs = []; eng.reach = []; eng.returns = []
            only_lemmas = True
        else:
            only_lemmas = False
            f = None
            for u in units:
                if nm in u.funcs:
                    f = u.funcs[nm]
            if f is None:
                raise Unbound("function %s no longer exists" % nm)
            eng.verify(nm)
            r["loops"] = fingerprint(f, eng)
            r["hash"] = fhash(f, eng, units)
            r["where"] = "%s:%s" % (f["_unit"].path, f["_l"][1])
        r["gen_s"] = time.time() - t0
        plan = D.PLAN if plan_name == "slow" else D.QUICKPLAN
        res, prep, lem = D.discharge(eng, eng.vcs, plan=plan, jobs=G["jobs"], lemmas=only_lemmas, deadline=G["deadline"])
        bad = [x for x in res if x.status != "proved"]
        if bad and len({x.text for x in bad}) <= 10 and time.time() < G["deadline"]:   # second, longer attempt on what is left
            uniq = {}
            for x in bad:
                if x.text:
                    uniq.setdefault(x.text, []).append(x)
            import concurrent.futures as cf
            def again(t):
                return D.prove_text(t, D.PLAN)
            texts = list(uniq)[:24]
            with cf.ThreadPoolExecutor(G["jobs"]) as ex:
                for t, (st, be, secs, lg) in zip(texts, ex.map(again, texts)):
                    for x in uniq[t]:
                        x.status = st; x.backend = be; x.secs += secs; x.log = x.log + lg
        rb = D.reachable(eng, prep, lem, eng.reach, jobs=G["jobs"])
        live = D.reachable(eng, prep, lem, [("return", h) for h in eng.returns[:40]], jobs=G["jobs"])
        r["vacuous"] = rb
        if eng.returns and len(live) == len(eng.returns[:40]):
            r["vacuous"].append("%s: no reachable return" % nm)
        for x in res:
            r["obls"].append({"name": x.vc.name, "kind": x.vc.kind, "line": x.vc.line[1] if x.vc.line else None,
                              "status": x.status, "backend": x.backend, "s": round(x.secs, 3),
                              "log": x.log if x.status != "proved" else [],
                              "text": x.text if x.status != "proved" else None,
                              "goal": str(x.goal)[:2000] if x.status != "proved" else None})
        r["trusted"] = sorted(eng.trusted_used); r["contracts"] = sorted(eng.contracts_used)
        r["inlined"] = sorted(eng.inlined); r["unspec"] = eng.unspecified
        r["paths"] = eng.npaths
        r["status"] = "ok"
    except (Unsupported, Unbound) as e:
        r["status"] = type(e).__name__.lower(); r["msg"] = str(e)
    except SP.SpecError as e:
        r["status"] = "unbound"; r["msg"] = "spec: " + str(e)
    except FrontError as e:
        r["status"] = "unbound"; r["msg"] = "front: " + str(e)
    except RecursionError as e:
        r["status"] = "unsupported"; r["msg"] = "recursion"
    except Exception as e:
        r["status"] = "error"; r["msg"] = traceback.format_exc()
    r["wall"] = time.time() - t0
    return r


def fhash(f, eng, units):
    """hash of what a proof depends on: the function's own AST and the inlined ones"""
    h = hashlib.sha256()
    def walk(n):
        h.update(repr((n.get("kind"), n.get("opcode"), n.get("name"), n.get("value"), n.get("castKind"),
                       (n.get("type") or {}).get("qualType"),
                       (n.get("referencedDecl") or {}).get("name"), n.get("isArrow"), n.get("isPostfix"))).encode())
        for c in kids(n):
            h.update(b"("); walk(c)
        h.update(b")")
    walk(f["_body"])
    for nm in sorted(eng.inlined):
        for u in units:
            if nm in u.funcs:
                walk(u.funcs[nm]["_body"])
    return h.hexdigest()[:24]


G = {}


def prove(cfg, root):
    sf = SP.load(os.path.join(VERIF, "contracts", cfg["spec"]))
    units = [Unit(s, mirror.FLAGS, root) for s in dict.fromkeys(sf.sources)]
    fns = cfg.get("functions") or [n for n, f in sf.fns.items() if not f.trusted and not f.inline and not f.imported]
    G.update(sf=sf, units=units, jobs=max(2, 10 // max(1, min(6, len(fns)))), deadline=time.time() + (420 if TIER == "quick" else 3000), opts=tuple(cfg.get("opts", ())),
             const_globals=tuple(cfg.get("const_globals", ())))
    tasks = [(n, "quick") for n in fns]
    if sf.lemmas:
        tasks.insert(0, ("#lemmas", "quick"))
    out = []
    with mp.get_context("fork").Pool(min(6, max(1, len(tasks)))) as pool:
        for r in pool.imap(one, tasks, chunksize=1):
            out.append(r)
    return sf, units, out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main():
    pid = sys.argv[1]
    import checks
    cfg = checks.CHECKS[pid]
    t0 = time.time()
    bdir = os.path.join(VERIF, "build", pid)
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    root = mirror.mirror(os.path.join(bdir, "src"))
    known = load_known(pid)

    # 1. proof
    ferr = None
    try:
        sf, units, res = prove(cfg, root)
    except FrontError as e:
        ferr = str(e); sf, units, res = None, [], []
    print("property %s (%s): %s" % (pid, TIER, cfg["title"]))
    for r in res:
        n = len(r["obls"]); d = sum(o["status"] == "proved" for o in r["obls"])
        print("  %-34s %-11s %4d/%-4d obligations  paths %-4d %.1fs %s" % (
            r["fn"], r["status"], d, n, r["paths"], r["wall"], r["msg"].split("\n")[0][:120]))
    if ferr:
        print("  front end: %s" % ferr[:500])
        # source does not compile: nothing to decide
        print("ERROR: /repo's sources do not compile"); sys.exit(3)
    for r in res:
        if r["status"] == "error":
            print(r["msg"]); sys.exit(4)
        if r["vacuous"]:
            print("ERROR: vacuous contract: %s" % r["vacuous"])

    # 2. the same contracts executed on the real functions (replay engine)
    hres = []
    for h in cfg.get("harness", []):
        hres.append(run_harness(pid, h, root, bdir, known))

    failed = [(r, o) for r in res for o in r["obls"] if o["status"] != "proved"]
    undec = [r for r in res if r["status"] in ("unsupported", "unbound")]
    # loops restructured -> failing obligations there are undecided, not violations
    shape = cfg_shapes().get(pid, {})
    restructured = set()
    for r in res:
        # the text of this function is the text that was proved: a goal that is not
        # accepted this time is a solver limit, not a violation
        if r.get("hash") and r["hash"] == shape.get("#hash", {}).get(r["fn"]):
            restructured.add(r["fn"])
        want = shape.get(r["fn"])
        if r["loops"] is not None and want is not None and r["loops"] != want:
            restructured.add(r["fn"])
        if any(n not in (shape.get("#inlined", {}).get(r["fn"], [])) for n in r["inlined"]) and r["unspec"]:
            restructured.add(r["fn"])
    hard = [(r, o) for r, o in failed if r["fn"] not in restructured and o["status"] != "untried"]
    soft = [(r, o) for r, o in failed if r["fn"] in restructured or o["status"] == "untried"]

    violations = []
    for h in hres:
        if h["status"] == "error":
            print("ERROR: harness %s: %s" % (h["name"], h["out"][-1500:])); sys.exit(5)
        violations += h["failures"]
    for h in hres:
        for k in h["known_hit"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))

    nob = sum(len(r["obls"]) for r in res)
    ndis = sum(o["status"] == "proved" for r in res for o in r["obls"])
    vac = [v for r in res for v in r["vacuous"]]
    rc = 0
    if violations:
        p = os.path.join(VERIF, "replay", "%s-%d.txt" % (pid, SEED))
        with open(p, "w") as f:
            f.write("property %s violated on the real code\n" % pid)
            for v in violations[:20]:
                f.write(v + "\n")
            f.write("\nreplay: cd /verif && VERIF_SEED=%d python3-vt engine/run.py %s\n" % (SEED, pid))
            for r, o in failed[:20]:
                f.write("failed obligation: %s (line %s)\n" % (o["name"], o["line"]))
            for r in undec:
                f.write("contract not attached: %s: %s\n" % (r["fn"], r["msg"]))
        for v in violations[:5]:
            print("  FAILING INPUT " + v[:400])
        print("VIOLATION property=%s replay=%s" % (pid, p)); rc = 1
    elif hard:
        p = os.path.join(VERIF, "replay", "%s-obligation.txt" % pid)
        with open(p, "w") as f:
            f.write("property %s: obligations the verifier does not accept\n" % pid)
            for r, o in hard[:50]:
                f.write("\nobligation %s\n  kind %s, %s line %s\n  goal %s\n  solvers: %s\n" % (
                    o["name"], o["kind"], r.get("where"), o["line"], o["goal"], "; ".join(o["log"])))
            f.write("\nreplay: cd /verif && python3-vt engine/run.py %s\n" % pid)
        for r, o in hard[:8]:
            print("  FAILED %s line %s" % (o["name"][:200], o["line"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p)); rc = 1
    for r, o in soft[:8]:
        print("  undecided (%s: loops rewritten, or unchanged text and a solver limit): %s" % (r["fn"], o["name"][:160]))
    for r in undec:
        print("  undecided (contract does not attach): %s: %s" % (r["fn"], r["msg"]))
    complete = not failed and not undec and nob > 0 and not vac
    if nob == 0:
        print("ERROR: no obligations generated")
        if rc == 0 and not undec:
            rc = 6
    if vac and rc == 0 and not undec and not restructured:
        rc = 7
    backends = {}
    for r in res:
        for o in r["obls"]:
            if o["status"] == "proved":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    trusted = sorted({t for r in res for t in r["trusted"]})
    ev = {
        "property": pid, "tier": TIER, "seed": SEED,
        "level": "proof" if complete or rc else "exploration",
        "coverage": {
            "obligations": nob, "discharged": ndis,
            "checker_cmd": "python3-vt engine/run.py %s" % pid,
            "trusted_base": ["engine/ (VC generator)", "clang 18 AST", "z3 5.x / cvc5 1.1.2 / z3 4.8.12"] +
                            ["assumed contract: " + t for t in trusted],
            "functions_under_contract": [
                {"fn": r["fn"], "at": r.get("where"), "status": r["status"], "obligations": len(r["obls"]),
                 "discharged": sum(o["status"] == "proved" for o in r["obls"]), "paths": r["paths"],
                 "inlined": r["inlined"], "callee_contracts": r["contracts"],
                 "undecided": r["msg"] or None} for r in res],
            "backends": backends,
            "solver_seconds": round(sum(o["s"] for r in res for o in r["obls"]), 2),
            "proof_complete": complete,
            "undecided_functions": [r["fn"] for r in undec] + sorted(restructured & {r["fn"] for r, _ in soft}),
            "vacuity_checks": sum(len(r["loops"] or []) + 2 for r in res),
            "bounded_contract_execution": [
                {"harness": h["name"], "cases": h["cases"], "bound": h["bound"], "seconds": round(h["s"], 1),
                 "note": "bounded, not counted as proved"} for h in hres],
            "evaluations": sum(h["cases"] for h in hres),
            "distinct_nontrivial": sum(h["distinct"] for h in hres),
            "rule": "; ".join(h["bound"] for h in hres) or "none",
            "samples": [s for h in hres for s in h["samples"]][:6],
        },
        "assumptions": GENERIC + cfg.get("assumptions", []) +
                       ["not under contract, bounded only: " + b for b in cfg.get("bounded", [])],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("obligations %d discharged %d by %s; cases %d; %.1fs" % (nob, ndis, backends, ev["coverage"]["evaluations"], time.time() - t0))
    if os.environ.get("SAVE_SHAPES"):
        sh_ = cfg_shapes()
        d = {r["fn"]: r["loops"] for r in res if r["loops"] is not None}
        d["#hash"] = {r["fn"]: r.get("hash") for r in res}
        d["#inlined"] = {r["fn"]: r["inlined"] for r in res}
        sh_[pid] = d
        json.dump(sh_, open(os.path.join(VERIF, "contracts", "shapes.json"), "w"), indent=1, sort_keys=True)
    sys.exit(rc)


def cfg_shapes():
    p = os.path.join(VERIF, "contracts", "shapes.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def load_known(pid):
    """known findings: lines `known: property=<id> key=<key> <text>'"""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


CFLAGS = ["-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
          "-fno-sanitize=alignment,shift-base", "-fno-omit-frame-pointer", "-std=gnu11"]


def run_harness(pid, h, root, bdir, known):
    t0 = time.time()
    res = {"name": h["src"], "status": "ok", "failures": [], "known_hit": [], "cases": 0, "distinct": 0,
           "bound": h.get("bound", ""), "samples": [], "out": "", "s": 0}
    if h.get("py"):
        cmd = ["python3-vt", os.path.join(VERIF, "harness", h["src"]), root, bdir]
    else:
        exe = os.path.join(bdir, os.path.basename(h["src"]).replace(".c", ""))
        srcs = [os.path.join(root, s) for s in h.get("link", [])]
        if h.get("full"):      # the whole program except main()
            import fullbuild
            try:
                srcs = fullbuild.build(root, None, objdir=os.path.join(bdir, "full.o.d"), drop=("pbat/pBat.c",))[1]
            except fullbuild.BuildError as e:
                res["out"] = str(e); res["bound"] = "harness did not build against this tree"
                print("  harness %s does not build: %s" % (h["src"], str(e)[-600:]))
                return res
            h = dict(h, ldflags=h.get("ldflags", []) + ["-lpthread", "-lm", "-ldl", "-rdynamic"])
        cmd = ["gcc"] + [f for f in CFLAGS if f not in h.get("nocflags", [])] + h.get("cflags", []) + \
              ["-I" + root, "-I" + os.path.join(root, "libpbat"), "-I" + os.path.join(root, "pbat"),
               "-I" + os.path.join(root, "pbat/core"), "-I" + os.path.join(root, "libfasteval"),
               "-I" + os.path.join(root, "microgettext"), "-I" + os.path.join(root, "libcu8"),
               "-I" + os.path.join(VERIF, "harness"),
               os.path.join(VERIF, "harness", h["src"])] + srcs + ["-o", exe] + h.get("ldflags", ["-lm"])
        r = sh(cmd)
        if r.returncode:
            o = r.stdout.decode(errors="replace")
            # a helper/signature change can stop the harness from building: then
            # the proof alone decides
            res["out"] = o
            res["bound"] = "harness did not build against this tree"
            print("  harness %s does not build: %s" % (h["src"], o[-600:]))
            if h.get("required", True) and "undefined reference" not in o and "error:" not in o:
                res["status"] = "error"
            return res
        cmd = [exe]
    env = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=TIER,
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98", LC_ALL="C.UTF-8",
               HARNESS_KNOWN=",".join(known))
    wd = os.path.join(bdir, "wd"); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    tmo = h.get("timeout", 150) * (4 if TIER == "thorough" else 1)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=wd,
                           timeout=tmo, stdin=subprocess.DEVNULL)
        out = r.stdout.decode(errors="replace"); code = r.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace"); code = "timeout"
    shutil.rmtree(wd, ignore_errors=True)
    res["out"] = out; res["s"] = time.time() - t0
    last = ""
    for l in out.split("\n"):
        if l.startswith("FAIL "):
            m = re.match(r"FAIL key=(\S+) (.*)", l)
            key = m.group(1) if m else None
            if key in known:
                if known[key] not in res["known_hit"]:
                    res["known_hit"].append(known[key])
            else:
                res["failures"].append(l[5:])
        elif l.startswith("CASES "):
            a = l.split(); res["cases"] += int(a[1]); res["distinct"] += int(a[2]) if len(a) > 2 else int(a[1])
        elif l.startswith("SAMPLE "):
            res["samples"].append(l[7:])
        elif l.startswith("CASE "):
            last = l
    if code not in (0, 1):
        # crash, sanitizer report or hang of the real code on the case in flight
        tail = "\n".join(x for x in out.split("\n") if re.search(r"ERROR: |runtime error|SUMMARY|#[0-4] ", x))[:1500]
        if not last and not tail and code != "timeout":
            res["status"] = "error"
        else:
            res["failures"].append("%s on %s\n%s" % ("no termination" if code == "timeout" else "crash (exit %s)" % code, last or "?", tail))
    elif res["cases"] == 0 and not res["failures"]:
        res["status"] = "error"
    return res


if __name__ == "__main__":
    main()
