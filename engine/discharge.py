"""Discharging obligations with SMT back ends (z3 5.x, cvc5, z3 4.8)."""
import os, re, subprocess, time, concurrent.futures as cf
import z3
from symex import *

SOLVERS = [
    ("z3-5", ["z3-new", "-smt2", "-in", "-T:%d"], ""),
    ("cvc5", ["cvc5", "--lang=smt2", "--tlimit=%d000", "-q"], ""),
    ("z3-4.8", ["z3", "-smt2", "-in", "-T:%d"], ""),
    ("z3-5", ["z3-new", "-smt2", "-in", "smt.random_seed=1", "-T:%d"], ""),
    ("z3-5", ["z3-new", "-smt2", "-in", "smt.random_seed=2", "-T:%d"], ""),
    ("z3-5", ["z3-new", "-smt2", "-in", "smt.random_seed=5", "-T:%d"], ""),
]


def run_solver(name, cmd, text, tmo):
    cmd = [c % tmo if "%d" in c else c for c in cmd]
    t = time.time()
    try:
        r = subprocess.run(cmd, input=text.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=tmo + 5)
        out = r.stdout.decode(errors="replace").strip()
    except subprocess.TimeoutExpired:
        out = "timeout"
    first = out.split("\n", 1)[0].strip()
    return first, out, time.time() - t


class Prep:
    """turns VCs into SMT-LIB scripts"""

    def __init__(self, eng):
        self.eng = eng
        self.th = eng.th
        self.ax_cache = {}
        self.lemmas = []   # (name, formula, set of fns)

    def fnames(self, f, acc, seen):
        st = [f]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                st.append(x.body())
                for k in range(x.num_patterns()):
                    st.append(x.pattern(k))
                continue
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() > 0:
                    acc.add(d.name())
                st.extend(x.children())

    def axioms_for(self, names, lemmas):
        sf = self.th.sf
        out = []; done = set(); work = list(names)
        used = set(names)
        lem = []
        taken = set()
        while True:
            while work:
                n = work.pop()
                n = re.sub(r"_\d+$", "", n) if re.sub(r"_\d+$", "", n) in sf.logics else n
                if n in done:
                    continue
                done.add(n)
                if n in sf.logics:
                    for ax in self.logic_ax(n):
                        out.append(ax)
                        acc = set(); self.fnames(ax, acc, set())
                        work += [x for x in acc if x not in done]
                elif n == "slen":
                    out += self.th.base_axioms()
                elif n == "pow2":
                    for i in range(64):
                        out.append(POW2(i) == 1 << i)
                elif n == "band":
                    x, y = z3.Ints("x y")
                    out.append(z3.ForAll([x, y], BAND(x, y) == BAND(y, x), patterns=[BAND(x, y)]))
                    out.append(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, y >= 0),
                               z3.And(BAND(x, y) >= 0, BAND(x, y) <= x, BAND(x, y) <= y)), patterns=[BAND(x, y)]))
                    out.append(z3.ForAll([x, y], z3.Implies(x == y, BAND(x, y) == x), patterns=[BAND(x, y)]))
            # lemmas whose function symbols are all present
            more = False
            for (nm, f, fn, auto) in lemmas:
                if nm in taken:
                    continue
                trig = fn
                if f is not None and z3.is_quantifier(f) and f.num_patterns():
                    trig = set()
                    for k in range(f.num_patterns()):
                        self.fnames(f.pattern(k), trig, set())
                if trig <= done | {"slen"} or (trig & done and not trig - done):
                    taken.add(nm); out.append(f); more = True
                    for x in fn:
                        if x not in done:
                            work.append(x)
            if not work and not more:
                break
        return out

    def logic_ax(self, n):
        o = self.eng.cur.options.get("opaque") if getattr(self.eng, "cur", None) else None
        if o and n in o.split(","):      # the definition is not needed here
            return []
        if n not in self.ax_cache:
            self.ax_cache[n] = self.th.logic_axioms(n)
        return self.ax_cache[n]

    def script(self, hyps, goal, lemmas):
        acc = set(); seen = set()
        for h in hyps:
            self.fnames(h, acc, seen)
        self.fnames(goal, acc, seen)
        s = z3.SolverFor("ALL") if False else z3.Solver()
        for a in self.axioms_for(acc, lemmas):
            s.add(a)
        for h in hyps:
            s.add(h)
        s.add(z3.Not(goal))
        t = s.to_smt2()
        t = re.sub(r"^; benchmark.*\n", "", t)
        if "(set-info :status" in t:
            t = re.sub(r"\(set-info :status \w+\)\n", "", t)
        return "(set-logic ALL)\n" + t.replace("(set-logic ALL)", "")


def splitgoal(g):
    if z3.is_and(g):
        r = []
        for c in g.children():
            r += splitgoal(c)
        return r
    if z3.is_implies(g):
        a, b = g.children()
        p = splitgoal(b)
        if len(p) > 1:
            return [z3.Implies(a, x) for x in p]
    return [g]


def prove_text(text, plan):
    """plan: [(solver index, timeout)] -> (status, backend, seconds)"""
    tot = 0; st = "unknown"; log = []
    for i, tmo in plan:
        nm, cmd, _ = SOLVERS[i]
        first, out, dt = run_solver(nm, cmd, text, tmo)
        tot += dt
        log.append("%s: %s (%.1fs)" % (nm, first[:60], dt))
        if first == "unsat":
            return "proved", nm, tot, log
        if first == "sat":
            st = "sat"
            return "sat", nm, tot, log
    return st, None, tot, log


PLAN = [(0, 4), (3, 4), (1, 8), (2, 8), (4, 6), (5, 10), (0, 25)]
QUICKPLAN = [(0, 3), (3, 3), (1, 5), (2, 4), (4, 4), (5, 4), (0, 8)]


def lemma_formulas(eng, prep):
    """axioms + lemmas as formulas; lemma obligations"""
    th = eng.th; out = []; vcs = []
    def fml(e):
        return SpecEval(th, None, None, {}, eng, None, False).boolv(e)
    for nm, e in th.sf.axioms:
        f = fml(e); acc = set(); prep.fnames(f, acc, set())
        out.append((nm, f, acc, True))
    axs = {nm for nm, _ in th.sf.axioms}
    for nm, ind, e, using in th.sf.lemmas:
        f = fml(e); acc = set(); prep.fnames(f, acc, set())
        known = [x for x in out if not using or x[0] in re.split(r"\W+", using) or x[0] in axs]
        if ind is None:
            vcs.append((nm, [], f, known))
        else:
            # e is \forall ..., int ind, ...; P   : induction on ind >= 0
            if e[0] != "forall":
                raise SP.SpecError("induction needs forall")
            bs = e[1]
            frm = None
            if " from " in ind:
                ind, frm = re.split(r"\s+from\s+", ind)
            consts = {}
            for t, n in bs:
                if t == "bytes":
                    consts[n] = SV(z3.Const("L_" + n, AI), "bytes")
                elif t == "str":
                    consts[n] = SV(("str", z3.Const("L_" + n, AI), z3.Int("L_" + n + "_o")), "lstr")
                else:
                    consts[n] = SV(z3.Int("L_" + n), "int")
            k = consts[ind].v
            others = [(t, n) for t, n in bs if n != ind]
            def inst(val, gen):
                # P[ind:=val]; other variables generalised when gen
                b = dict(consts); b[ind] = SV(val, "int")
                se = SpecEval(th, None, None, b, eng, None, False)
                if not gen or not others:
                    return se.boolv(e[2])
                return se.boolv(("forall", others, e[2], e[3]))
            k0 = consts[frm].v if frm else 0
            vcs.append((nm + ":base", [k <= k0], inst(k, False), known))
            vcs.append((nm + ":step", [k > k0, inst(k - 1, frm is None)], inst(k, False), known))
        out.append((nm, f, acc, True))
    return out, vcs


class Result:
    def __init__(self, vc, status, backend, secs, log, text=None, goal=None):
        self.vc = vc; self.status = status; self.backend = backend
        self.secs = secs; self.log = log; self.text = text; self.goal = goal


def discharge(eng, vcs, plan=PLAN, jobs=8, deadline=None, lemmas=True):
    prep = Prep(eng)
    dolem = lemmas
    lemmas, lvcs = lemma_formulas(eng, prep)
    if not dolem:
        lvcs = []
    tasks = []
    res = []
    for nm, hyps, goal, known in lvcs:
        v = VC("lemma", "lemma " + nm, "lemma", None, hyps, goal)
        tasks.append((v, goal, prep.script(hyps, goal, known)))
    seen = {}
    for v in vcs:
        for g in splitgoal(v.goal):
            if z3.is_true(g):
                res.append(Result(v, "proved", "trivial", 0, [])); continue
            if any(h.eq(g) for h in v.hyps):
                res.append(Result(v, "proved", "trivial", 0, [])); continue
            t = prep.script(v.hyps, g, lemmas)
            tasks.append((v, g, t))
    texts = list(dict.fromkeys(t for _, _, t in tasks))
    # worker threads only ever see text: z3 objects are not thread safe
    bad = [0]
    def work(t):
        if deadline and time.time() > deadline or bad[0] >= 30:
            return ("untried", None, 0, ["not tried: %s" % ("out of time" if bad[0] < 30 else "30 others failed")])
        r = prove_text(t, plan if bad[0] < 10 else plan[:1])
        if r[0] != "proved":
            bad[0] += 1
        return r
    ans = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for t, r in zip(texts, ex.map(work, texts)):
            ans[t] = r
    counted = set()
    for v, g, t in tasks:
        st, be, secs, lg = ans[t]
        if t in counted:
            secs = 0
        counted.add(t)
        res.append(Result(v, st, be, secs, lg, t if st != "proved" else None, g))
    return res, prep, lemmas


def reachable(eng, prep, lemmas, reach, plan=((0, 2),), jobs=8):
    """vacuity guard: hyps must not be refutable; -> list of refuted names"""
    tasks = [(nm, prep.script(h, z3.BoolVal(False), lemmas)) for nm, h in reach]
    def work(x):
        return prove_text(x, plan)[0]
    with cf.ThreadPoolExecutor(jobs) as ex:
        st = list(ex.map(work, [t for _, t in tasks]))
    return [nm for (nm, _), x in zip(tasks, st) if x == "proved"]
