"""Symbolic executor / VC generator over clang ASTs."""
from symex import *

NOPROTO = {"va_start", "va_end"}
SKIPC = ("ParenExpr", "ConstantExpr", "FullComment", "ExprWithCleanups")


def kids(n):
    return [c for c in n.get("inner", ()) if c]


def strip(n):
    while n["kind"] in ("ParenExpr", "ConstantExpr") or (
            n["kind"] == "ImplicitCastExpr" and n.get("castKind") in ("NoOp",)):
        n = n["inner"][0]
    return n


def stripall(n):
    while n["kind"] in ("ParenExpr", "ConstantExpr", "ImplicitCastExpr", "CStyleCastExpr"):
        n = n["inner"][0]
    return n


class Engine:
    def __init__(self, units, sf, verbose=False, feas_ms=60):
        self.units = units
        self.sf = sf
        self.th = Theory(sf, units)
        self.vcs = []
        self.cnt = itertools.count()
        self.litids = {}
        self.globids = {}
        self.nobj = 0
        self.cur = None            # FnSpec being verified
        self.curname = None
        self.unspecified = []      # loops with no invariant
        self.trusted_used = set()
        self.contracts_used = set()
        self.inlined = set()
        self.npaths = 0
        self.reach = []            # (name, hyps)
        self.feas_ms = feas_ms
        self.loopidx = {}          # node id -> (fn, ordinal)
        self.labelcache = {}
        self.addrtaken = {}
        self.verbose = verbose
        self.callstack = []
        self.steps = 0
        self.fn_of = {}
        for u in units:
            for n, f in u.funcs.items():
                self.fn_of.setdefault(n, f)
        self.line = None
        self.quiet = 0
        self.feas_calls = 0

    # ---- helpers ---------------------------------------------------------
    def fresh(self, nm, t=None):
        nm = "%s!%d" % (nm, next(self.cnt))
        if t is None or t.k == "int":
            return z3.Int(nm)
        if t.k == "float":
            return z3.Const(nm, DBL)
        if t.k in ("ptr", "array"):
            return Ptr(z3.Int(nm + ".o"), z3.Int(nm + ".f"))
        raise Unsupported("fresh of %r" % t)

    def freshv(self, st, nm, t):
        """fresh value of type t with its range assumed"""
        v = self.fresh(nm, t)
        if t.k == "int":
            st.assume(inrange(v, t))
        elif t.k in ("ptr",):
            self.assume_ptr(st, v)
        return v

    def assume_ptr(self, st, v):
        st.assume(lt(v.o, st.nxt))
        st.assume(IMP(eq(v.o, iv(0)), eq(v.f, iv(0))))
        st.assume(lt(sel(st.sz, v.o), iv(1 << 48)))

    def globid(self, nm, unit=None):
        if nm not in self.globids:
            self.globids[nm] = -(len(self.globids) + len(self.litids) * 0 + 1)
        return self.globids[nm]

    def litid(self, codes):
        k = "lit:" + ",".join(map(str, codes))
        return self.globid(k)

    def funcptr(self, nm):
        return Ptr(iv(self.globid("func:" + nm)), iv(0))

    def ob(self, st, name, kind, goal, node=None, assume=True):
        if goal is True:
            return
        self.npending = 0
        if not self.quiet:
            line = (node or {}).get("_l") or self.line
            self.vcs.append(VC(self.curname, name, kind, line, list(st.pc), goal))
        if assume:
            st.assume(goal)

    def unit(self):
        return self.fstack[-1]["_unit"]

    def tyof(self, n):
        return self.unit_of(n).ty(n["type"]["qualType"])

    def unit_of(self, n):
        return self.cunit

    # feasibility of the current path (quantifier-free part), to prune
    def feasible(self, st):
        self.feas_calls += 1
        n = len(st.pc)
        last = st.pc[-1] if n else None
        if last is None or z3.is_true(last):
            return True
        if z3.is_false(last):
            return False
        s = z3.Solver()
        s.set("timeout", self.feas_ms)
        for f in st.pc:
            if not self.hasq(f):
                s.add(f)
        return s.check() != z3.unsat

    _q = {}

    def hasq(self, f):
        k = f.get_id()
        c = Engine._q.get(k)
        if c is not None and c[0].eq(f):
            return c[1]
        r = any(z3.is_quantifier(x) for x in subterms(f))
        Engine._q[k] = (f, r)
        return r

    # ---- memory ----------------------------------------------------------
    def check_access(self, st, p, size, node, what):
        nm = "%s:%s" % (self.where(), what)
        self.ob(st, nm, "memory",
                AND(NOT(eq(p.o, iv(0))), sel(st.alive, p.o), le(iv(0), p.f),
                    le(add(p.f, iv(size)), sel(st.sz, p.o))), node)

    def where(self):
        return self.fstack[-1]["name"]

    def load(self, st, p, t, node):
        if t.k == "array":
            return p
        if t.k == "struct":
            return StructVal(p, dict(st.mem), t)
        if t.k == "func":
            return p
        self.check_access(st, p, sizeofT(t), node, "read")
        v = rawload(st, p, t)
        if isinstance(v, Ptr):
            self.assume_ptr(st, v)
        elif t.k == "int":
            st.assume(inrange(v, t))
        return v

    def check_perm(self, st, p, classes, node, lo=None, hi=None):
        """every enclosing frame must allow a write to object p.o"""
        for fr in st.perm:
            alts = [le(fr.nxt, p.o)]
            if lo is not None:           # a region: no byte of the null object can ever be written
                alts.append(eq(p.o, iv(0)))
            for (o, l, h, cl) in fr.items:
                if classes is not None and cl is not None and not (classes & cl):
                    continue
                c = o(p.o) if callable(o) else eq(p.o, o)
                if l is not None:
                    a = lo if lo is not None else p.f
                    b = hi if hi is not None else add(p.f, iv(1))
                    c = AND(c, le(l, a), le(b, h))
                alts.append(c)
            self.ob(st, "%s:assigns(%s)" % (self.where(), fr.name), "frame", OR(*alts), node)

    def store(self, st, p, t, v, node):
        if t.k == "struct":
            if not isinstance(v, StructVal):
                raise Unsupported("struct store")
            self.check_access(st, p, sizeofT(t), node, "write")
            self.check_perm(st, p, None, node)
            tmp = st.copy(); tmp.mem = v.mem
            vals = [(o, lt_, rawload(tmp, Ptr(v.ptr.o, add(v.ptr.f, iv(o))), lt_)) for o, lt_ in leaves(t)]
            for o, lt_, x in vals:
                rawstore(st, Ptr(p.o, add(p.f, iv(o))), lt_, x)
            return
        self.check_access(st, p, sizeofT(t), node, "write")
        self.check_perm(st, p, leafclasses(t), node)
        if isinstance(v, Uninit):
            raise Unsupported("uninit store")
        rawstore(st, p, t, v)

    def alloc(self, st, size, nm="obj", alive=True):
        o = z3.Int("%s!%d" % (nm, next(self.cnt)))
        st.pc.append(o == st.nxt)
        o = st.nxt
        st.pc.append(z3.Not(sel(st.alive, o)))   # a new object is none of the live ones
        st.sz = sto(st.sz, o, size)
        if alive:
            st.alive = sto(st.alive, o, z3.BoolVal(True))
        nx = z3.Int("nxt!%d" % next(self.cnt))
        st.pc.append(nx == add(o, iv(1)))
        # keep nxt symbolic as o+1 so that ids stay syntactically distinct
        st.nxt = add(o, iv(1))
        return o

    # ---- names for specifications -----------------------------------------
    def spec_name(self, n, st, names):
        if names:
            m = st.names.get(n)
            if m is not None:
                d, t, u = m
                v = st.env.get(d)
                if v is None:
                    return None
                if isinstance(v, Uninit):
                    return SV(self.fresh(n, t), t)
                if isinstance(v, tuple) and v[0] == "obj":
                    p = Ptr(v[1], iv(0))
                    if t.k == "array":
                        return SV(p, ptr(t.to))
                    if t.k == "struct":
                        return SV(p, ("lv", t))
                    return SV(rawload(st, p, t), t)
                return SV(v, t)
        for u in self.units:
            if n in u.vars:
                g = u.vars[n]
                t = u.ty(g["type"]["qualType"])
                p = Ptr(iv(self.globid("var:" + n)), iv(0))
                if t.k == "array":
                    return SV(p, ptr(t.to))
                if t.k == "struct":
                    return SV(p, ("lv", t))
                return SV(rawload(st, p, t), t)
        if n == "errno":
            return SV(rawload(st, Ptr(iv(self.globid("var:errno")), iv(0)), INT), INT)
        return None

    def spec_addr(self, n, st):
        m = st.names.get(n)
        if m is not None:
            d, t, u = m
            v = st.env.get(d)
            if isinstance(v, tuple) and v[0] == "obj":
                return SV(Ptr(v[1], iv(0)), ptr(t))
            return None
        for u in self.units:
            if n in u.vars:
                t = u.ty(u.vars[n]["type"]["qualType"])
                return SV(Ptr(iv(self.globid("var:" + n)), iv(0)), ptr(t))
        if n == "errno":
            return SV(Ptr(iv(self.globid("var:errno")), iv(0)), ptr(INT))
        return None

    def specev(self, st, old=None, binds=None, result=None, entry=None, names=True, prev=None):
        se = SpecEval(self.th, st, old if old is not None else st.fnentry, binds or {},
                        self, result, names, entry)
        se.prev = prev
        return se

    def spec_bool(self, st, e, **kw):
        se = self.specev(st, **kw)
        r = se.boolv(e)
        for s in se.side:
            st.assume(s)
        return r

    def frame_items(self, st, items, **kw):
        out = []; gh = []
        for e in items:
            if e[0] == "id" and e[1] in [g[1] for g in self.sf.ghosts]:
                gh.append(e[1]); continue
            se = self.specev(st, **kw)
            if e[0] == "call" and e[1] == "range":
                p = se.ptrv(e[2][0]); lo = se.intv(e[2][1]); hi = se.intv(e[2][2])
                out.append((p.v.o, add(p.v.f, lo), add(p.v.f, hi), {"b"}))
                continue
            if e[0] == "call" and e[1] == "whole":
                p = se.ptrv(e[2][0])
                out.append((p.v.o, None, None, None))
                continue
            if e[0] == "call" and e[1] == "each":
                # the objects (by class) of a set of places: each(k, cond, ptr)
                base = st.copy()
                def f(o, e=e):
                    k = z3.FreshConst(I, "k")
                    b = dict(kw.get("binds") or {}); b[e[2][0][1]] = SV(k, "int")
                    kk = dict(kw); kk["binds"] = b
                    sx = self.specev(base, **kk)
                    c = sx.boolv(e[2][1]); pv = sx.ptrv(e[2][2]).v
                    return z3.Exists([k], z3.And(c, pv.o == o))
                k = z3.FreshConst(I, "k")
                b = dict(kw.get("binds") or {}); b[e[2][0][1]] = SV(k, "int")
                kk = dict(kw); kk["binds"] = b
                p = self.specev(base, **kk).ptrv(e[2][2])
                out.append((f, None, None, leafclasses(p.t.to)))
                continue
            p = se.ptrv(e)
            c = leafclasses(p.t.to) if isinstance(p.t, T) and p.t.k == "ptr" else None
            out.append((p.v.o, None, None, c))
        return out, gh

    def check_items(self, st, items, n):
        """the places a call or a loop may write must be permitted here"""
        for (o, lo, hi, cl) in items:
            a, b = (lo if lo is not None else iv(-(1 << 62))), (hi if hi is not None else iv(1 << 62))
            if callable(o):
                x = z3.FreshConst(I, "wo"); s2 = st.copy(); s2.pc = list(st.pc) + [o(x)]
                self.check_perm(s2, Ptr(x, iv(0)), cl, n, a, b)
            else:
                self.check_perm(st, Ptr(o, lo if lo is not None else iv(0)), cl, n, a, b)

    def havoc_frame(self, st, items, ghosts, frees):
        for (o, lo, hi, cl) in items:
            if callable(o):
                for c in (cl or CLASSES):
                    m = z3.Const("hw_%s!%d" % (c, next(self.cnt)), st.mem[c].sort()); x = z3.FreshConst(I, "o")
                    old = sel(st.mem[c], x)
                    st.assume(z3.ForAll([x], z3.Or(o(x), z3.Select(m, x) == old), patterns=[z3.Select(m, x)] + ([old] if patok(old) else [])))
                    st.mem[c] = m
                continue
            for c in (cl or CLASSES):
                fa = z3.Const("hv_%s!%d" % (c, next(self.cnt)), ADB if c == "d" else AI)
                if lo is not None:
                    old = sel(st.mem[c], o)
                    j = z3.FreshConst(I, "j")
                    st.assume(z3.ForAll([j], z3.Implies(z3.Or(j < lo, j >= hi),
                                                        z3.Select(fa, j) == z3.Select(old, j)),
                                        patterns=[z3.Select(fa, j)]))
                    if patok(old):
                        st.assume(z3.ForAll([j], z3.Implies(z3.Or(j < lo, j >= hi),
                                                        z3.Select(fa, j) == z3.Select(old, j)),
                                        patterns=[z3.Select(old, j)]))
                st.mem[c] = sto(st.mem[c], o, fa)
        for g in ghosts:
            st.ghost[g] = z3.Const("g_%s!%d" % (g, next(self.cnt)), st.ghost[g].sort())
        for o in frees:
            if callable(o):
                al = z3.Const("alivea!%d" % next(self.cnt), st.alive.sort()); x = z3.FreshConst(I, "o")
                st.assume(z3.ForAll([x], z3.Or(o(x), z3.Select(al, x) == sel(st.alive, x)), patterns=[z3.Select(al, x)]))
                st.alive = al
                continue
            b = z3.Bool("alive!%d" % next(self.cnt))
            st.alive = sto(st.alive, o, b)

    def frees_of(self, st, exprs, **kw):
        """objects a contract may free: terms, or predicates for each(k, cond, ptr)"""
        out = []
        base = st.copy()
        for e in exprs:
            if e[0] == "call" and e[1] == "each":
                def f(o, e=e):
                    k = z3.FreshConst(I, "k")
                    b = dict(kw.get("binds") or {}); b[e[2][0][1]] = SV(k, "int")
                    kk = dict(kw); kk["binds"] = b
                    se = self.specev(base, **kk)
                    c = se.boolv(e[2][1]); pv = se.ptrv(e[2][2]).v
                    return z3.Exists([k], z3.And(c, pv.o == o))
                out.append(f)
            else:
                out.append(self.specev(st, **kw).ptrv(e).v.o)
        return out

    @staticmethod
    def mayfree(fr, o):
        return [x(o) if callable(x) else eq(o, x) for x in fr.frees]

    # ---- expressions --------------------------------------------------------
    # eval returns list of (value, state)
    def ev(self, n, st):
        self.steps += 1
        k = n["kind"]
        f = getattr(self, "x_" + k, None)
        if f is None:
            raise Unsupported("expression %s at %s" % (k, n.get("_l")))
        return f(n, st)

    def ev1(self, n, st):
        r = self.ev(n, st)
        if len(r) != 1:
            raise Unsupported("branching expression")
        return r[0]

    def evlist(self, ns, st):
        out = [([], st)]
        for n in ns:
            nxt = []
            for vs, s in out:
                for v, s2 in self.ev(n, s):
                    nxt.append((vs + [v], s2))
            out = nxt
        return out

    def x_ParenExpr(self, n, st):
        return self.ev(n["inner"][0], st)

    def x_ConstantExpr(self, n, st):
        return self.ev(n["inner"][0], st)

    def x_IntegerLiteral(self, n, st):
        return [(iv(int(n["value"])), st)]

    def x_CharacterLiteral(self, n, st):
        return [(iv(int(n["value"])), st)]

    def x_FloatingLiteral(self, n, st):
        try:
            f = float(n["value"])
        except ValueError:
            f = 0.5
        if f == int(f) and abs(f) < (1 << 31):
            return [(I2D(iv(int(f))), st)]
        return [(dblconst(str(n["value"])), st)]

    def strlit_codes(self, n):
        v = n["value"]
        m = re.match(r'^(?:L|u8|u|U)?"(.*)"$', v, re.S)
        s = m.group(1)
        out = []; i = 0
        b = s.encode("utf-8")
        while i < len(b):
            c = b[i]
            if c == 92:
                d = chr(b[i + 1])
                if d == "x":
                    m = re.match(rb"[0-9a-fA-F]+", b[i + 2:]); out.append(int(m.group(0), 16)); i += 2 + len(m.group(0)); continue
                if d in "01234567":
                    m = re.match(rb"[0-7]{1,3}", b[i + 1:]); out.append(int(m.group(0), 8)); i += 1 + len(m.group(0)); continue
                out.append({"n": 10, "t": 9, "r": 13, "\\": 92, '"': 34, "'": 39, "a": 7, "b": 8, "v": 11, "f": 12, "?": 63, "e": 27}[d])
                i += 2; continue
            out.append(c); i += 1
        return [c - 256 if c > 127 else c for c in out]

    def x_StringLiteral(self, n, st):
        codes = self.strlit_codes(n)
        o = iv(self.litid(codes))
        self.assume_lit(st, o, codes)
        return [(Ptr(o, iv(0)), st)]

    def assume_lit(self, st, o, codes):
        st.assume(eq(sel(st.sz, o), iv(len(codes) + 1)))
        st.assume(sel(st.alive, o))
        a = sel(st.mem["b"], o)
        for i, c in enumerate(codes + [0]):
            st.assume(eq(sel(a, iv(i)), iv(c)))
        if 0 not in codes:
            st.assume(SLEN(a, iv(0)) == len(codes))

    def x_PredefinedExpr(self, n, st):
        return self.ev(n["inner"][0], st)

    def x_DeclRefExpr(self, n, st):
        return [(self.lv_decl(n, st), st)]

    def lv_decl(self, n, st):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            u = self.cunit
            return iv(u.enums[d["id"]])
        if d["kind"] == "FunctionDecl":
            return self.funcptr(d["name"])
        return ("lv", n)

    def lval(self, n, st):
        """list of (('var', id, type) | ('mem', Ptr, type), state)"""
        k = n["kind"]
        if k in ("ParenExpr", "ConstantExpr"):
            return self.lval(n["inner"][0], st)
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            t = self.tyof(n)
            if d["kind"] == "FunctionDecl":
                return [(("mem", self.funcptr(d["name"]), FUNC), st)]
            if d["kind"] == "EnumConstantDecl":
                raise Unsupported("enum lval")
            v = st.env.get(d["id"])
            if v is None:
                return [(("mem", Ptr(iv(self.globid("var:" + d["name"])), iv(0)), t, self.touch_global(st, d["name"], t)), st)]
            if isinstance(v, tuple) and v[0] == "obj":
                return [(("mem", Ptr(v[1], iv(0)), t), st)]
            return [(("var", d["id"], t), st)]
        if k == "UnaryOperator" and n["opcode"] == "*":
            t = self.tyof(n)
            return [(("mem", self.asptr(v, n), t), s) for v, s in self.ev(n["inner"][0], st)]
        if k == "UnaryOperator" and n["opcode"] in ("__extension__",):
            return self.lval(n["inner"][0], st)
        if k == "ArraySubscriptExpr":
            t = self.tyof(n)
            out = []
            for (a, i), s in self.evlist(n["inner"], st):
                if not isinstance(a, Ptr):
                    a, i = i, a
                off = add(a.f, mul(toint(i), iv(sizeofT(t))))
                out.append((("mem", Ptr(a.o, off), t), s))
            return out
        if k == "MemberExpr":
            b = n["inner"][0]
            fld = n["name"]
            t = self.tyof(n)
            if n.get("isArrow"):
                bt = self.tyof(b).to
                bl = self.ev(b, st)
            else:
                bt = self.tyof(b)
                bl = []
                if b.get("valueCategory") == "lvalue":
                    for l, s in self.lval(b, st):
                        if l[0] != "mem":
                            raise Unsupported("member of register struct")
                        bl.append((l[1], s))
                else:
                    for v, s in self.ev(b, st):
                        bl.append((v.ptr, s))
            lay = bt.n.layout(bt.name)[2]
            key = fld if fld else "#" + n["referencedMemberDecl"]
            if key not in lay:
                key = "#" + n["referencedMemberDecl"]
            o, ft = lay[key]
            return [(("mem", Ptr(p.o, add(p.f, iv(o))), ft), s) for p, s in bl]
        if k == "StringLiteral":
            return [(("mem", v, self.tyof(n)), s) for v, s in self.x_StringLiteral(n, st)]
        if k == "CompoundLiteralExpr":
            t = self.tyof(n)
            o = self.alloc(st, iv(sizeofT(t)), "complit")
            self.init_obj(st, Ptr(o, iv(0)), t, n["inner"][0])
            return [(("mem", Ptr(o, iv(0)), t), st)]
        if k == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "LValueBitCast"):
            return self.lval(n["inner"][0], st)
        if k == "PredefinedExpr":
            return self.lval(n["inner"][0], st)
        if k == "CallExpr" or k == "StmtExpr" or k == "ConditionalOperator":
            r = []
            for v, s in self.ev(n, st):
                if isinstance(v, StructVal):
                    r.append((("mem", v.ptr, v.ty), s))
                else:
                    raise Unsupported("lval of " + k)
            return r
        raise Unsupported("lvalue %s" % k)

    def touch_global(self, st, nm, t):
        o = iv(self.globid("var:" + nm))
        try:
            s = sizeofT(t)
        except FrontError:
            s = None
        if s:
            st.assume(eq(sel(st.sz, o), iv(s)))
            st.assume(sel(st.alive, o))
        if nm in self.const_globals and st.feas is not None:
            key = ("cg", nm)
            self.init_const_global(st, nm, t, o)
        return True

    const_globals = ()

    def init_const_global(self, st, nm, t, o):
        for u in self.units:
            if nm in u.vars and kids(u.vars[nm]):
                tmp = st
                self.init_ro(st, Ptr(o, iv(0)), t, kids(u.vars[nm])[0])
                return

    def init_ro(self, st, p, t, n):
        """assume the contents of a constant table"""
        n = strip(n)
        if t.k == "array" and n["kind"] == "InitListExpr":
            s = sizeofT(t.to)
            for i, c in enumerate(kids(n)):
                self.init_ro(st, Ptr(p.o, add(p.f, iv(i * s))), t.to, c)
        elif t.k == "array" and n["kind"] == "StringLiteral":
            for i, c in enumerate((self.strlit_codes(n) + [0])[:t.n]):
                st.assume(eq(sel(sel(st.mem["b"], p.o), iv(i)), iv(c)))
        elif t.k == "struct" and n["kind"] == "InitListExpr":
            fl = [v for k, v in t.n.layout(t.name)[2].items() if k.startswith("#")]
            for (o, ft), c in zip(fl, kids(n)):
                self.init_ro(st, Ptr(p.o, add(p.f, iv(o))), ft, c)
        else:
            (v, _) = self.ev1(n, st)
            x = rawload(st, p, t)
            if isinstance(x, Ptr):
                st.assume(eq(x.o, v.o)); st.assume(eq(x.f, v.f))
            else:
                st.assume(eq(x, toint(v)))

    def asptr(self, v, n):
        if isinstance(v, Ptr):
            return v
        if not isinstance(v, (tuple, StructVal, Uninit)) and isnum(v) and num(v) == 0:
            return NULL
        raise Unsupported("not a pointer at %s" % (n.get("_l"),))

    def rd(self, l, st, n):
        """read an lvalue"""
        if l[0] == "var":
            v = st.env[l[1]]
            if isinstance(v, Uninit):
                nm = st.names
                self.ob(st, "%s:uninitialised-read" % self.where(), "uninit", z3.BoolVal(False), n, assume=False)
                v = self.freshv(st, "uninit", l[2])
                st.env[l[1]] = v
            return v
        return self.load(st, l[1], l[2], n)

    def wr(self, l, v, st, n):
        if l[0] == "var":
            st.env[l[1]] = v
        else:
            self.store(st, l[1], l[2], v, n)

    def x_ImplicitCastExpr(self, n, st):
        ck = n["castKind"]
        c = n["inner"][0]
        if ck == "LValueToRValue":
            return [(self.rd(l, s, n), s) for l, s in self.lval(c, st)]
        if ck == "ArrayToPointerDecay":
            out = []
            for l, s in self.lval(c, st):
                if l[0] != "mem" and "va_list" in c["type"]["qualType"]:
                    out.append((Ptr(iv(0), iv(0)), s)); continue      # the variable arguments: opaque
                if l[0] != "mem":
                    raise Unsupported("decay")
                out.append((l[1], s))
            return out
        if ck == "FunctionToPointerDecay" or ck == "BuiltinFnToFnPtr":
            c2 = strip(c)
            if c2["kind"] == "DeclRefExpr" and c2["referencedDecl"]["kind"] == "FunctionDecl":
                return [(self.funcptr(c2["referencedDecl"]["name"]), st)]
            return self.ev(c, st)
        t = self.tyof(n); src = self.tyof(c)
        if ck == "NullToPointer":
            return [(NULL, s) for _, s in self.ev(c, st)]
        if ck == "NoOp" and n.get("valueCategory") == "lvalue":
            raise Unsupported("lvalue noop")
        return [(self.cast(v, src, t, ck, s, n), s) for v, s in self.ev(c, st)]

    x_CStyleCastExpr = x_ImplicitCastExpr

    def cast(self, v, src, t, ck, st, n):
        if ck in ("NoOp",):
            return v
        if ck == "BitCast":
            return v
        if ck == "ToVoid":
            return None
        if ck == "IntegralCast":
            if z3.is_bool(v):
                return v
            return wrapto(toint(v), t, src)
        if ck == "IntegralToBoolean":
            return tobool(v)
        if ck == "PointerToBoolean":
            return tobool(v)
        if ck == "IntegralToPointer":
            v = toint(v)
            if isnum(v) and num(v) == 0:
                return NULL
            if isnum(v):
                return Ptr(iv(self.globid("ptr:%d" % num(v))), iv(0))
            # some pointer that permits no access
            return Ptr(z3.If(v == 0, iv(0), iv(self.globid("ptr:int"))), v)
        if ck == "PointerToIntegral":
            return wrapto(ITE(eq(v.o, iv(0)), iv(0), ADDR(v.o, v.f)), t)
        if ck == "IntegralToFloating":
            return I2D(toint(v))
        if ck == "FloatingToIntegral":
            r = D2I(v)
            st.assume(inrange(r, t))
            return r
        if ck == "FloatingCast":
            return v
        if ck == "FloatingToBoolean":
            return tobool(v)
        raise Unsupported("cast " + ck)

    def x_UnaryExprOrTypeTraitExpr(self, n, st):
        if n["name"] != "sizeof":
            raise Unsupported(n["name"])
        if "argType" in n:
            t = self.cunit.ty(n["argType"]["qualType"])
        else:
            t = self.tyof(n["inner"][0])
        return [(iv(sizeofT(t)), st)]

    def x_OffsetOfExpr(self, n, st):
        raise Unsupported("offsetof")

    def x_StmtExpr(self, n, st):
        body = n["inner"][0]
        cs = kids(body)
        out = []
        sts = [st]
        saved = st.names
        for i, c in enumerate(cs):
            nx = []
            for s in sts:
                if i == len(cs) - 1 and c["kind"].endswith(("Expr", "Operator")):
                    for v, s2 in self.ev(c, s):
                        s2.names = saved
                        out.append((v, s2))
                else:
                    for k, s2, p in self.exec(c, s):
                        if k != "next":
                            raise Unsupported("jump out of statement expression")
                        nx.append(s2)
            if not out:
                sts = nx
        if not out:
            for s in sts:
                s.names = saved
                out.append((None, s))
        return out

    def x_UnaryOperator(self, n, st):
        op = n["opcode"]; c = n["inner"][0]
        if op == "__extension__":
            return self.ev(c, st)
        if op == "*":
            raise Unsupported("deref rvalue")
        if op == "&":
            out = []
            for l, s in self.lval(c, st):
                if l[0] != "mem":
                    raise Unsupported("address of register variable")
                out.append((l[1], s))
            return out
        t = self.tyof(n)
        if op in ("++", "--"):
            out = []
            for l, s in self.lval(c, st):
                v = self.rd(l, s, n)
                ct = self.tyof(c)
                if isinstance(v, Ptr):
                    d = sizeofT(ct.to)
                    nv = Ptr(v.o, add(v.f, iv(d if op == "++" else -d)))
                else:
                    r = add(toint(v), iv(1 if op == "++" else -1))
                    nv = self.arith(r, ct, s, n, small=True)
                self.wr(l, nv, s, n)
                out.append((v if n.get("isPostfix") else nv, s))
            return out
        out = []
        for v, s in self.ev(c, st):
            if op == "!":
                out.append((NOT(tobool(v)), s))
            elif op == "-":
                if not isinstance(v, Ptr) and not z3.is_bool(v) and v.sort() == DBL:
                    out.append((fop("neg", v), s))
                else:
                    out.append((self.arith(sub(iv(0), toint(v)), t, s, n), s))
            elif op == "+":
                out.append((v, s))
            elif op == "~":
                r = sub(iv(-1), toint(v))
                out.append((wrapto(r, t), s))
            else:
                raise Unsupported("unary " + op)
        return out

    def arith(self, r, t, st, n, small=False):
        """result of integer arithmetic at type t: overflow is an obligation
        for signed types, modular for unsigned"""
        if t.k != "int":
            raise Unsupported("arith type %r" % t)
        lo, hi = irange(t)
        if isnum(r):
            if lo <= num(r) <= hi:
                return r
        if t.signed:
            if t.size < 4:
                return wrapto(r, t)
            self.ob(st, "%s:signed-overflow" % self.where(), "overflow", inrange(r, t), n)
            return r
        m = hi + 1
        if isnum(r):
            return iv(num(r) % m)
        if small:
            return z3.If(r < 0, r + m, z3.If(r > hi, r - m, r))
        return z3.If(z3.And(r >= 0, r <= hi), r, r % m)

    def binop(self, op, a, b, ta, tb, tr, st, n):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrop(op, a, b, ta, tb, st, n)
        if (not z3.is_bool(a) and a.sort() == DBL) or (not z3.is_bool(b) and b.sort() == DBL):
            if op in ("+", "-", "*", "/"):
                return fop(op, a, b)
            return fcmp(op, a, b)
        if op in ("==", "!=") and z3.is_bool(a) and z3.is_bool(b):
            return a == b if op == "==" else a != b
        if op in ("&", "|", "^") and z3.is_bool(a) and z3.is_bool(b):
            return toint(AND(a, b)) if op == "&" else toint(OR(a, b)) if op == "|" else toint(a != b)
        a = toint(a); b = toint(b)
        if op == "==":
            return eq(a, b)
        if op == "!=":
            return NOT(eq(a, b))
        if op == "<":
            return lt(a, b)
        if op == "<=":
            return le(a, b)
        if op == ">":
            return lt(b, a)
        if op == ">=":
            return le(b, a)
        if op == "+":
            return self.arith(add(a, b), tr, st, n, True)
        if op == "-":
            return self.arith(sub(a, b), tr, st, n, True)
        if op == "*":
            return self.arith(mul(a, b), tr, st, n)
        if op in ("/", "%"):
            self.ob(st, "%s:division-by-zero" % self.where(), "div", NOT(eq(b, iv(0))), n)
            if isnum(a) and isnum(b):
                q = abs(num(a)) // abs(num(b))
                if (num(a) < 0) != (num(b) < 0):
                    q = -q
                return iv(q) if op == "/" else iv(num(a) - q * num(b))
            if tr.signed:
                self.ob(st, "%s:signed-overflow" % self.where(), "overflow",
                        NOT(AND(eq(a, iv(irange(tr)[0])), eq(b, iv(-1)))), n)
                if isnum(b) and num(b) > 0:
                    q = z3.If(a >= 0, a / b, -((-a) / b))
                else:
                    aa = z3.If(a >= 0, a, -a); bb = z3.If(b >= 0, b, -b)
                    q0 = aa / bb
                    q = z3.If((a >= 0) == (b >= 0), q0, -q0)
                return q if op == "/" else a - q * b
            return a / b if op == "/" else a % b
        if op == "<<":
            if isnum(b):
                return self.arith(mul(a, iv(1 << num(b))), tr, st, n) if not tr.signed else wrapto(mul(a, iv(1 << num(b))), tr)
            self.ob(st, "%s:shift-range" % self.where(), "overflow", AND(le(iv(0), b), lt(b, iv(8 * tr.size))), n)
            if isnum(a):
                r = iv(0)
                for i in range(8 * tr.size - 1, -1, -1):
                    r = z3.If(b == i, wrapto(iv(num(a) << i), tr), r)
                return r
            return wrapto(a * POW2(b), tr)
        if op == ">>":
            if isnum(b):
                return iv(num(a) >> num(b)) if isnum(a) else a / iv(1 << num(b))
            self.ob(st, "%s:shift-range" % self.where(), "overflow", AND(le(iv(0), b), lt(b, iv(8 * tr.size))), n)
            r = a
            for i in range(1, 8 * tr.size):
                r = z3.If(b == i, a / iv(1 << i), r)
            return r
        if op == "&":
            return self.bitres(band(a, b), tr)
        if op == "|":
            return self.bitres(sub(add(a, b), band(a, b)), tr)
        if op == "^":
            return self.bitres(sub(add(a, b), mul(band(a, b), iv(2))), tr)
        raise Unsupported("binary " + op)

    def bitres(self, r, t):
        if isnum(r):
            return wrapto(r, t)
        return r

    def ptrop(self, op, a, b, ta, tb, st, n):
        if op in ("+", "-") and not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            if not isinstance(a, Ptr):
                a, b, ta = b, a, tb
            s = sizeofT(ta.to)
            d = mul(toint(b), iv(s))
            return Ptr(a.o, add(a.f, d) if op == "+" else sub(a.f, d))
        a = self.asptr(a, n); b = self.asptr(b, n)
        if op == "-":
            self.ob(st, "%s:pointer-difference" % self.where(), "ptr", eq(a.o, b.o), n)
            s = sizeofT(ta.to); d = sub(a.f, b.f)
            return d if s == 1 else d / iv(s)
        if op in ("==", "!="):
            if b is NULL or (isnum(b.o) and num(b.o) == 0):
                r = eq(a.o, iv(0))
            elif a is NULL:
                r = eq(b.o, iv(0))
            else:
                r = AND(eq(a.o, b.o), eq(a.f, b.f))
            return r if op == "==" else NOT(r)
        # NULL compares below every object address (flat address space)
        an, bn = eq(a.o, iv(0)), eq(b.o, iv(0))
        self.ob(st, "%s:pointer-comparison" % self.where(), "ptr", OR(eq(a.o, b.o), an, bn), n)
        if op in (">", ">="):
            a, b, an, bn = b, a, bn, an
        if op in ("<", ">"):
            return ITE(eq(a.o, b.o), lt(a.f, b.f), an)
        return ITE(eq(a.o, b.o), le(a.f, b.f), an)

    def x_BinaryOperator(self, n, st):
        op = n["opcode"]; a, b = n["inner"]
        if op == ",":
            out = []
            for _, s in self.ev(a, st):
                out += self.ev(b, s)
            return out
        if op == "=":
            out = []
            lt_ = self.tyof(a)
            for v, s in self.ev(b, st):
                for l, s2 in self.lval(a, s):
                    if lt_.k == "int" and not isinstance(v, (Ptr, StructVal)):
                        v = toint(v)
                    self.wr(l, v, s2, n)
                    out.append((v, s2))
            return out
        if op in ("&&", "||"):
            out = []
            for va, s in self.ev(a, st):
                ca = tobool(va)
                if z3.is_true(ca) or z3.is_false(ca):
                    if z3.is_true(ca) == (op == "&&"):
                        for vb, s2 in self.ev(b, s):
                            out.append((tobool(vb), s2))
                    else:
                        out.append((ca, s))
                    continue
                if self.pure(b):
                    g = ca if op == "&&" else NOT(ca)
                    vb = self.guarded(b, s, g)
                    cb = tobool(vb)
                    out.append((AND(ca, cb) if op == "&&" else OR(ca, cb), s))
                    continue
                s1 = s.copy(); s1.assume(ca)
                s0 = s; s0.assume(NOT(ca))
                rhs, short = (s1, s0) if op == "&&" else (s0, s1)
                if self.feasible(short):
                    out.append((z3.BoolVal(op == "||"), short))
                if self.feasible(rhs):
                    for vb, s2 in self.ev(b, rhs):
                        out.append((tobool(vb), s2))
            return out
        out = []
        ta = self.tyof(a); tb = self.tyof(b); tr = self.tyof(n)
        for (va, vb), s in self.evlist([a, b], st):
            out.append((self.binop(op, va, vb, ta, tb, tr, s, n), s))
        return out

    def guarded(self, e, s, g):
        """evaluate a pure expression under guard g, without splitting"""
        s2 = s.copy()
        k = len(s2.pc)
        s2.pc.append(g)
        v, s3 = self.ev1(e, s2)
        for f in s3.pc[k + 1:]:
            s.pc.append(IMP(g, f))
        for i, x in s3.env.items():      # facts known under the guard only must not leak into the variables
            if i not in s.env:
                s.env[i] = x
        return v

    def pure(self, n):
        c = self.__dict__.setdefault("_pure", {})
        i = n["id"] if "id" in n else id(n)
        if i not in c:
            c[i] = self.pure0(n)
        return c[i]

    def pure0(self, n):
        k = n["kind"]
        if k == "BinaryOperator" and n["opcode"] == "=":
            return False
        if k == "CompoundAssignOperator" or k == "StmtExpr":
            return False
        if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            return False
        if k == "CallExpr":
            nm = self.callee(n)
            if nm is None or nm in BUILTINS:
                return nm in ("__builtin_expect",)
            fs = self.sf.fns.get(nm)
            if fs is None or fs.inline or fs.assigns or fs.frees or fs.gassign or fs.noreturn:
                return False
            if fs.options.get("split") or any(a == nm for a, _ in (self.cur.callhints if self.cur else ())):
                return False
        return all(self.pure(c) for c in kids(n))

    def x_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]; a, b = n["inner"]
        ta = self.tyof(a); tb = self.tyof(b)
        ct = self.cunit.ty(n["computeResultType"]["qualType"])
        out = []
        for vb, s in self.ev(b, st):
            for l, s2 in self.lval(a, s):
                va = self.rd(l, s2, n)
                if isinstance(va, Ptr):
                    r = self.ptrop(op, va, vb, ta, tb, s2, n)
                else:
                    x = va
                    if ta.k == "int" and ct.k == "int":
                        x = wrapto(toint(va), ct, ta)
                    elif ta.k == "int" and ct.k == "float":
                        x = I2D(toint(va))
                    r = self.binop(op, x, vb, ct, tb, ct, s2, n)
                    if ta.k == "int" and ct.k == "int":
                        r = wrapto(toint(r), ta, ct)
                    elif ta.k == "int":
                        r = D2I(r); s2.assume(inrange(r, ta))
                self.wr(l, r, s2, n)
                out.append((r, s2))
        return out

    def x_ConditionalOperator(self, n, st):
        c, a, b = n["inner"]
        out = []
        for vc, s in self.ev(c, st):
            cc = tobool(vc)
            if z3.is_true(cc):
                out += self.ev(a, s); continue
            if z3.is_false(cc):
                out += self.ev(b, s); continue
            if self.pure(a) and self.pure(b):
                t = self.tyof(n)
                x = self.guarded(a, s, cc)
                y = self.guarded(b, s, NOT(cc))
                if isinstance(x, Ptr) or isinstance(y, Ptr):
                    x = self.asptr(x, n); y = self.asptr(y, n)
                    out.append((Ptr(ITE(cc, x.o, y.o), ITE(cc, x.f, y.f)), s)); continue
                if x is None or y is None or isinstance(x, StructVal):
                    out.append((None, s)); continue
                if z3.is_bool(x) and z3.is_bool(y):
                    out.append((ITE(cc, x, y), s)); continue
                if not z3.is_bool(x) and x.sort() == DBL:
                    out.append((ITE(cc, x, y), s)); continue
                out.append((ITE(cc, toint(x), toint(y)), s)); continue
            s1 = s.copy(); s1.assume(cc)
            s.assume(NOT(cc))
            if self.feasible(s1):
                out += self.ev(a, s1)
            if self.feasible(s):
                out += self.ev(b, s)
        return out

    def x_BinaryConditionalOperator(self, n, st):
        raise Unsupported("?:")

    def x_InitListExpr(self, n, st):
        c = kids(n)
        if len(c) == 1 and self.tyof(n).k in ("int", "ptr"):
            return self.ev(c[0], st)
        raise Unsupported("init list")

    def x_ImplicitValueInitExpr(self, n, st):
        t = self.tyof(n)
        return [(NULL if t.k == "ptr" else iv(0), st)]

    def x_MemberExpr(self, n, st):
        raise Unsupported("member rvalue")

    def x_ArraySubscriptExpr(self, n, st):
        raise Unsupported("subscript rvalue")

    def x_VAArgExpr(self, n, st):
        raise Unsupported("va_arg")

    def x_CompoundLiteralExpr(self, n, st):
        r = []
        for l, s in self.lval(n, st):
            r.append((StructVal(l[1], dict(s.mem), l[2]), s))
        return r

    # ---- calls -------------------------------------------------------------
    def callee(self, n):
        f = stripall(n["inner"][0])
        if f["kind"] == "DeclRefExpr" and f["referencedDecl"]["kind"] == "FunctionDecl":
            return f["referencedDecl"]["name"]
        return None

    def x_CallExpr(self, n, st):
        if self.callee(n) in ("__builtin_va_start", "__builtin_va_end"):
            return [(None, st)]
        nm = self.callee(n)
        args = n["inner"][1:]
        self.line = n.get("_l")
        if nm is None:
            # through a function pointer: contract of its field/variable name
            f = n["inner"][0]
            g = stripall(f)
            while g["kind"] == "UnaryOperator" and g["opcode"] in ("*", "&"):
                g = stripall(g["inner"][0])
            key = None
            if g["kind"] == "MemberExpr":
                key = "fp_" + g["name"]
            elif g["kind"] == "DeclRefExpr":
                key = "fp_" + g["referencedDecl"]["name"]
            if key not in self.sf.fns:
                raise Unsupported("indirect call %s" % key)
            out = []
            for fv, s in self.ev(f, st):
                if isinstance(fv, Ptr):
                    self.ob(s, "%s:null-function" % self.where(), "memory", NOT(eq(fv.o, iv(0))), n)
                for vs, s2 in self.evlist(args, s):
                    out += self.call_contract(self.sf.fns[key], key, vs, args, s2, n,
                                              extra={"fnptr": SV(fv, ptr(FUNC))})
            return out
        if nm in BUILTINS and not (nm in self.sf.fns and not self.sf.fns[nm].options.get("builtin")):
            out = []
            for vs, s in self.evlist(args, st):
                for cn, e in (self.cur.callhints if self.cur else ()):
                    if cn == nm and len(self.fstack) == 1:
                        self.ob(s, "%s:hint before %s" % (self.where(), nm), "hint", self.spec_bool(s, e), n)
                out += getattr(self, "b_" + nm)(vs, args, s, n)
            return out
        fs = self.sf.fns.get(nm)
        out = []
        for vs, s in self.evlist(args, st):
            if fs is not None and not fs.inline:
                out += self.call_contract(fs, nm, vs, args, s, n)
            else:
                out += self.call_inline(nm, vs, args, s, n, fs)
        return out

    def proto(self, nm):
        for u in self.units:
            if nm in u.funcs:
                return u.funcs[nm], u
        for u in self.units:
            if nm in u.protos:
                return u.protos[nm], u
        return None, None

    def call_contract(self, fs, nm, vs, args, st, n, extra=None):
        if fs.trusted:
            self.trusted_used.add(nm)
        else:
            self.contracts_used.add(nm)
        rt = self.tyof(n)
        binds = dict(extra or {})
        if fs.params is not None:
            se = SpecEval(self.th, st, None, {}, self)
            for i, (t, p) in enumerate(fs.params):
                ct = se.cty(t) if t not in ("obj", "...", "bytes") else INT
                v = vs[i]
                if ct.k == "ptr" and not isinstance(v, Ptr):
                    v = self.asptr(v, n)
                binds[p] = SV(v, ct)
        else:
            pf, pu = self.proto(nm)
            if pf is None:
                raise Unbound("no prototype for %s" % nm)
            ps = [c for c in kids(pf) if c["kind"] == "ParmVarDecl"]
            for i, p in enumerate(ps):
                if i < len(vs):
                    t = pu.ty(p["type"]["qualType"])
                    if t.k == "array":
                        t = ptr(t.to)
                    v = vs[i]
                    if isinstance(v, StructVal):
                        o = self.alloc(st, iv(sizeofT(t)), "sarg")
                        for off, lt_ in leaves(t):
                            tmp = st.copy(); tmp.mem = v.mem
                            rawstore(st, Ptr(o, iv(off)), lt_, rawload(tmp, Ptr(v.ptr.o, add(v.ptr.f, iv(off))), lt_))
                        binds[p.get("name", "arg%d" % i)] = SV(Ptr(o, iv(0)), ("lv", t))
                        continue
                    if t.k == "ptr" and not isinstance(v, Ptr):
                        v = self.asptr(v, n)
                    if isinstance(v, Uninit):
                        raise Unsupported("uninit argument")
                    binds[p.get("name", "arg%d" % i)] = SV(v if isinstance(v, Ptr) or (not z3.is_bool(v) and v.sort() == DBL) else toint(v), t)
        # ghost parameters: supplied by the `with' option of the caller or fresh
        for t, g in fs.ghost:
            w = (self.cur.options.get("with_" + nm + "_" + g) if self.cur else None)
            if w:
                se = self.specev(st, binds=binds)
                binds[g] = se.ev(SP.parse_expr(w))
            elif t == "bytes":
                binds[g] = SV(z3.FreshConst(AI, g), "bytes")
            else:
                binds[g] = SV(z3.FreshConst(I, g), "int")
        for cn, e in (self.cur.callhints if self.cur else ()):
            if cn == nm and len(self.fstack) == 1:
                self.ob(st, "%s:hint before %s" % (self.where(), nm), "hint", self.spec_bool(st, e, binds=binds), n)
        pre = st.copy()
        for txt, e in fs.requires:
            g = self.spec_bool(st, e, old=pre, binds=binds, names=False)
            self.ob(st, "%s:precondition of %s: %s" % (self.where(), nm, txt), "pre", g, n)
        if fs.decreases is not None and (nm == self.curname or ("rec" in fs.options and self.cur and "rec" in self.cur.options and self.cur.decreases is not None)):
            d = self.specev(st, binds=binds, names=False).intv(fs.decreases)
            d0 = self.specev(st.fnentry).intv(self.cur.decreases)
            self.ob(st, "%s:recursion decreases" % self.where(), "variant", AND(le(iv(0), d), lt(d, d0)), n)
        pre = st.copy()
        items, gh = self.frame_items(st, fs.assigns, old=pre, binds=binds, names=False)
        se = self.specev(st, old=pre, binds=binds, names=False)
        frees = self.frees_of(st, fs.frees, old=pre, binds=binds, names=False)
        self.check_items(st, items, n)
        for fr in st.perm:
            for g in gh:
                if g not in fr.ghosts:
                    self.ob(st, "%s:assigns(%s) ghost %s" % (self.where(), fr.name, g), "frame", z3.BoolVal(False), n)
        for o in frees:
            self.check_free(st, o, n)
        self.havoc_frame(st, items, gh, frees)
        nn = z3.Int("nxt!%d" % next(self.cnt))
        if not fs.options.get("noalloc") and (fs.assigns or fs.frees or rt.k == "ptr" or fs.options.get("alloc")):
            st.assume(nn >= st.nxt)
            st.nxt = nn
        res = None; rsv = None
        if rt.k == "struct":
            o = self.alloc(st, iv(sizeofT(rt)), "sret")
            res = StructVal(Ptr(o, iv(0)), None, rt); rsv = SV(Ptr(o, iv(0)), ("lv", rt))
        elif rt.k != "void":
            res = self.freshv(st, "r_" + nm, rt)
            rsv = SV(res, rt)
        for g, e in fs.gassign:
            se = self.specev(st, old=pre, binds=binds, result=rsv, names=False)
            v = se.ev(e)
            for fr in st.perm:
                if g not in fr.ghosts:
                    self.ob(st, "%s:assigns(%s) ghost %s" % (self.where(), fr.name, g), "frame", z3.BoolVal(False), n)
            st.ghost[g] = v.v if v.t == "bytes" else toint(v.v)
        if isinstance(res, Ptr) and any("\\fresh(\\result)" in txt for txt, e in fs.ensures):
            # the result may be an object created by the callee: then it is none of those alive
            # before the call (live objects always have smaller numbers)
            b = z3.Bool("alive!%d" % next(self.cnt)); isnew = z3.And(res.o != 0, res.o >= pre.nxt)
            st.assume(z3.If(isnew, z3.Not(sel(pre.alive, res.o)), b == sel(st.alive, res.o)))
            st.alive = sto(st.alive, res.o, b)
        for txt, e in fs.ensures:
            g = self.spec_bool(st, e, old=pre, binds=binds, result=rsv, names=False)
            st.assume(g)
        if isinstance(res, StructVal):
            res.mem = dict(st.mem)
        if fs.noreturn:
            return []
        return [(res, st)]

    def check_free(self, st, o, n):
        if callable(o):     # every object of the set must be permitted
            x = z3.FreshConst(I, "fo")
            st2 = st.copy(); st2.assume(o(x))
            for fr in st.perm:
                self.ob(st2, "%s:frees(%s)" % (self.where(), fr.name), "frame",
                        OR(le(fr.nxt, x), *self.mayfree(fr, x)), n)
            return
        for fr in st.perm:
            self.ob(st, "%s:frees(%s)" % (self.where(), fr.name), "frame",
                    OR(le(fr.nxt, o), eq(o, iv(0)), *self.mayfree(fr, o)), n)

    def call_inline(self, nm, vs, args, st, n, fs):
        f = self.cunit.funcs.get(nm) or self.fn_of.get(nm)
        if f is None:
            raise Unsupported("no contract and no body for %s" % nm)
        if any(x["name"] == nm for x in self.fstack) or len(self.fstack) > 15:
            raise Unsupported("recursive inlining of %s" % nm)
        self.inlined.add(nm)
        ps = [c for c in kids(f) if c["kind"] == "ParmVarDecl"]
        if len(vs) != len(ps):
            raise Unsupported("variadic inlining of %s" % nm)
        saved_names = st.names; saved_unit = self.cunit
        self.fstack.append(f); self.cunit = f["_unit"]
        self.prepare(f)
        self.bind_params(f, ps, vs, st, keep=False)
        marks = st.callmarks
        st.callmarks = {}
        out = []
        rt = saved_unit.ty(n["type"]["qualType"])
        try:
            for k, s, v in self.exec_body(f, st):
                s.names = saved_names
                s.callmarks = marks
                out.append((v, s))
        finally:
            self.fstack.pop(); self.cunit = saved_unit
        return out

    def bind_params(self, f, ps, vs, st, keep):
        nm = {} if not keep else dict(st.names)
        for p, v in zip(ps, vs):
            t = self.cunit.ty(p["type"]["qualType"])
            if t.k == "array":
                t = ptr(t.to)
            if t.k == "ptr" and not isinstance(v, (Ptr, Uninit)):
                v = self.asptr(v, p)
            if t.k == "int" and not isinstance(v, Uninit):
                v = toint(v)
            if p["id"] in self.addrtaken[f["id"]] or t.k == "struct":
                o = self.alloc(st, iv(sizeofT(t)), p.get("name", "p"))
                if t.k == "struct":
                    tmp = st.copy(); tmp.mem = v.mem
                    for off, lt_ in leaves(t):
                        rawstore(st, Ptr(o, iv(off)), lt_, rawload(tmp, Ptr(v.ptr.o, add(v.ptr.f, iv(off))), lt_))
                else:
                    rawstore(st, Ptr(o, iv(0)), t, v)
                st.env[p["id"]] = ("obj", o)
            else:
                st.env[p["id"]] = v
            if "name" in p:
                nm[p["name"]] = (p["id"], t, self.cunit)
        st.names = nm

    # builtins handled natively
    def b_malloc(self, vs, args, st, n):
        sz = toint(vs[0])
        ok = st.copy()
        ok.assume(lt(sz, iv(1 << 47)))
        o = self.alloc(ok, sz, "m")
        out = [(Ptr(o, iv(0)), ok)]
        st.assume(z3.Bool("OOM"))
        if not self.opt("malloc_nofail") and self.feasible(st):
            out.append((NULL, st))
        return out

    def opt(self, k):
        return bool(self.cur and self.cur.options.get(k)) or k in self.global_opts

    global_opts = ()

    def zero_obj(self, st, o):
        for c in CLASSES:
            if c == "d":
                continue
            st.mem[c] = sto(st.mem[c], o, z3.K(I, iv(0)))

    def b_calloc(self, vs, args, st, n):
        sz = mul(toint(vs[0]), toint(vs[1]))
        ok = st.copy()
        ok.assume(lt(sz, iv(1 << 47)))
        o = self.alloc(ok, sz, "m")
        self.zero_obj(ok, o)
        out = [(Ptr(o, iv(0)), ok)]
        st.assume(z3.Bool("OOM"))
        if not self.opt("malloc_nofail") and self.feasible(st):
            out.append((NULL, st))
        return out

    def b_realloc(self, vs, args, st, n):
        p = self.asptr(vs[0], n); sz = toint(vs[1])
        self.ob(st, "%s:realloc argument" % self.where(), "memory",
                OR(eq(p.o, iv(0)), AND(sel(st.alive, p.o), eq(p.f, iv(0)), lt(iv(0), p.o))), n)
        ok = st.copy()
        # freed object must be permitted
        for fr in ok.perm:
            self.ob(ok, "%s:frees(%s)" % (self.where(), fr.name), "frame",
                    OR(eq(p.o, iv(0)), le(fr.nxt, p.o), *self.mayfree(fr, p.o)), n)
        ok.alive = sto(ok.alive, p.o, z3.BoolVal(False))
        o = self.alloc(ok, sz, "m")
        for c in CLASSES:
            ok.mem[c] = sto(ok.mem[c], o, sel(ok.mem[c], p.o))
        out = [(Ptr(o, iv(0)), ok)]
        st.assume(z3.Bool("OOM"))
        if not self.opt("malloc_nofail") and self.feasible(st):
            out.append((NULL, st))
        return out

    def b_free(self, vs, args, st, n):
        p = self.asptr(vs[0], n)
        self.ob(st, "%s:free argument" % self.where(), "memory",
                OR(eq(p.o, iv(0)), AND(sel(st.alive, p.o), eq(p.f, iv(0)), lt(iv(0), p.o))), n)
        for fr in st.perm:
            self.ob(st, "%s:frees(%s)" % (self.where(), fr.name), "frame",
                    OR(eq(p.o, iv(0)), le(fr.nxt, p.o), *self.mayfree(fr, p.o)), n)
        st.alive = sto(st.alive, p.o, z3.BoolVal(False))
        return [(None, st)]

    def argtype(self, a):
        """static pointee type before conversion to void*"""
        while a["kind"] in ("ImplicitCastExpr", "ParenExpr") and a.get("castKind") in (None, "BitCast", "NoOp"):
            a = a["inner"][0]
        if a["kind"] == "ImplicitCastExpr" and a.get("castKind") == "ArrayToPointerDecay":
            t = self.tyof(a["inner"][0])
            return t.to if t.k == "array" else VOID
        t = self.tyof(a)
        return t.to if t.k == "ptr" else VOID

    def b_memset(self, vs, args, st, n):
        p = self.asptr(vs[0], n); c = toint(vs[1]); ln = toint(vs[2])
        t = self.argtype(args[0])
        self.ob(st, "%s:memset range" % self.where(), "memory",
                OR(eq(ln, iv(0)), AND(NOT(eq(p.o, iv(0))), sel(st.alive, p.o), le(iv(0), p.f),
                                      le(add(p.f, ln), sel(st.sz, p.o)))), n)
        cl = leafclasses(t)
        self.check_perm(st, p, cl, n, p.f, add(p.f, ln))
        if cl != {"b"} and not (isnum(c) and num(c) == 0):
            raise Unsupported("memset of non-zero")
        if cl != {"b"} and t.k == "struct" and isnum(ln) and num(ln) == sizeofT(t):
            for off, lt_ in leaves(t):
                z = NULL if lt_.k == "ptr" else (dblconst("0") if lt_.k == "float" else iv(0))
                rawstore(st, Ptr(p.o, add(p.f, iv(off))), lt_, z)
            return [(p, st)]
        for k in (cl or CLASSES):
            if k == "d":
                continue
            old = sel(st.mem[k], p.o)
            fa = z3.Const("ms_%s!%d" % (k, next(self.cnt)), AI)
            j = z3.FreshConst(I, "j")
            val = wrapto(c, CHAR) if k == "b" else iv(0)
            st.assume(z3.ForAll([j], z3.Select(fa, j) == z3.If(z3.And(j >= p.f, j < p.f + ln), val, z3.Select(old, j)),
                                patterns=[z3.Select(fa, j)]))
            st.mem[k] = sto(st.mem[k], p.o, fa)
        return [(p, st)]

    def b_memcpy(self, vs, args, st, n, overlap=False):
        d = self.asptr(vs[0], n); s = self.asptr(vs[1], n); ln = toint(vs[2])
        t = self.argtype(args[0])
        if t.k == "void":
            t = self.argtype(args[1])
        rng = lambda p: AND(NOT(eq(p.o, iv(0))), sel(st.alive, p.o), le(iv(0), p.f),
                            le(add(p.f, ln), sel(st.sz, p.o)))
        self.ob(st, "%s:memcpy destination" % self.where(), "memory", AND(le(iv(0), ln), OR(eq(ln, iv(0)), rng(d))), n)
        self.ob(st, "%s:memcpy source" % self.where(), "memory", OR(eq(ln, iv(0)), rng(s)), n)
        if not overlap:
            self.ob(st, "%s:memcpy overlap" % self.where(), "memory",
                    OR(NOT(eq(d.o, s.o)), le(add(d.f, ln), s.f), le(add(s.f, ln), d.f), eq(ln, iv(0))), n)
        cl = leafclasses(t)
        self.check_perm(st, d, cl, n, d.f, add(d.f, ln))
        if t.k == "struct" and isnum(ln) and num(ln) == sizeofT(t):
            tmp = st.copy()
            for off, lt_ in leaves(t):
                rawstore(st, Ptr(d.o, add(d.f, iv(off))), lt_, rawload(tmp, Ptr(s.o, add(s.f, iv(off))), lt_))
            return [(d, st)]
        srcs = {k: sel(st.mem[k], s.o) for k in (cl or CLASSES)}
        for k in (cl or CLASSES):
            if k == "d":
                continue
            old = sel(st.mem[k], d.o)
            src = srcs[k]
            fa = z3.Const("mc_%s!%d" % (k, next(self.cnt)), AI)
            j = z3.FreshConst(I, "j")
            st.assume(z3.ForAll([j], z3.Select(fa, j) == z3.If(z3.And(j >= d.f, j < d.f + ln),
                                                               z3.Select(src, j - d.f + s.f), z3.Select(old, j)),
                                patterns=[z3.Select(fa, j)]))
            if patok(src):
                st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= s.f, j < s.f + ln),
                                                    z3.Select(fa, j - s.f + d.f) == z3.Select(src, j)),
                                    patterns=[z3.Select(src, j)]))
            st.mem[k] = sto(st.mem[k], d.o, fa)
        return [(d, st)]

    def b_memmove(self, vs, args, st, n):
        return self.b_memcpy(vs, args, st, n, overlap=True)

    def fmt_segments(self, fa, st, argv, args, n):
        """literal printf format -> [(length term, array, offset) | (length term, None, None)]"""
        f = fa
        while f.get("kind") != "StringLiteral":
            ks = kids(f)
            if len(ks) != 1:
                raise Unsupported("format is not a literal")
            f = ks[0]
        codes = self.strlit_codes(f)
        o = iv(self.litid(codes)); self.assume_lit(st, o, codes); lit = sel(st.mem["b"], o)
        segs = []; i = 0; ai = 0; start = 0
        def flush(upto):
            if upto > start:
                segs.append((iv(upto - start), lit, iv(start)))
        while i < len(codes):
            if codes[i] != ord("%"):
                i += 1; continue
            flush(i)
            j = i + 1
            if codes[j] == ord("%"):
                segs.append((iv(1), lit, iv(i))); i = j + 1; start = i; continue
            mod = ""
            while chr(codes[j]) in "hlz0123456789-+ .":
                mod += chr(codes[j]); j += 1
            c = chr(codes[j]); v = argv[ai]; a = args[ai]; ai += 1
            if c == "s" and not mod:
                pv = self.asptr(v, n); ar = sel(st.mem["b"], pv.o); ln = SLEN(ar, pv.f)
                self.ob(st, "%s:%%s argument" % self.where(), "memory",
                        AND(NOT(eq(pv.o, iv(0))), sel(st.alive, pv.o), le(iv(0), pv.f), le(iv(0), ln),
                            lt(add(pv.f, ln), sel(st.sz, pv.o)), eq(sel(ar, add(pv.f, ln)), iv(0))), n)
                segs.append((ln, ar, pv.f, pv.o))
            elif c == "c" and not mod:
                k = z3.Const("ch!%d" % next(self.cnt), AI)
                st.assume(eq(sel(k, iv(0)), wrapto(toint(v), CHAR)))
                zero = eq(wrapto(toint(v), CHAR), iv(0))
                if j + 1 < len(codes):       # a NUL before the end would cut the text
                    self.ob(st, "%s:%%c argument" % self.where(), "memory", NOT(zero), n)
                else:                        # a final one is a second terminator
                    self.printf_nul = z3.If(zero, iv(1), iv(0))
                segs.append((z3.If(zero, iv(0), iv(1)), k, iv(0)))
            elif c in "dux" and not mod.strip("l"):
                ln = z3.Int("numlen!%d" % next(self.cnt)); k = z3.Const("num!%d" % next(self.cnt), AI)
                st.assume(z3.And(ln >= 1, ln <= (20 if "l" in mod else 11)))
                q = z3.FreshConst(I, "j")
                st.assume(z3.ForAll([q], z3.And(z3.Select(k, q) > 32, z3.Select(k, q) < 127), patterns=[z3.Select(k, q)]))
                segs.append((ln, k, iv(0)))
            else:
                raise Unsupported("format %%%s%s" % (mod, c))
            i = j + 1; start = i
        flush(len(codes))
        return segs

    def do_printf(self, d, size, fa, argv, args, st, n):
        self.printf_nul = iv(0)
        segs = self.fmt_segments(fa, st, argv, args, n)
        tot = iv(0)
        for sg in segs:
            tot = add(tot, sg[0])
        T_ = z3.Int("plen!%d" % next(self.cnt)); st.assume(T_ == tot)
        m = T_ if size is None else z3.If(T_ < size, T_, size - 1)
        M_ = z3.Int("pout!%d" % next(self.cnt)); st.assume(M_ == m)
        w = add(M_, iv(1))
        w = add(w, self.printf_nul if size is None else z3.If(add(M_, iv(1)) < size, self.printf_nul, iv(0)))
        nz = z3.BoolVal(True) if size is None else NOT(eq(size, iv(0)))
        self.ob(st, "%s:printf destination" % self.where(), "memory",
                z3.Implies(nz, AND(NOT(eq(d.o, iv(0))), sel(st.alive, d.o), le(iv(0), d.f),
                               le(add(d.f, w), sel(st.sz, d.o)))), n)
        for sg in segs:
            if len(sg) == 4:
                self.ob(st, "%s:printf overlap" % self.where(), "memory",
                        OR(NOT(eq(d.o, sg[3])), le(add(d.f, w), sg[2]), le(add(sg[2], sg[0]), d.f)), n)
        self.check_perm(st, d, {"b"}, n, d.f, add(d.f, w))
        old = sel(st.mem["b"], d.o)
        fa2 = z3.Const("pf!%d" % next(self.cnt), AI); j = z3.FreshConst(I, "j")
        body = z3.Implies(z3.Or(z3.Not(nz), j < d.f, j >= d.f + w), z3.Select(fa2, j) == z3.Select(old, j))
        st.assume(z3.ForAll([j], body, patterns=[z3.Select(fa2, j)]))
        if patok(old):
            st.assume(z3.ForAll([j], body, patterns=[z3.Select(old, j)]))
        st.assume(z3.Implies(nz, z3.And(z3.Select(fa2, d.f + M_) == 0, SLEN(fa2, d.f) == M_)))
        pos = iv(0)
        for sg in segs:
            k = z3.FreshConst(I, "k")       # indexed by destination and by source
            st.assume(z3.ForAll([k], z3.Implies(z3.And(nz, k >= d.f + pos, k < d.f + pos + sg[0], k < d.f + M_),
                                                z3.Select(fa2, k) == z3.Select(sg[1], k - d.f - pos + sg[2])),
                                patterns=[z3.Select(fa2, k)]))
            if patok(sg[1]):
                st.assume(z3.ForAll([k], z3.Implies(z3.And(nz, k >= sg[2], k < sg[2] + sg[0], k - sg[2] + pos < M_),
                                                    z3.Select(fa2, k - sg[2] + pos + d.f) == z3.Select(sg[1], k)),
                                    patterns=[z3.Select(sg[1], k)]))
            pos = add(pos, sg[0])
        st.mem["b"] = sto(st.mem["b"], d.o, fa2)
        return [(add(T_, self.printf_nul), st)]

    def b_snprintf(self, vs, args, st, n):
        self.trusted_used.add("snprintf (literal formats)")
        return self.do_printf(self.asptr(vs[0], n), toint(vs[1]), args[2], vs[3:], args[3:], st, n)

    def b_sprintf(self, vs, args, st, n):
        self.trusted_used.add("sprintf (literal formats)")
        return self.do_printf(self.asptr(vs[0], n), None, args[1], vs[2:], args[2:], st, n)

    def b___errno_location(self, vs, args, st, n):
        o = iv(self.globid("var:errno"))
        st.assume(eq(sel(st.sz, o), iv(4))); st.assume(sel(st.alive, o))
        return [(Ptr(o, iv(0)), st)]

    def b___builtin_expect(self, vs, args, st, n):
        return [(vs[0], st)]

    def b_exit(self, vs, args, st, n):
        return []

    b_abort = b_exit

    # ---- statements -----------------------------------------------------------
    def prepare(self, f):
        if f["id"] in self.addrtaken:
            return
        at = set(); lc = [0]; u = f["_unit"]
        def walk(n):
            k = n.get("kind")
            if k == "UnaryOperator" and n["opcode"] == "&":
                c = n["inner"][0]
                while c["kind"] in ("ParenExpr", "MemberExpr", "ArraySubscriptExpr", "ImplicitCastExpr"):
                    if c["kind"] == "MemberExpr" and c.get("isArrow"):
                        break
                    if c["kind"] == "ImplicitCastExpr" and c.get("castKind") == "LValueToRValue":
                        break
                    c = c["inner"][0]
                if c["kind"] == "DeclRefExpr":
                    at.add(c["referencedDecl"]["id"])
            if k in ("WhileStmt", "ForStmt", "DoStmt"):
                lc[0] += 1
                self.loopidx[n["id"]] = (f["name"], lc[0])
            for c in kids(n):
                walk(c)
        walk(f["_body"])
        f["_nloops"] = lc[0]
        self.addrtaken[f["id"]] = at

    def exec(self, n, st):
        """-> list of (kind, state, payload)"""
        self.steps += 1
        k = n["kind"]
        f = getattr(self, "s_" + k, None)
        if f is not None:
            return f(n, st)
        # expression statement
        self.line = n.get("_l")
        return [("next", s, None) for _, s in self.ev(n, st)]

    def s_NullStmt(self, n, st):
        return [("next", st, None)]

    def seq(self, stmts, st, start=None):
        outs = []
        cur = [st]
        for i, c in enumerate(stmts):
            nx = []
            for s in cur:
                for k, s2, p in self.exec(c, s):
                    if k == "next":
                        nx.append(s2)
                    else:
                        outs.append((k, s2, p))
            cur = nx
            if len(cur) + len(outs) > MAXPATHS:
                raise Unsupported("too many paths")
            if len(cur) > 1 and self.opt("merge"):
                cur = self.merge(cur)
            if not cur:
                break
        return outs + [("next", s, None) for s in cur]

    def merge(self, sts):
        """join states at a control-flow join (disjunction of path conditions)"""
        out = []
        while sts:
            a = sts.pop()
            i = 0
            while i < len(sts):
                m = self.merge2(a, sts[i])
                if m is None:
                    i += 1
                else:
                    a = m; sts.pop(i)
            out.append(a)
        return out

    def merge2(self, a, b):
        if len(a.perm) != len(b.perm) or not a.nxt.eq(b.nxt):
            return None
        if not a.sz.eq(b.sz) or not a.alive.eq(b.alive):
            return None
        touched = {}
        for c in CLASSES:
            if a.mem[c].eq(b.mem[c]):
                continue
            if not self.opt("mergemem"):
                return None
            ch = []
            for m_ in (a.mem[c], b.mem[c]):
                l = [m_]
                while z3.is_store(m_):
                    m_ = m_.arg(0); l.append(m_)
                ch.append(l)
            ids = {x.get_id(): i for i, x in enumerate(ch[1])}
            k = next((i for i, x in enumerate(ch[0]) if x.get_id() in ids), None)
            if k is None:
                return None
            objs = []
            for x in ch[0][:k] + ch[1][:ids[ch[0][k].get_id()]]:
                if not any(x.arg(1).eq(y) for y in objs):
                    objs.append(x.arg(1))
            touched[c] = (ch[0][k], objs)
        if any(not a.ghost[g].eq(b.ghost[g]) for g in a.ghost):
            return None
        n = 0
        la, lb = len(a.pc), len(b.pc)
        while n < la and n < lb and a.pc[n].eq(b.pc[n]):
            n += 1
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None:
                continue
            if isinstance(v, (Uninit, tuple, StructVal)) or isinstance(w, (Uninit, tuple, StructVal)):
                if type(v) is not type(w):
                    return None
        sel_ = z3.Bool("join!%d" % next(self.cnt))
        m = a.copy()
        m.pc = a.pc[:n]
        ea = AND(*a.pc[n:]); eb = AND(*b.pc[n:])
        qa = [f for f in a.pc[n:]]; qb = [f for f in b.pc[n:]]
        for f in qa:
            m.pc.append(IMP(sel_, f))
        for f in qb:
            m.pc.append(IMP(NOT(sel_), f))
        for c, (base, objs) in touched.items():
            mm = base
            for o in objs:
                fa = z3.Const("mg_%s!%d" % (c, next(self.cnt)), ADB if c == "d" else AI)
                m.pc.append(IMP(sel_, fa == sel(a.mem[c], o))); m.pc.append(IMP(NOT(sel_), fa == sel(b.mem[c], o)))
                mm = sto(mm, o, fa)
            m.mem[c] = mm
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None:
                continue
            if isinstance(v, Ptr):
                if not (v.o.eq(w.o) and v.f.eq(w.f)):
                    m.env[k] = Ptr(ITE(sel_, v.o, w.o), ITE(sel_, v.f, w.f))
            elif isinstance(v, (Uninit, tuple, StructVal)):
                pass
            elif not v.eq(w):
                if z3.is_bool(v) != z3.is_bool(w):
                    v, w = toint(v), toint(w)
                m.env[k] = ITE(sel_, v, w)
        return m

    def s_CompoundStmt(self, n, st):
        saved = st.names
        r = self.seq(kids(n), st)
        for _, s, _ in r:
            s.names = saved
        return r

    def s_DeclStmt(self, n, st):
        sts = [st]
        for d in kids(n):
            if d["kind"] != "VarDecl":
                continue
            nx = []
            for s in sts:
                nx += self.decl(d, s)
            sts = nx
        return [("next", s, None) for s in sts]

    def decl(self, d, st):
        t = self.cunit.ty(d["type"]["qualType"])
        nm = dict(st.names); nm[d["name"]] = (d["id"], t, self.cunit); st.names = nm
        if d.get("storageClass") in ("static", "extern"):
            # static local: a global object
            o = iv(self.globid("static:%s:%s" % (self.where(), d["name"])))
            st.assume(eq(sel(st.sz, o), iv(sizeofT(t)))); st.assume(sel(st.alive, o))
            st.env[d["id"]] = ("obj", o)
            return [st]
        init = [c for c in kids(d) if c["kind"] not in ("FullComment",) and not c["kind"].endswith("Attr")]
        f = self.fstack[-1]
        if t.k in ("array", "struct") or d["id"] in self.addrtaken[f["id"]]:
            o = self.alloc(st, iv(sizeofT(t)), d["name"])
            st.env[d["id"]] = ("obj", o)
            if init:
                return self.init_obj(st, Ptr(o, iv(0)), t, init[0])
            return [st]
        if init:
            out = []
            for v, s in self.ev(init[0], st):
                if t.k == "int" and not isinstance(v, Uninit):
                    v = toint(v)
                if t.k == "ptr":
                    v = self.asptr(v, d)
                s.env[d["id"]] = v
                out.append(s)
            return out
        st.env[d["id"]] = UNINIT
        return [st]

    def init_obj(self, st, p, t, n):
        n0 = strip(n)
        if t.k == "array" and n0["kind"] == "StringLiteral":
            codes = (self.strlit_codes(n0) + [0] * t.n)[:t.n]
            a = sel(st.mem["b"], p.o)
            if t.n > 64:
                a = z3.K(I, iv(0)); codes = codes[:len(self.strlit_codes(n0)) + 1]
            for i, c in enumerate(codes):
                a = sto(a, add(p.f, iv(i)), iv(c))
            st.mem["b"] = sto(st.mem["b"], p.o, a)
            return [st]
        if t.k == "array" and n0["kind"] == "InitListExpr":
            cs = kids(n0)
            if "array_filler" in n0:
                cs = [c for c in n0["array_filler"] if c][1:] if False else [c for c in n0["array_filler"] if c.get("kind") != "ImplicitValueInitExpr"]
            s = sizeofT(t.to)
            sts = [st]
            if t.n > len(cs):
                for c in (leafclasses(t.to) or CLASSES):
                    if c != "d":
                        st.mem[c] = sto(st.mem[c], p.o, z3.K(I, iv(0)))
            for i, c in enumerate(cs):
                nx = []
                for s1 in sts:
                    nx += self.init_obj(s1, Ptr(p.o, add(p.f, iv(i * s))), t.to, c)
                sts = nx
            return sts
        if t.k == "struct" and n0["kind"] == "InitListExpr":
            fl = [v for k, v in t.n.layout(t.name)[2].items() if k.startswith("#")]
            sts = [st]
            for (o, ft), c in zip(fl, kids(n0)):
                nx = []
                for s1 in sts:
                    nx += self.init_obj(s1, Ptr(p.o, add(p.f, iv(o))), ft, c)
                sts = nx
            return sts
        if n0["kind"] == "ImplicitValueInitExpr":
            for o, lt_ in leaves(t):
                z = NULL if lt_.k == "ptr" else (dblconst("0") if lt_.k == "float" else iv(0))
                rawstore(st, Ptr(p.o, add(p.f, iv(o))), lt_, z)
            return [st]
        out = []
        for v, s in self.ev(n, st):
            if t.k == "struct":
                tmp = s.copy(); tmp.mem = v.mem
                for off, lt_ in leaves(t):
                    rawstore(s, Ptr(p.o, add(p.f, iv(off))), lt_, rawload(tmp, Ptr(v.ptr.o, add(v.ptr.f, iv(off))), lt_))
            else:
                rawstore(s, p, t, v if isinstance(v, Ptr) or t.k == "float" else (self.asptr(v, n) if t.k == "ptr" else toint(v)))
            out.append(s)
        return out

    def branch(self, cond, st):
        """-> (list of true states, list of false states)"""
        T_, F_ = [], []
        for v, s in self.ev(cond, st):
            c = tobool(v)
            if z3.is_true(c):
                T_.append(s); continue
            if z3.is_false(c):
                F_.append(s); continue
            s1 = s.copy(); s1.assume(c)
            s.assume(NOT(c))
            if self.feasible(s1):
                T_.append(s1)
            if self.feasible(s):
                F_.append(s)
        return T_, F_

    def s_IfStmt(self, n, st):
        c = kids(n)
        T_, F_ = self.branch(c[0], st)
        out = []
        for s in T_:
            out += self.exec(c[1], s)
        for s in F_:
            if len(c) > 2:
                out += self.exec(c[2], s)
            else:
                out.append(("next", s, None))
        if self.opt("merge"):
            nx = [s for k, s, _ in out if k == "next"]
            if len(nx) > 1:
                out = [x for x in out if x[0] != "next"] + [("next", s, None) for s in self.merge(nx)]
        return out

    def s_ReturnStmt(self, n, st):
        c = kids(n)
        if not c:
            return [("return", st, None)]
        out = []
        for v, s in self.ev(c[0], st):
            out.append(("return", s, v))
        return out

    def s_BreakStmt(self, n, st):
        return [("break", st, None)]

    def s_ContinueStmt(self, n, st):
        return [("continue", st, None)]

    def s_GotoStmt(self, n, st):
        return [("goto", st, n["targetLabelDeclId"])]

    def s_LabelStmt(self, n, st):
        key = "label " + n["name"]
        fs = self.fspec()
        if fs is not None and key in fs.loops:
            return self.label_loop(n, st, fs.loops[key], key)
        return self.exec(kids(n)[0], st) if kids(n) else [("next", st, None)]

    def fspec(self):
        nm = self.fstack[-1]["name"]
        return self.sf.fns.get(nm)

    def s_AttributedStmt(self, n, st):
        return self.exec(kids(n)[-1], st)

    def s_GCCAsmStmt(self, n, st):
        raise Unsupported("asm")

    # switch
    def flat(self, n):
        """body of a switch as a list of (labels, stmt)"""
        out = []
        for c in kids(n):
            labels = []
            while c["kind"] in ("CaseStmt", "DefaultStmt"):
                if c["kind"] == "CaseStmt":
                    cc = kids(c)
                    if len(cc) > 2:
                        raise Unsupported("case range")
                    labels.append(self.cunit.constval(cc[0]) if self.cunit.constval(cc[0]) is not None else None)
                    if labels[-1] is None:
                        raise Unsupported("case constant")
                else:
                    labels.append("default")
                c = kids(c)[-1]
            out.append((labels, c))
        return out

    def s_SwitchStmt(self, n, st):
        c = kids(n)
        body = c[-1]
        items = self.flat(body)
        vals = [l for ls, _ in items for l in ls if l != "default"]
        outs = []
        for v, s in self.ev(c[0], st):
            v = toint(v)
            starts = []
            for i, (ls, _) in enumerate(items):
                if not ls:
                    continue
                cond = OR(*[eq(v, iv(l)) for l in ls if l != "default"])
                if "default" in ls:
                    cond = OR(cond, AND(*[NOT(eq(v, iv(x))) for x in vals]))
                starts.append((i, cond))
            if not any("default" in ls for ls, _ in items):
                starts.append((len(items), AND(*[NOT(eq(v, iv(x))) for x in vals])))
            for i, cond in starts:
                s1 = s.copy(); s1.assume(cond)
                if z3.is_false(cond) or not self.feasible(s1):
                    continue
                saved = s1.names
                for k, s2, p in self.seq([x for _, x in items[i:]], s1):
                    s2.names = saved
                    outs.append(("next" if k == "break" else k, s2, p))
        return outs

    # goto: resume from a label
    def has_label(self, n, L):
        key = n.get("id")
        if key not in self.labelcache:
            acc = set()
            st = [n]
            while st:
                x = st.pop()
                if x.get("kind") == "LabelStmt":
                    acc.add(x["declId"])
                st.extend(kids(x))
            self.labelcache[key] = acc
        return L in self.labelcache[key]

    def exec_from(self, n, L, st):
        k = n["kind"]
        if k == "LabelStmt" and n["declId"] == L:
            return self.exec(n, st)
        if k == "LabelStmt":
            return self.exec_from(kids(n)[0], L, st)
        if k == "CompoundStmt":
            cs = kids(n)
            for i, c in enumerate(cs):
                if self.has_label(c, L):
                    saved = st.names
                    # declarations of this block are in scope after the jump
                    nm = dict(st.names)
                    for d0 in cs[:i]:
                        if d0["kind"] == "DeclStmt":
                            for d in kids(d0):
                                if d["kind"] == "VarDecl":
                                    nm[d["name"]] = (d["id"], self.cunit.ty(d["type"]["qualType"]), self.cunit)
                    st.names = nm
                    outs = []
                    for k2, s, p in self.exec_from(c, L, st):
                        if k2 == "next":
                            outs += self.seq(cs[i + 1:], s)
                        else:
                            outs.append((k2, s, p))
                    return outs
        if k == "IfStmt":
            for c in kids(n)[1:]:
                if self.has_label(c, L):
                    return self.exec_from(c, L, st)
        if k == "SwitchStmt":
            items = self.flat(kids(n)[-1])
            for i, (_, c) in enumerate(items):
                if self.has_label(c, L):
                    outs = []
                    for k2, s, p in self.exec_from(c, L, st):
                        if k2 == "next":
                            for k3, s3, p3 in self.seq([x for _, x in items[i + 1:]], s):
                                outs.append(("next" if k3 == "break" else k3, s3, p3))
                        else:
                            outs.append(("next" if k2 == "break" else k2, s, p))
                    return outs
        raise Unsupported("goto into %s" % k)

    def exec_body(self, f, st):
        """run a function body, resolving gotos; list of ('return', state, value)"""
        outs = []
        work = self.exec(f["_body"], st)
        n = 0
        while work:
            k, s, p = work.pop()
            if k == "goto":
                n += 1
                if n > 400:
                    raise Unsupported("goto loop without invariant")
                if p in s.labels:
                    if s.labels[p] >= 2 and not (self.label_active(s, p)):
                        raise Unsupported("backward goto without invariant")
                lb = dict(s.labels); lb[p] = lb.get(p, 0) + 1; s.labels = lb
                if self.label_active(s, p):
                    self.label_back(s, p)
                    continue
                work += self.exec_from(f["_body"], p, s)
            elif k in ("next", "return"):
                outs.append(("return", s, p if k == "return" else None))
            else:
                raise Unsupported("stray " + k)
        return outs

    def label_active(self, st, L):
        return ("label", L) in st.callmarks

    def label_back(self, st, L):
        sp, key, entry, v0 = st.callmarks[("label", L)]
        self.check_inv(st, sp, key, entry, "preserved")
        if sp.variant is not None:
            v1 = self.specev(st, entry=entry).intv(sp.variant)
            self.ob(st, "%s:%s:variant" % (self.where(), key), "variant", AND(le(iv(0), v0), lt(v1, v0)))

    def cut(self, n, st, sp, key):
        """`cut` at a loop head or label: every path that arrives proves the invariants; what follows is verified once, from any
        state that the frame of the function and the invariants allow.  None when that was done already."""
        if len(self.fstack) != 1 or len(st.perm) != 1:
            raise Unsupported("cut inside of a loop or of an inlined function")
        self.check_inv(st, sp, key, None, "initial", n)
        f = self.fstack[0]; e0 = st.fnentry
        ck = (self.curname, key)
        seen = self.__dict__.setdefault("_cuts", {})
        if ck in seen:
            for d, v in seen[ck].items():
                w = st.env.get(d)
                if isinstance(w, Uninit) and not isinstance(v, Uninit):
                    raise Unsupported("cut: variable without a value on some path")
                if w is not None and v is not None and (isinstance(w, tuple) and w[0] == "obj") != (isinstance(v, tuple) and v[0] == "obj"):
                    raise Unsupported("cut: different kinds of variable")
            return None
        items, gh, frees, binds = self.fnframe
        g = st.copy()
        g.pc = list(e0.pc); g.mem = dict(e0.mem); g.ghost = dict(e0.ghost); g.sz = e0.sz; g.alive = e0.alive; g.nxt = e0.nxt
        g.labels = {}; g.callmarks = {}
        self.havoc_frame(g, items, gh, frees)
        # objects made since the function was entered: anything
        nn = z3.Int("nxt!%d" % next(self.cnt)); g.assume(nn >= e0.nxt)
        for a in ("sz", "alive"):
            old = getattr(g, a); new = z3.Const("cut_%s!%d" % (a, next(self.cnt)), old.sort()); x = z3.FreshConst(I, "o")
            g.assume(z3.ForAll([x], z3.Implies(x < e0.nxt, z3.Select(new, x) == sel(old, x)), patterns=[z3.Select(new, x)]))
            setattr(g, a, new)
        x = z3.FreshConst(I, "o")
        g.assume(z3.ForAll([x], z3.Implies(x >= nn, z3.Not(z3.Select(g.alive, x))), patterns=[z3.Select(g.alive, x)]))
        for c in CLASSES:
            new = z3.Const("cut_%s!%d" % (c, next(self.cnt)), g.mem[c].sort()); x = z3.FreshConst(I, "o")
            g.assume(z3.ForAll([x], z3.Implies(x < z3.Int("NXT0"), z3.Select(new, x) == sel(g.mem[c], x)), patterns=[z3.Select(new, x)]))
            g.mem[c] = new
        g.nxt = nn
        acc = set(); self.assigned(f["_body"], acc)
        scope = {d: (ty, nm) for nm, (d, ty, u) in g.names.items()}
        objs = []
        for d, v in list(g.env.items()):
            if d not in scope and d not in e0.env:
                del g.env[d]; continue
            if isinstance(v, tuple) and v[0] == "obj" and d in e0.env:
                continue
            if isinstance(v, tuple) and v[0] == "obj":
                c = z3.Int("cutobj!%d" % next(self.cnt))
                g.assume(AND(le(e0.nxt, c), lt(c, nn)))
                g.assume(sel(g.alive, c)); g.assume(eq(sel(g.sz, c), iv(sizeofT(scope[d][0]))))
                for o in objs:
                    g.assume(z3.Not(eq(o, c)))
                objs.append(c); g.env[d] = ("obj", c); continue
            if isinstance(v, Uninit):
                continue
            if d in e0.env and d not in acc:
                continue
            t = scope[d][0] if d in scope else self.decltype(d)
            if t is None or t.k not in ("int", "ptr", "double", "float"):
                raise Unsupported("cut: variable of type %s" % (t and t.k))
            g.env[d] = self.freshv(g, self.declname(d), t)
        seen[ck] = dict(g.env)
        for txt, ex in sp.inv:
            g.assume(self.spec_bool(g, ex, entry=None))
        return g

    def label_loop(self, n, st, sp, key):
        if sp.cut:
            g = self.cut(n, st, sp, key)
            if g is None:
                return []
            v0 = None
            if sp.variant is not None:
                v0 = self.specev(g, entry=None).intv(sp.variant)
            g.callmarks = dict(g.callmarks)
            g.callmarks[("label", n["declId"])] = (sp, key, None, v0)
            return self.exec(kids(n)[0], g)
        entry = st.copy()
        self.check_inv(st, sp, key, entry, "initial")
        self.havoc_loop(st, sp, key, [self.fstack[-1]["_body"]], entry)
        v0 = None
        if sp.variant is not None:
            v0 = self.specev(st, entry=entry).intv(sp.variant)
        st.callmarks = dict(st.callmarks)
        st.callmarks[("label", n["declId"])] = (sp, key, entry, v0)
        return self.exec(kids(n)[0], st)

    # loops
    def assigned(self, n, acc):
        k = n.get("kind")
        t = None
        if k == "BinaryOperator" and n["opcode"] == "=":
            t = n["inner"][0]
        elif k == "CompoundAssignOperator":
            t = n["inner"][0]
        elif k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            t = n["inner"][0]
        if t is not None:
            t = strip(t)
            if t["kind"] == "DeclRefExpr":
                acc.add(t["referencedDecl"]["id"])
        for c in kids(n):
            self.assigned(c, acc)

    def loop_spec(self, n):
        fn, i = self.loopidx[n["id"]]
        fs = self.sf.fns.get(fn)
        if fs is not None:
            sp = fs.loops.get(str(i))
            if sp is not None:
                self.loops_bound.add((fn, str(i)))
                return sp, "loop %d" % i
        self.unspecified.append((fn, i, n.get("_l")))
        return SP.LoopSpec(), "loop %d" % i

    def check_inv(self, st, sp, key, entry, what, node=None):
        for txt, e in sp.inv:
            g = self.spec_bool(st, e, entry=entry)
            self.ob(st, "%s:%s invariant %s: %s" % (self.where(), key, what, txt), "inv-" + what, g, node)

    def havoc_loop(self, st, sp, key, nodes, entry):
        # the frame is that of the state before the first iteration
        items, gh = self.frame_items(st, sp.assigns, entry=entry)
        se = self.specev(st, entry=entry)
        frees = self.frees_of(st, sp.frees, entry=entry)
        acc = set()
        for x in nodes:
            self.assigned(x, acc)
        for d in acc:
            v = st.env.get(d)
            if v is None or (isinstance(v, tuple) and v[0] == "obj"):
                continue
            t = None
            for nm, (i, ty, u) in st.names.items():
                if i == d:
                    t = ty
            if t is None:
                t = self.decltype(d)
            if t is None:
                continue
            if isinstance(v, Uninit) and d in getattr(self, "_never", ()):
                continue
            st.env[d] = self.freshv(st, self.declname(d), t)
            if isinstance(v, Uninit):
                pass
        self.check_items(st, items, None)
        self.havoc_frame(st, items, gh, frees)
        fr = Frame(items, st.nxt, key, set(gh), frees)
        nn = z3.Int("nxt!%d" % next(self.cnt))
        st.assume(nn >= st.nxt)
        # pointers assigned in the loop may refer to objects it allocates
        st.nxt = nn
        for d in acc:
            v = st.env.get(d)
            if isinstance(v, Ptr):
                st.assume(lt(v.o, nn))
        st.perm = st.perm + (fr,)
        for txt, e in sp.inv:
            st.assume(self.spec_bool(st, e, entry=entry))
        return fr

    def decltype(self, d):
        for f in self.fstack:
            for x in self.walkdecls(f["_body"]):
                if x["id"] == d:
                    return self.cunit.ty(x["type"]["qualType"])
        return None

    def declname(self, d):
        for f in self.fstack:
            for x in self.walkdecls(f):
                if x["id"] == d:
                    return x.get("name", "v")
        return "v"

    def walkdecls(self, n):
        c = self.__dict__.setdefault("_wd", {})
        i = n["id"]
        if i not in c:
            acc = []; st = [n]
            while st:
                x = st.pop()
                if x.get("kind") in ("VarDecl", "ParmVarDecl"):
                    acc.append(x)
                st.extend(kids(x))
            c[i] = acc
        return c[i]

    def run_loop(self, n, st, init, cond, inc, body, dofirst=False):
        outs = []
        sts = [st]
        if init is not None:
            sts = [s for k, s, _ in self.exec(init, st)]
        res = []
        for s0 in sts:
            res += self.run_loop1(n, s0, cond, inc, body, dofirst)
        return res

    def run_loop1(self, n, st, cond, inc, body, dofirst):
        sp, key = self.loop_spec(n)
        outs = []
        if sp.unroll:
            return self.unroll(n, st, cond, inc, body, dofirst, sp.unroll, key)
        self.line = n.get("_l")
        if sp.cut:
            st = self.cut(n, st, sp, key)
            if st is None:
                return []
            entry = None; saved_perm = st.perm
        else:
            entry = st.copy()
            saved_perm = st.perm
            self.check_inv(st, sp, key, entry, "initial", n)
            nodes = [x for x in (cond, inc, body) if x is not None]
            self.havoc_loop(st, sp, key, nodes, entry)
        # the measure is taken at the head of the loop, before its condition
        v0 = None
        if sp.variant is not None:
            v0 = self.specev(st, entry=entry).intv(sp.variant)
        if not dofirst:
            if cond is None:
                T_, F_ = [st], []
            else:
                T_, F_ = self.branch(cond, st)
            for s in F_:
                s.perm = saved_perm
                outs.append(("next", s, None))
        else:
            T_ = [st]
        for s in T_:
            self.reach.append(("%s:%s body" % (self.where(), key), list(s.pc)))
            prev = s.copy()
            for k, s2, p in self.exec(body, s):
                if k in ("next", "continue"):
                    ends = [s2]
                    if inc is not None:
                        ends = [x for _, x in self.ev(inc, s2)]
                    fins = []
                    if dofirst:
                        for x in ends:
                            a, b = self.branch(cond, x)
                            fins += a
                            for y in b:
                                y.perm = saved_perm
                                outs.append(("next", y, None))
                    else:
                        fins = ends
                    for x in fins:
                        self.line = n.get("_l")
                        for txt, e in sp.hints:
                            g = self.spec_bool(x, e, entry=entry, prev=prev)
                            self.ob(x, "%s:%s hint: %s" % (self.where(), key, txt), "hint", g, n)
                        # check all invariants before assuming them
                        self.check_inv(x, sp, key, entry, "preserved", n)
                        if v0 is not None:
                            v1 = self.specev(x, entry=entry).intv(sp.variant)
                            self.ob(x, "%s:%s variant" % (self.where(), key), "variant",
                                    AND(le(iv(0), v0), lt(v1, v0)), n)
                elif k == "break":
                    s2.perm = saved_perm
                    outs.append(("next", s2, None))
                else:
                    if k != "goto" or True:
                        s2.perm = saved_perm
                    outs.append((k, s2, p))
        return outs

    def unroll(self, n, st, cond, inc, body, dofirst, k, key):
        outs = []
        cur = [st]
        for i in range(k + 1):
            nx = []
            for s in cur:
                if not (dofirst and i == 0):
                    T_, F_ = self.branch(cond, s) if cond is not None else ([s], [])
                    outs += [("next", x, None) for x in F_]
                else:
                    T_ = [s]
                if i == k:
                    for x in T_:
                        self.ob(x, "%s:%s exceeds its %d iterations" % (self.where(), key, k), "unroll", z3.BoolVal(False), n)
                    continue
                for x in T_:
                    for kk, s2, p in self.exec(body, x):
                        if kk in ("next", "continue"):
                            nx += [y for _, y in self.ev(inc, s2)] if inc is not None else [s2]
                        elif kk == "break":
                            outs.append(("next", s2, None))
                        else:
                            outs.append((kk, s2, p))
            cur = nx
        return outs

    def s_WhileStmt(self, n, st):
        c = kids(n)
        return self.run_loop(n, st, None, c[0], None, c[1])

    def s_DoStmt(self, n, st):
        c = kids(n)
        return self.run_loop(n, st, None, c[1], None, c[0], dofirst=True)

    def s_ForStmt(self, n, st):
        c = n["inner"]
        init, _, cond, inc, body = [x if x else None for x in c]
        saved = st.names
        r = self.run_loop(n, st, init, cond, inc, body)
        for _, s, _ in r:
            s.names = saved
        return r

    # ---- verification of one function -------------------------------------------
    def initial_state(self):
        st = State.__new__(State)
        st.env = {}; st.names = {}
        st.mem = {c: z3.Const("M_" + c, AADB if c == "d" else AAI) for c in CLASSES}
        st.sz = z3.Const("SZ", AI); st.alive = z3.Const("ALIVE", AB)
        st.nxt = z3.Int("NXT0")
        st.pc = [st.nxt > 0, z3.Not(z3.Select(st.alive, 0))]
        st.ghost = {}
        for t, g in self.sf.ghosts:
            st.ghost[g] = z3.Const("G_" + g, AI if t == "bytes" else I)
        st.perm = (); st.entry = None; st.fnentry = None; st.gotos = 0; st.labels = {}
        st.unit = None; st.feas = True; st.callmarks = {}
        return st

    def verify(self, nm):
        fs = self.sf.fns[nm]
        f = None
        for u in self.units:
            if nm in u.funcs and (fs.src is None or u.path == fs.src):
                f = u.funcs[nm]
        if f is None:
            raise Unbound("function %s is not defined in %s" % (nm, fs.src))
        self.cur = fs; self.curname = nm
        self.rec_group = {nm}
        self.fstack = [f]; self.cunit = f["_unit"]
        self.loops_bound = set(); self._cuts = {}
        self.prepare(f)
        st = self.initial_state()
        if self.opt("aliveax"):      # every live object was allocated before
            x = z3.FreshConst(I, "o")
            st.pc.append(z3.ForAll([x], z3.Implies(z3.Select(st.alive, x), x < st.nxt), patterns=[z3.Select(st.alive, x)]))
        ps = [c for c in kids(f) if c["kind"] == "ParmVarDecl"]
        vs = []
        for p in ps:
            t = self.cunit.ty(p["type"]["qualType"])
            if t.k == "struct":
                o = self.alloc(st, iv(sizeofT(t)), "sp")
                vs.append(StructVal(Ptr(o, iv(0)), dict(st.mem), t)); continue
            if t.k == "array":
                t = ptr(t.to)
            vs.append(self.freshv(st, p.get("name", "p"), t))
        nbind = {}
        for t, g in fs.ghost:
            nbind[g] = SV(z3.Const("gp_" + g, AI), "bytes") if t == "bytes" else SV(z3.Int("gp_" + g), "int")
        self.bind_params(f, ps, vs, st, keep=False)
        pnames = st.names
        st.fnentry = st.copy()
        for txt, e in fs.requires:
            st.assume(self.spec_bool(st, e, binds=nbind))
        self.gbinds = nbind
        st.fnentry = st.copy()
        self.reach.append(("%s:precondition" % nm, list(st.pc)))
        items, gh = self.frame_items(st, fs.assigns, binds=nbind)
        se = self.specev(st, binds=nbind)
        frees = self.frees_of(st, fs.frees, binds=nbind)
        # objects allocated for address-taken parameters are ours as well
        nx0 = z3.Int("NXT0")
        st.perm = (Frame(items, nx0, "function", set(gh), frees),)
        self.fnframe = (items, gh, frees, nbind)
        rt = self.cunit.ty(re.sub(r"\(.*$", "", f["type"]["qualType"]).strip()) if "(*" not in f["type"]["qualType"] else None
        outs = self.exec_body(f, st)
        self.npaths += len(outs)
        entry = st.fnentry
        retp = []
        pe = entry
        for _, s, v in outs:
            retp.append(list(s.pc))
            self.line = f["_l"]
            rsv = None
            if v is not None:
                if isinstance(v, StructVal):
                    o = self.alloc(s, iv(sizeofT(v.ty)), "rv")
                    tmp = s.copy(); tmp.mem = v.mem
                    for off, lt_ in leaves(v.ty):
                        rawstore(s, Ptr(o, iv(off)), lt_, rawload(tmp, Ptr(v.ptr.o, add(v.ptr.f, iv(off))), lt_))
                    rsv = SV(Ptr(o, iv(0)), ("lv", v.ty))
                else:
                    if rt is not None and rt.k == "ptr":
                        v = self.asptr(v, f)
                    rsv = SV(v if isinstance(v, Ptr) or (not z3.is_bool(v) and v.sort() == DBL) else toint(v), rt or INT)
            # parameters in postconditions denote their entry values
            s.names = pnames
            env = dict(s.env)
            for pn, (d, t, u) in pnames.items():
                if not isinstance(entry.env[d], tuple):
                    s.env[d] = entry.env[d]
            se_b = dict(nbind)
            for txt, e in fs.rethints:
                g = self.spec_bool(s, e, old=entry, binds=se_b, result=rsv)
                self.ob(s, "%s:hint: %s" % (nm, txt), "hint", g)
            for gname in s.ghost:
                if gname not in gh and not s.ghost[gname].eq(entry.ghost[gname]):
                    pass
            for txt, e in fs.ensures:
                g = self.spec_bool(s, e, old=entry, binds=se_b, result=rsv)
                self.ob(s, "%s:postcondition: %s" % (nm, txt), "post", g, assume=False)
            s.env = env
        self.returns = retp
        for i in fs.loops:
            if not i.startswith("label") and int(i) > f["_nloops"]:
                raise Unbound("loop %s of %s is gone" % (i, nm))
        return outs


BUILTINS = {"snprintf", "sprintf", "malloc", "calloc", "realloc", "free", "memset", "memcpy", "memmove",
            "__errno_location", "__builtin_expect", "exit", "abort"}
