"""Verification-condition generator: forward symbolic execution of the clang
AST, cut at loops (invariants) and calls (contracts).  Every obligation is an
SMT formula; nothing is unrolled and no bound is placed on inputs."""
import itertools, re, time
import z3
from cfront import *
import spec as SP

I = z3.IntSort()
AI = z3.ArraySort(I, I)
AAI = z3.ArraySort(I, AI)
DBL = z3.DeclareSort("Dbl")
ADB = z3.ArraySort(I, DBL)
AADB = z3.ArraySort(I, ADB)
AB = z3.ArraySort(I, z3.BoolSort())
CLASSES = ("b", "h", "i", "l", "po", "pf", "d")
MAXPATHS = 6000


class Unsupported(Exception):
    """construct outside the verifier's reach"""


class Unbound(Exception):
    """a contract or invariant no longer attaches to the code"""


class Ptr:
    __slots__ = ("o", "f")

    def __init__(self, o, f):
        self.o = o; self.f = f

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.o, self.f)


class StructVal:
    def __init__(self, ptr, mem, ty):
        self.ptr = ptr; self.mem = mem; self.ty = ty


class Uninit:
    def __repr__(self):
        return "uninit"


UNINIT = Uninit()
NULL = Ptr(z3.IntVal(0), z3.IntVal(0))


def iv(n):
    return z3.IntVal(n)


def isnum(t):
    return z3.is_int_value(t)


def num(t):
    return t.as_long()


def add(a, b):
    if isnum(a) and isnum(b):
        return iv(num(a) + num(b))
    if isnum(b) and num(b) == 0:
        return a
    if isnum(a) and num(a) == 0:
        return b
    # (x + c1) + c2
    if isnum(b) and z3.is_app_of(a, z3.Z3_OP_ADD) and a.num_args() == 2 and isnum(a.arg(1)):
        return add(a.arg(0), iv(num(a.arg(1)) + num(b)))
    return a + b


def sub(a, b):
    if isnum(b):
        return add(a, iv(-num(b)))
    if a.eq(b):
        return iv(0)
    return a - b


def mul(a, b):
    if isnum(a) and isnum(b):
        return iv(num(a) * num(b))
    if isnum(a):
        a, b = b, a
    if isnum(b) and num(b) == 1:
        return a
    if isnum(b) and num(b) == 0:
        return b
    return a * b


def AND(*l):
    l = [x for x in l if not z3.is_true(x)]
    if any(z3.is_false(x) for x in l):
        return z3.BoolVal(False)
    if not l:
        return z3.BoolVal(True)
    return l[0] if len(l) == 1 else z3.And(*l)


def OR(*l):
    l = [x for x in l if not z3.is_false(x)]
    if any(z3.is_true(x) for x in l):
        return z3.BoolVal(True)
    if not l:
        return z3.BoolVal(False)
    return l[0] if len(l) == 1 else z3.Or(*l)


def NOT(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def IMP(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def eq(a, b):
    if a.eq(b):
        return z3.BoolVal(True)
    if isnum(a) and isnum(b):
        return z3.BoolVal(num(a) == num(b))
    return a == b


def lt(a, b):
    if isnum(a) and isnum(b):
        return z3.BoolVal(num(a) < num(b))
    return a < b


def le(a, b):
    if isnum(a) and isnum(b):
        return z3.BoolVal(num(a) <= num(b))
    return a <= b


def ITE(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def sel(a, i):
    # read-over-write shortcuts
    n = 0
    while z3.is_app_of(a, z3.Z3_OP_STORE) and n < 60:
        j = a.arg(1)
        if j.eq(i):
            return a.arg(2)
        if isnum(j) and isnum(i):
            a = a.arg(0); n += 1; continue
        d = distinct_hint(j, i)
        if d:
            a = a.arg(0); n += 1; continue
        break
    return z3.Select(a, i)


def basek(t):
    """t = base + k"""
    if isnum(t):
        return (None, num(t))
    if z3.is_app_of(t, z3.Z3_OP_ADD) and t.num_args() == 2 and isnum(t.arg(1)):
        return (t.arg(0), num(t.arg(1)))
    return (t, 0)


def distinct_hint(a, b):
    x, k = basek(a); y, l = basek(b)
    if x is None and y is None:
        return k != l
    if x is not None and y is not None and x.eq(y):
        return k != l
    return False


def sto(a, i, v):
    if z3.is_app_of(a, z3.Z3_OP_STORE) and a.arg(1).eq(i):
        a = a.arg(0)
    return z3.Store(a, i, v)


def tobool(v):
    if isinstance(v, Ptr):
        return NOT(eq(v.o, iv(0)))
    if z3.is_bool(v):
        return v
    if v.sort() == DBL:
        return NOT(fcmp("==", v, dblconst("0")))
    return NOT(eq(v, iv(0)))


def toint(v):
    if isinstance(v, Ptr):
        raise Unsupported("pointer used as integer")
    if z3.is_bool(v):
        if z3.is_true(v):
            return iv(1)
        if z3.is_false(v):
            return iv(0)
        return z3.If(v, iv(1), iv(0))
    return v


_dbl = {}


def dblconst(s):
    if s not in _dbl:
        _dbl[s] = z3.Const("dbl!" + s, DBL)
    return _dbl[s]


_fb = {}


def fop(op, *a):
    k = (op, len(a))
    if k not in _fb:
        _fb[k] = z3.Function("f" + {"+": "add", "-": "sub", "*": "mul", "/": "div",
                                    "neg": "neg"}.get(op, op), *([DBL] * len(a) + [DBL]))
    return _fb[k](*a)


_fc = {}


def fcmp(op, a, b):
    if op == "!=":
        return NOT(fcmp("==", a, b))
    if op not in _fc:
        _fc[op] = z3.Function("fcmp_" + {"==": "eq", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[op],
                              DBL, DBL, z3.BoolSort())
    return _fc[op](a, b)


I2D = z3.Function("i2d", I, DBL)
D2I = z3.Function("d2i", DBL, I)
ADDR = z3.Function("addr_of", I, I, I)
BAND = z3.Function("band", I, I, I)
POW2 = z3.Function("pow2", I, I)
SLEN = z3.Function("slen", AI, I, I)


def irange(t):
    if t.name == "_Bool":
        return 0, 1
    b = 8 * t.size
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t.signed else (0, (1 << b) - 1)


def inrange(x, t):
    lo, hi = irange(t)
    return AND(le(iv(lo), x), le(x, iv(hi)))


def wrapto(x, t, src=None):
    """conversion of integer x to integer type t (modular)"""
    if t.name == "_Bool":
        return toint(NOT(eq(x, iv(0))))
    lo, hi = irange(t)
    m = hi - lo + 1
    if isnum(x):
        return iv((num(x) - lo) % m + lo)
    if src is not None:
        a, b = irange(src)
        if lo <= a and b <= hi:
            return x
        if a >= lo - m and b <= hi + m:
            r = x
            if a < lo:
                r = ITE(lt(x, iv(lo)), add(x, iv(m)), r)
            if b > hi:
                r = z3.If(x > hi, add(x, iv(-m)), r)
            return r
    return z3.If(z3.And(x >= lo, x <= hi), x, (x - lo) % m + lo)


def bandc(x, c):
    """x & c, c constant (two's complement, mathematical)"""
    if c == 0:
        return iv(0)
    if c < 0:
        return sub(x, bandc(x, -c - 1)) if c != -1 else x
    if isnum(x):
        return iv(num(x) & c)
    if z3.is_app_of(x, z3.Z3_OP_ITE) and (isnum(x.arg(1)) or isnum(x.arg(2))):
        return ITE(x.arg(0), bandc(x.arg(1), c), bandc(x.arg(2), c))
    parts = []; k = 0
    while c >> k:
        if (c >> k) & 1:
            l = k
            while (c >> k) & 1:
                k += 1
            w = k - l
            q = x if l == 0 else x / iv(1 << l)
            q = q % iv(1 << w)
            parts.append(mul(q, iv(1 << l)))
        else:
            k += 1
    r = parts[0]
    for p in parts[1:]:
        r = r + p
    return r


def band(x, y):
    if isnum(y):
        return bandc(x, num(y))
    if isnum(x):
        return bandc(y, num(x))
    for a, b in ((x, y), (y, x)):
        if z3.is_app_of(a, z3.Z3_OP_ITE) and isnum(a.arg(1)) and isnum(a.arg(2)):
            return ITE(a.arg(0), bandc(b, num(a.arg(1))), bandc(b, num(a.arg(2))))
    return BAND(x, y)


def objconst(t):
    """creation number of a fresh object-id constant"""
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        n = t.decl().name()
        if n.endswith(".o") and "!" in n:
            return int(n[n.rindex("!") + 1:-2])
    return None


class VC:
    __slots__ = ("fn", "name", "kind", "line", "hyps", "goal", "lemmas")

    def __init__(self, fn, name, kind, line, hyps, goal):
        self.fn = fn; self.name = name; self.kind = kind; self.line = line
        self.hyps = hyps; self.goal = goal


class State:
    __slots__ = ("env", "names", "mem", "sz", "alive", "nxt", "pc", "ghost",
                 "perm", "entry", "fnentry", "gotos", "labels", "unit", "feas", "callmarks")

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.names = self.names; s.mem = dict(self.mem)
        s.sz = self.sz; s.alive = self.alive; s.nxt = self.nxt
        s.pc = list(self.pc); s.ghost = dict(self.ghost); s.perm = self.perm
        s.entry = self.entry; s.fnentry = self.fnentry; s.gotos = self.gotos
        s.labels = self.labels; s.unit = self.unit; s.feas = self.feas
        s.callmarks = self.callmarks
        return s

    def assume(self, f):
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.pc.append(f)
        if z3.is_eq(f):
            self.alias(f)
        elif z3.is_not(f) and z3.is_eq(f.arg(0)):
            # r != NULL makes the non-null clauses of a contract unconditional
            for g in self.pc[-60:-1]:
                if z3.is_implies(g) and g.arg(0).eq(f):
                    self.aliases(g.arg(1))

    def aliases(self, g):
        if z3.is_and(g):
            for c in g.children():
                self.aliases(c)
        elif z3.is_eq(g):
            self.alias(g)

    def alias(self, f):
        """x.o == t : use t as the object of every variable holding x"""
        a, b = f.arg(0), f.arg(1)
        if a.sort() != I:
            return
        ka, kb = objconst(a), objconst(b)
        if ka is None and kb is None:
            return
        if kb is None and isnum(b) and num(b) == 0 or ka is None and isnum(a) and num(a) == 0:
            return
        if ka is None or (kb is not None and kb > ka):
            a, b = b, a
        if objconst(a) is None or occurs(a, b):
            return
        for k, v in self.env.items():
            if isinstance(v, Ptr) and v.o.eq(a):
                self.env[k] = Ptr(b, v.f)


class SV:
    """value in a specification"""
    __slots__ = ("v", "t")

    def __init__(self, v, t):
        self.v = v; self.t = t


class Frame:
    def __init__(self, items, nxt, name, ghosts, frees):
        self.items = items; self.nxt = nxt; self.name = name
        self.ghosts = ghosts; self.frees = frees


class Theory:
    """logic functions, axioms, lemmas of a spec file -> background axioms"""

    def __init__(self, sf, units):
        self.sf = sf
        self.units = units
        self.fd = {}
        self.fuel = {}
        for nm, l in sf.logics.items():
            sorts = []
            for t, _ in l.params:
                if t in ("char*",):
                    sorts += [AI, I]
                elif t == "bytes":
                    sorts.append(AI)
                elif t == "bool":
                    sorts.append(z3.BoolSort())
                elif t == "double":
                    sorts.append(DBL)
                else:
                    sorts.append(I)
            r = {"int": I, None: I, "bool": z3.BoolSort(), "bytes": AI, "double": DBL}[l.ret]
            self.fd[nm] = z3.Function(nm, *(sorts + [r]))
            if l.body is not None and self.mentions(l.body, nm):
                self.fuel[nm] = [z3.Function(nm + "_%d" % k, *(sorts + [r]))
                                 for k in range(l.fuel)]
        self.cur_fuel = None
        self.usesdbl = any(l.ret == "double" for l in sf.logics.values())

    def mentions(self, e, nm):
        if isinstance(e, tuple):
            if len(e) > 1 and e[0] == "call" and e[1] == nm:
                return True
            return any(self.mentions(x, nm) for x in e)
        if isinstance(e, list):
            return any(self.mentions(x, nm) for x in e)
        return False

    def deps(self, e, acc):
        if isinstance(e, tuple):
            if len(e) > 1 and e[0] == "call":
                acc.add(e[1])
            for x in e:
                self.deps(x, acc)
        elif isinstance(e, list):
            for x in e:
                self.deps(x, acc)

    def base_axioms(self):
        a = z3.Const("a", AI); o, j, k = z3.Ints("o j k")
        ax = []
        ax.append(z3.ForAll([a, o], SLEN(a, o) >= 0, patterns=[SLEN(a, o)]))
        ax.append(z3.ForAll([a, o, j],
                            z3.Implies(z3.And(j >= o, z3.Select(a, j) == 0),
                                       z3.And(z3.Select(a, o + SLEN(a, o)) == 0,
                                              SLEN(a, o) <= j - o)),
                            patterns=[z3.MultiPattern(SLEN(a, o), z3.Select(a, j))]))
        ax.append(z3.ForAll([a, o, j],
                            z3.Implies(z3.And(j >= o, j < o + SLEN(a, o)),
                                       z3.Select(a, j) != 0),
                            patterns=[z3.MultiPattern(SLEN(a, o), z3.Select(a, j))]))
        if self.usesdbl:    # integers of 32 bits are doubles exactly
            rng = z3.And(j >= -(1 << 31), j < (1 << 31), k >= -(1 << 31), k < (1 << 31))
            for op, r in (("==", j == k), ("<", j < k), ("<=", j <= k), (">", j > k), (">=", j >= k)):
                t = fcmp(op, I2D(j), I2D(k))
                ax.append(z3.ForAll([j, k], z3.Implies(rng, t == r), patterns=[t]))
        return ax

    def logic_axioms(self, nm):
        """definitional axioms for logic function nm"""
        l = self.sf.logics[nm]
        if l.body is None:
            return []
        vs = []; binds = {}
        for t, p in l.params:
            if t == "char*":
                a = z3.Const(p + "_a", AI); o = z3.Int(p + "_o")
                vs += [a, o]; binds[p] = SV(("str", a, o), "lstr")
            elif t == "bytes":
                a = z3.Const(p, AI); vs.append(a); binds[p] = SV(a, "bytes")
            elif t == "bool":
                a = z3.Bool(p); vs.append(a); binds[p] = SV(a, "bool")
            else:
                a = z3.Int(p); vs.append(a); binds[p] = SV(a, "int")
        out = []
        ev = SpecEval(self, None, None, binds)
        lv = self.fuel.get(nm)
        if not lv:
            b = ev.ev(l.body)
            f = self.fd[nm](*vs)
            b = tobool(b.v) if l.ret == "bool" else (toint(b.v) if l.ret != "bytes" else b.v)
            out.append(z3.ForAll(vs, f == b, patterns=[f]) if vs else f == b)
            return out
        fns = [self.fd[nm]] + lv
        for k in range(len(fns) - 1):
            ev.override = {nm: fns[k + 1]}
            b = ev.ev(l.body)
            b = tobool(b.v) if l.ret == "bool" else toint(b.v)
            f = fns[k](*vs)
            out.append(z3.ForAll(vs, f == b, patterns=[f]))
            out.append(z3.ForAll(vs, f == fns[k + 1](*vs), patterns=[f]))
        return out


class SpecEval:
    """evaluates specification expressions in a state"""

    def __init__(self, th, st, old, binds, eng=None, result=None, names=True, entry=None):
        self.th = th; self.st = st; self.old = old; self.b = dict(binds)
        self.eng = eng; self.result = result; self.names = names
        self.override = {}
        self.entry = entry
        self.side = []
        self.qdepth = 0
        self.prev = None

    def sub(self, **kw):
        n = SpecEval(self.th, self.st, self.old, self.b, self.eng, self.result,
                     self.names, self.entry)
        n.override = self.override
        n.side = self.side
        n.qdepth = self.qdepth
        n.prev = self.prev
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def cty(self, s):
        s = s.strip()
        if s.endswith("*"):
            return ptr(self.cty(s[:-1]))
        if s in BASE:
            return BASE[s]
        if s.startswith("struct "):
            s = s[7:]
        for u in self.th.units:
            if s in u.recname or s in u.typedefs:
                return u.base(s) if s in u.typedefs else T("struct", name=u.recname[s], n=u)
        raise SP.SpecError("unknown type " + s)

    def boolv(self, e):
        return tobool(self.ev(e).v)

    def intv(self, e):
        v = self.ev(e)
        return toint(v.v)

    def ptrv(self, e):
        v = self.ev(e)
        if isinstance(v.v, Ptr):
            return v
        if isinstance(v.v, tuple) and v.v[0] == "str":
            return v
        if not isinstance(v.v, tuple) and z3.is_int_value(v.v) and num(v.v) == 0:
            return SV(NULL, ptr(VOID))
        raise SP.SpecError("pointer expected: %r" % (e,))

    def bytesof(self, p):
        """(array, off) of a char pointer value"""
        if isinstance(p.v, tuple) and p.v[0] == "str":
            return p.v[1], p.v[2]
        if isinstance(p.v, Ptr):
            return sel(self.st.mem["b"], p.v.o), p.v.f
        raise SP.SpecError("bytes expected")

    def ev(self, e):
        k = e[0]
        m = getattr(self, "e_" + k)
        return m(e)

    def e_num(self, e):
        return SV(iv(e[1]), "int")

    def e_strlit(self, e):
        return SV(("lit", SP.unescape(e[1])), "lit")

    def e_id(self, e):
        n = e[1]
        if n in self.b:
            return self.b[n]
        if n == "\\result":
            return self.result
        if n in ("\\null", "NULL"):
            return SV(NULL, ptr(VOID))
        if n == "\\oom":
            return SV(z3.Bool("OOM"), "bool")
        if n == "\\true":
            return SV(z3.BoolVal(True), "bool")
        if n == "\\false":
            return SV(z3.BoolVal(False), "bool")
        if self.st is not None and n in self.st.ghost:
            g = self.st.ghost[n]
            return SV(g, "bytes" if g.sort() == AI else "int")
        if n in self.th.fd and not self.th.sf.logics[n].params:
            l = self.th.sf.logics[n]
            return SV(self.th.fd[n](), {None: "int"}.get(l.ret, l.ret))
        if self.eng is not None and self.st is not None:
            v = self.eng.spec_name(n, self.st, self.names)
            if v is not None:
                return v
        for u in self.th.units:
            if n in u.enumname:
                return SV(iv(u.enumname[n]), "int")
        raise Unbound("name %s is not visible here" % n)

    def e_not(self, e):
        return SV(NOT(self.boolv(e[1])), "bool")

    def e_neg(self, e):
        return SV(sub(iv(0), self.intv(e[1])), "int")

    def e_and(self, e):
        return SV(AND(*[self.boolv(x) for x in e[1:]]), "bool")

    def e_or(self, e):
        return SV(OR(*[self.boolv(x) for x in e[1:]]), "bool")

    def e_imp(self, e):
        return SV(IMP(self.boolv(e[1]), self.boolv(e[2])), "bool")

    def e_iff(self, e):
        return SV(self.boolv(e[1]) == self.boolv(e[2]), "bool")

    def e_ite(self, e):
        c = self.boolv(e[1]); a = self.ev(e[2]); b = self.ev(e[3])
        if isinstance(a.v, Ptr) or isinstance(b.v, Ptr):
            av = self.ptrof(a); bv = self.ptrof(b)
            return SV(Ptr(ITE(c, av.o, bv.o), ITE(c, av.f, bv.f)), a.t if isinstance(a.v, Ptr) else b.t)
        if a.t == "bytes":
            return SV(ITE(c, a.v, b.v), "bytes")
        if z3.is_bool(a.v) and z3.is_bool(b.v):
            return SV(ITE(c, a.v, b.v), "bool")
        return SV(ITE(c, toint(a.v), toint(b.v)), "int")

    def ptrof(self, a):
        if isinstance(a.v, Ptr):
            return a.v
        if isnum(a.v) and num(a.v) == 0:
            return NULL
        raise SP.SpecError("pointer expected")

    def e_cmp(self, e):
        o = e[1]; a = self.ev(e[2]); b = self.ev(e[3])
        if isinstance(a.v, Ptr) or isinstance(b.v, Ptr):
            x = self.ptrof(a); y = self.ptrof(b)
            if o in ("==", "!="):
                if y is NULL:
                    r = eq(x.o, iv(0))
                elif x is NULL:
                    r = eq(y.o, iv(0))
                else:
                    r = AND(eq(x.o, y.o), eq(x.f, y.f))
                return SV(r if o == "==" else NOT(r), "bool")
            a = SV(x.f, "int"); b = SV(y.f, "int")
            # relational comparison of pointers: same object
            r = {"<": lt(a.v, b.v), "<=": le(a.v, b.v), ">": lt(b.v, a.v), ">=": le(b.v, a.v)}[o]
            return SV(AND(eq(x.o, y.o), r), "bool")
        if a.t == "bytes":
            return SV(a.v == b.v if o == "==" else a.v != b.v, "bool")
        if z3.is_bool(a.v) and z3.is_bool(b.v):
            return SV(a.v == b.v if o == "==" else a.v != b.v, "bool")
        x, y = a.v, b.v
        if not z3.is_bool(x) and x.sort() == DBL:
            return SV(x == y if o == "==" else x != y, "bool")
        x, y = toint(x), toint(y)
        r = {"==": lambda: eq(x, y), "!=": lambda: NOT(eq(x, y)), "<": lambda: lt(x, y),
             "<=": lambda: le(x, y), ">": lambda: lt(y, x), ">=": lambda: le(y, x)}[o]()
        return SV(r, "bool")

    def e_bin(self, e):
        o = e[1]; a = self.ev(e[2]); b = self.ev(e[3])
        if isinstance(a.v, Ptr) and o in "+-":
            s = self.esize(a.t)
            if isinstance(b.v, Ptr):
                d = sub(a.v.f, b.v.f)
                return SV(d if s == 1 else d / iv(s), "int")
            k = mul(toint(b.v), iv(s))
            return SV(Ptr(a.v.o, add(a.v.f, k) if o == "+" else sub(a.v.f, k)), a.t)
        if isinstance(a.v, tuple) and a.v[0] == "str" and o == "+":
            return SV(("str", a.v[1], add(a.v[2], toint(b.v))), "lstr")
        x, y = toint(a.v), toint(b.v)
        if o == "+":
            return SV(add(x, y), "int")
        if o == "-":
            return SV(sub(x, y), "int")
        if o == "*":
            return SV(mul(x, y), "int")
        if o == "/":
            return SV(x / y, "int")
        if o == "%":
            return SV(x % y, "int")
        if o == "&":
            return SV(band(x, y), "int")
        if o == "|":
            return SV(sub(add(x, y), band(x, y)), "int")
        if o == "<<":
            if isnum(y):
                return SV(mul(x, iv(1 << num(y))), "int")
        if o == ">>":
            if isnum(y):
                return SV(x / iv(1 << num(y)), "int")
        raise SP.SpecError("op " + o)

    def esize(self, t):
        if isinstance(t, T) and t.k == "ptr":
            if t.to.k == "void":
                return 1
            return self.th.units[0].sizeof(t.to)
        return 1

    def e_index(self, e):
        a = self.ev(e[1]); i = self.intv(e[2])
        if a.t == "bytes":
            return SV(sel(a.v, i), "int")
        if isinstance(a.v, tuple) and a.v[0] == "str":
            return SV(sel(a.v[1], add(a.v[2], i)), "int")
        if isinstance(a.v, tuple) and a.v[0] == "lit":
            r = iv(0)
            for n, c in enumerate(a.v[1]):
                r = ITE(eq(i, iv(n)), iv(c), r)
            return SV(r, "int")
        if isinstance(a.v, Ptr):
            s = self.esize(a.t)
            p = Ptr(a.v.o, add(a.v.f, mul(i, iv(s))))
            return self.load(p, a.t.to)
        raise SP.SpecError("cannot index %r" % (e,))

    def load(self, p, t):
        if t.k == "struct":
            return SV(p, ("lv", t))
        if t.k == "array":
            return SV(p, ptr(t.to))
        v = rawload(self.st, p, t)
        if self.qdepth == 0 and not isinstance(v, Ptr) and t.k == "int":
            self.side.append(inrange(v, t))
        if isinstance(v, Ptr) and self.qdepth == 0:
            self.side.append(AND(lt(v.o, self.st.nxt), IMP(eq(v.o, iv(0)), eq(v.f, iv(0))), lt(sel(self.st.sz, v.o), iv(1 << 48))))
        return SV(v, t)

    def e_deref(self, e):
        a = self.ptrv(e[1])
        if isinstance(a.v, tuple):
            return SV(sel(a.v[1], a.v[2]), "int")
        return self.load(a.v, a.t.to)

    def e_addr(self, e):
        # address of field: only p->f, g, or a[i]
        x = e[1]
        if x[0] == "arrow":
            a = self.ptrv(x[1])
            o, t = a.t.to.n.layout(a.t.to.name)[2][x[2]]
            return SV(Ptr(a.v.o, add(a.v.f, iv(o))), ptr(t))
        if x[0] == "index":
            a = self.ptrv(x[1]); i = self.intv(x[2])
            return SV(Ptr(a.v.o, add(a.v.f, mul(i, iv(self.esize(a.t))))), a.t)
        if x[0] == "id":
            r = self.eng.spec_addr(x[1], self.st)
            if r is not None:
                return r
        raise SP.SpecError("address of %r" % (e,))

    def field(self, a, f):
        t = a.t
        if isinstance(t, tuple) and t[0] == "lv":
            st = t[1]; p = a.v
        elif isinstance(t, T) and t.k == "ptr" and t.to.k == "struct":
            st = t.to; p = a.v
        else:
            raise SP.SpecError("not a struct pointer: .%s" % f)
        fl = st.n.layout(st.name)[2]
        if f not in fl:
            raise Unbound("field %s is gone" % f)
        o, ft = fl[f]
        return self.load(Ptr(p.o, add(p.f, iv(o))), ft)

    def e_arrow(self, e):
        return self.field(self.ptrv(e[1]), e[2])

    def e_dot(self, e):
        return self.field(self.ev(e[1]), e[2])

    def e_cast(self, e):
        a = self.ptrv(e[2])
        return SV(a.v, self.cty(e[1]))

    def e_let(self, e):
        v = self.ev(e[2])
        return self.sub(b=dict(self.b, **{e[1]: v})).ev(e[3])

    def quant(self, e, univ):
        bs = e[1]
        nb = dict(self.b); vs = []; rng = []
        for t, n in bs:
            v = z3.FreshConst(I, n)
            if t == "bytes":
                v = z3.FreshConst(AI, n); nb[n] = SV(v, "bytes"); vs.append(v); continue
            if t == "str":
                f = z3.FreshConst(I, n + "f"); v = z3.FreshConst(AI, n)
                nb[n] = SV(("str", v, f), "lstr"); vs += [v, f]; continue
            if t.endswith("*"):
                f = z3.FreshConst(I, n + "f")
                nb[n] = SV(Ptr(v, f), self.cty(t)); vs += [v, f]; continue
            nb[n] = SV(v, "int"); vs.append(v)
        se = self.sub(b=nb, qdepth=self.qdepth + 1)
        body = se.boolv(e[2])
        trig = []
        for tl in e[3]:
            tt = [x.v.o if isinstance(x.v, Ptr) else x.v for x in (se.ev(y) for y in tl)]
            trig.append(tt)
        return SV(mkquant(univ, vs, body, trig), "bool")

    def e_forall(self, e):
        return self.quant(e, True)

    def e_exists(self, e):
        return self.quant(e, False)

    def e_call(self, e):
        n = e[1]; a = e[2]
        if n == "\\old":
            if self.old is None:
                raise SP.SpecError("\\old outside contract")
            return self.sub(st=self.old).ev(a[0])
        if n == "\\entry":
            if self.entry is None:
                raise SP.SpecError("\\entry outside loop")
            return self.sub(st=self.entry).ev(a[0])
        if n == "\\prev":      # value at the start of this iteration (loop hints)
            if self.prev is None:
                raise SP.SpecError("\\prev outside loop hint")
            return self.sub(st=self.prev).ev(a[0])
        if n == "\\len":
            ar, o = self.bytesof(self.ptrv(a[0]))
            return SV(SLEN(ar, o), "int")
        if n == "\\str":
            p = self.ptrv(a[0])
            ar, o = self.bytesof(p)
            s = self.st
            return SV(AND(NOT(eq(p.v.o, iv(0))), sel(s.alive, p.v.o), le(iv(0), o),
                          lt(add(o, SLEN(ar, o)), sel(s.sz, p.v.o)), le(iv(0), SLEN(ar, o)),
                          eq(sel(ar, add(o, SLEN(ar, o))), iv(0))), "bool")
        if n == "\\valid":
            p = self.ptrv(a[0]); s = self.st
            sz = self.intv(a[1]) if len(a) > 1 else iv(self.esize(p.t))
            return SV(AND(NOT(eq(p.v.o, iv(0))), sel(s.alive, p.v.o), le(iv(0), p.v.f),
                          le(add(p.v.f, sz), sel(s.sz, p.v.o))), "bool")
        if n == "\\obj":
            return SV(self.ptrv(a[0]).v.o, "int")
        if n == "\\off":
            p = self.ptrv(a[0]).v
            return SV(p[2] if isinstance(p, tuple) else p.f, "int")
        if n == "\\allocated":   # true of every pointer the program can hold
            return SV(lt(self.ptrv(a[0]).v.o, self.st.nxt), "bool")
        if n == "\\size":
            return SV(sel(self.st.sz, self.ptrv(a[0]).v.o), "int")
        if n == "\\alive":
            return SV(sel(self.st.alive, self.ptrv(a[0]).v.o), "bool")
        if n == "\\sizeof":
            return SV(iv(self.th.units[0].sizeof(self.cty(a[0][1]))), "int")
        if n == "\\fresh":
            p = self.ptrv(a[0])
            return SV(AND(le(self.old.nxt, p.v.o), lt(p.v.o, self.st.nxt)), "bool")
        if n == "\\newin":    # allocated since the loop was entered
            return SV(le(self.entry.nxt, self.ptrv(a[0]).v.o), "bool")
        if n == "\\bytes":
            p = self.ev(a[0])
            if p.t == "bytes":
                return p
            return SV(self.bytesof(p)[0], "bytes")
        if n == "\\same":      # bytes of object unchanged since old
            p = self.ptrv(a[0])
            return SV(sel(self.st.mem["b"], p.v.o) == sel(self.old.mem["b"], p.v.o), "bool")
        if n == "\\sameobj":   # whole object unchanged in every class
            p = self.ptrv(a[0])
            return SV(AND(*[sel(self.st.mem[c], p.v.o) == sel(self.old.mem[c], p.v.o)
                            for c in CLASSES]), "bool")
        if n == "\\min":
            x, y = self.intv(a[0]), self.intv(a[1])
            return SV(ITE(le(x, y), x, y), "int")
        if n == "\\max":
            x, y = self.intv(a[0]), self.intv(a[1])
            return SV(ITE(le(x, y), y, x), "int")
        if n == "\\abs":
            x = self.intv(a[0])
            return SV(ITE(le(iv(0), x), x, sub(iv(0), x)), "int")
        if n == "\\int":
            return SV(self.intv(a[0]), "int")
        if n == "\\pow2":
            return SV(POW2(self.intv(a[0])), "int")
        if n == "\\store":
            x = self.ev(a[0])
            return SV(sto(x.v, self.intv(a[1]), self.intv(a[2])), "bytes")
        if n == "\\mk":   # pointer from (obj, off) typed like third argument
            t = self.ptrv(a[2]).t if len(a) > 2 else ptr(CHAR)
            return SV(Ptr(self.intv(a[0]), self.intv(a[1])), t)
        if n == "\\addrint":
            p = self.ptrv(a[0]).v
            return SV(ADDR(p.o, p.f), "int")
        if n == "\\func":
            return SV(self.eng.funcptr(a[0][1]), ptr(FUNC))
        if n == "\\i2d":
            return SV(I2D(self.intv(a[0])), "double")
        if n in ("\\feq", "\\flt", "\\fle", "\\fgt", "\\fge"):    # comparison of doubles (IEEE)
            return SV(fcmp({"eq": "==", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[n[2:]], self.ev(a[0]).v, self.ev(a[1]).v), "bool")
        if n in self.th.sf.preds:
            prm, body = self.th.sf.preds[n]
            if len(prm) != len(a):
                raise SP.SpecError("arity of " + n)
            nb = {}
            for (t, p), x in zip(prm, a):
                v = self.ev(x)
                if t.endswith("*"):
                    if isinstance(v.v, Ptr):
                        v = SV(v.v, self.cty(t))
                    elif not isinstance(v.v, tuple):
                        v = SV(self.ptrof(v), self.cty(t))
                nb[p] = v
            ne = self.sub(b=nb, names=False)
            return ne.ev(body)
        if n in self.th.fd:
            l = self.th.sf.logics[n]
            if len(l.params) != len(a):
                raise SP.SpecError("arity of " + n)
            args = []
            for (t, p), x in zip(l.params, a):
                v = self.ev(x)
                if t == "char*":
                    if v.t == "lit":
                        v = SV(Ptr(iv(self.eng.litid(v.v[1])), iv(0)), ptr(CHAR))
                    ar, o = self.bytesof(v if not (not isinstance(v.v, (Ptr, tuple))) else v)
                    args += [ar, o]
                elif t == "bytes":
                    if v.t != "bytes":
                        v = SV(self.bytesof(v)[0], "bytes")
                    args.append(v.v)
                elif t == "bool":
                    args.append(tobool(v.v))
                elif t == "double":
                    args.append(v.v)
                elif isinstance(v.v, Ptr):
                    args.append(v.v.o)
                else:
                    args.append(toint(v.v))
            f = self.override.get(n, self.th.fd[n])
            r = f(*args)
            return SV(r, "bool" if l.ret == "bool" else (l.ret or "int"))
        raise SP.SpecError("unknown function %s" % n)


def subterms(t, acc=None, seen=None):
    st = [t]; seen = set(); out = []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        if z3.is_app(x):
            st.extend(x.children())
        elif z3.is_quantifier(x):
            pass
    return out


def occurs(v, t):
    if t.eq(v):
        return True
    if z3.is_app(t):
        return any(occurs(v, c) for c in t.children())
    if z3.is_quantifier(t):
        return occurs(v, t.body())
    return False


def mkquant(univ, vs, body, trig):
    """quantifier; when there is one integer variable used as a string index
    base+k, re-base the quantifier so that array reads are indexed by the
    bound variable itself (one version per base)"""
    if trig:
        pats = [z3.MultiPattern(*t) if len(t) > 1 else t[0] for t in trig]
        return (z3.ForAll if univ else z3.Exists)(vs, body, patterns=pats)
    if not univ:
        return z3.Exists(vs, body)
    if len(vs) == 1 and vs[0].sort() == I:
        k = vs[0]
        bases = []
        for s in subterms(body):
            if z3.is_app_of(s, z3.Z3_OP_SELECT) and s.arg(1).sort() == I and s.sort() == I \
                    and not occurs(k, s.arg(0)) and occurs(k, s.arg(1)):
                b = z3.simplify(s.arg(1) - k)
                if not occurs(k, b) and not any(b.eq(x) for x in bases):
                    bases.append(b)
        if bases:
            out = []
            for b in bases[:3]:
                j = z3.FreshConst(I, "j")
                nb = z3.substitute(body, (k, j - b))
                # normalise indices
                nb2, pats = normidx(nb, j)
                if pats:
                    out.append(z3.ForAll([j], nb2, patterns=pats[:4]))
                else:
                    out.append(z3.ForAll([j], nb2))
            return AND(*out)
    return z3.ForAll(vs, body)


def normidx(body, j):
    pats = []
    reps = []
    for s in subterms(body):
        if z3.is_app_of(s, z3.Z3_OP_SELECT) and s.arg(1).sort() == I and occurs(j, s.arg(1)) \
                and not occurs(j, s.arg(0)):
            i2 = z3.simplify(s.arg(1))
            ns = z3.Select(s.arg(0), i2)
            reps.append((s, ns))
            if i2.eq(j) and not any(ns.eq(p) for p in pats):
                pats.append(ns)
    if reps:
        body = z3.substitute(body, *reps)
    pats = [p for p in pats if patok(p.arg(0))]
    return body, pats


def patok(t):
    # patterns must not contain interpreted boolean structure (ite/quantifier)
    for s in subterms(t):
        if z3.is_app_of(s, z3.Z3_OP_ITE) or z3.is_quantifier(s):
            return False
    return True


def cls(t):
    if t.k == "int":
        return {1: "b", 2: "h", 4: "i", 8: "l"}[t.size]
    if t.k == "float":
        return "d"
    if t.k in ("ptr",):
        return "p"
    raise Unsupported("memory class of %r" % t)


def leaves(t, off=0):
    """scalar leaves of a type: (offset, type)"""
    if t.k == "array":
        s = t.to.n.sizeof(t.to) if t.to.k == "struct" else sizeofT(t.to)
        for i in range(t.n):
            yield from leaves(t.to, off + i * s)
    elif t.k == "struct":
        for nm, (o, ft) in t.n.layout(t.name)[2].items():
            if nm.startswith("#"):
                yield from leaves(ft, off + o)
    else:
        yield off, t


def sizeofT(t):
    if t.k == "array":
        return t.n * sizeofT(t.to)
    if t.k == "struct":
        return t.n.layout(t.name)[0]
    return t.size or 1


def leafclasses(t, depth=0):
    """memory classes a type occupies; None = all"""
    if t.k in ("void", "func"):
        return None
    if t.k == "array":
        return leafclasses(t.to)
    if t.k == "struct":
        r = set()
        try:
            fl = t.n.layout(t.name)[2]
        except FrontError:
            return None
        for nm, (o, ft) in fl.items():
            c = leafclasses(ft)
            if c is None:
                return None
            r |= c
        return r
    c = cls(t)
    return {"po", "pf"} if c == "p" else {c}


def rawload(st, p, t):
    c = cls(t)
    if c == "p":
        return Ptr(sel(sel(st.mem["po"], p.o), p.f), sel(sel(st.mem["pf"], p.o), p.f))
    v = sel(sel(st.mem[c], p.o), p.f)
    if t.k == "int" and not t.signed and t.name != "_Bool":
        # stored in signed canonical form
        m = 1 << (8 * t.size)
        if isnum(v):
            return iv(num(v) % m)
        return z3.If(v < 0, v + m, v)
    return v


def rawstore(st, p, t, v):
    c = cls(t)
    if c == "p":
        st.mem["po"] = sto(st.mem["po"], p.o, sto(sel(st.mem["po"], p.o), p.f, v.o))
        st.mem["pf"] = sto(st.mem["pf"], p.o, sto(sel(st.mem["pf"], p.o), p.f, v.f))
        return
    if t.k == "int" and not t.signed and t.name != "_Bool":
        m = 1 << (8 * t.size)
        v = toint(v)
        v = iv(num(v) - m if num(v) >= m // 2 else num(v)) if isnum(v) else z3.If(v >= m // 2, v - m, v)
    elif t.k == "int":
        v = toint(v)
    st.mem[c] = sto(st.mem[c], p.o, sto(sel(st.mem[c], p.o), p.f, v))
