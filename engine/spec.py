"""Contract language: parser for /verif/contracts/*.spec."""
import re

TOK = re.compile(r"""\s*(?:
 (?P<num>0x[0-9a-fA-F]+|\d+)
|(?P<chr>'(?:\\.|[^'\\])')
|(?P<str>"(?:\\.|[^"\\])*")
|(?P<id>\\?[A-Za-z_][A-Za-z_0-9]*)
|(?P<op><==>|==>|->|&&|\|\||==|!=|<=|>=|<<|>>|[-+*/%<>!?:;,.()\[\]{}&|=])
)""", re.X)

ESC = {"n": 10, "t": 9, "r": 13, "0": 0, "\\": 92, "'": 39, '"': 34, "a": 7,
       "b": 8, "v": 11, "f": 12}


class SpecError(Exception):
    pass


def unescape(s):
    out = []; i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(ESC[s[i + 1]]); i += 2
        else:
            out.append(ord(s[i])); i += 1
    return out


def tokenize(s):
    pos = 0; out = []
    s = s.rstrip()
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise SpecError("bad token at %r" % s[pos:pos + 30])
        pos = m.end()
        k = m.lastgroup; v = m.group(k)
        if k == "num":
            out.append(("num", int(v, 0)))
        elif k == "chr":
            out.append(("num", unescape(v[1:-1])[0]))
        else:
            out.append((k, v))
    out.append(("end", None))
    return out


TYPES = {"int", "char", "bool", "obj", "bytes", "void", "struct", "unsigned",
         "size_t", "long", "double"}


class P:
    def __init__(self, text):
        self.text = text
        self.t = tokenize(text)
        self.i = 0

    def peek(self):
        return self.t[self.i]

    def isop(self, *o):
        k, v = self.t[self.i]
        return k == "op" and v in o

    def next(self):
        x = self.t[self.i]; self.i += 1
        return x

    def expect(self, o):
        if not self.isop(o):
            raise SpecError("expected %s got %r in %r" % (o, self.peek(), self.text))
        self.i += 1

    def parse(self):
        e = self.expr()
        if self.peek()[0] != "end":
            raise SpecError("trailing %r in %r" % (self.peek(), self.text))
        return e

    def expr(self):
        return self.iff()

    def iff(self):
        a = self.imp()
        while self.isop("<==>"):
            self.next(); b = self.imp()
            a = ("iff", a, b)
        return a

    def imp(self):
        a = self.tern()
        if self.isop("==>"):
            self.next(); b = self.imp()
            return ("imp", a, b)
        return a

    def tern(self):
        a = self.lor()
        if self.isop("?"):
            self.next(); b = self.tern_in(); self.expect(":"); c = self.tern()
            return ("ite", a, b, c)
        return a

    def tern_in(self):
        return self.imp()

    def lor(self):
        a = [self.land()]
        while self.isop("||"):
            self.next(); a.append(self.land())
        return a[0] if len(a) == 1 else ("or",) + tuple(a)

    def land(self):
        a = [self.cmp()]
        while self.isop("&&"):
            self.next(); a.append(self.cmp())
        return a[0] if len(a) == 1 else ("and",) + tuple(a)

    def cmp(self):
        a = self.add()
        res = []
        while self.isop("==", "!=", "<", "<=", ">", ">="):
            o = self.next()[1]; b = self.add()
            res.append(("cmp", o, a, b)); a = b
        if not res:
            return a
        return res[0] if len(res) == 1 else ("and",) + tuple(res)

    def add(self):
        a = self.mul()
        while self.isop("+", "-", "&", "|"):
            o = self.next()[1]; b = self.mul()
            a = ("bin", o, a, b)
        return a

    def mul(self):
        a = self.unary()
        while self.isop("*", "/", "%", "<<", ">>"):
            o = self.next()[1]; b = self.unary()
            a = ("bin", o, a, b)
        return a

    def unary(self):
        if self.isop("!"):
            self.next(); return ("not", self.unary())
        if self.isop("-"):
            self.next(); return ("neg", self.unary())
        if self.isop("*"):
            self.next(); return ("deref", self.unary())
        if self.isop("&"):
            self.next(); return ("addr", self.unary())
        return self.postfix()

    def ctype(self):
        """type in a binder: words and stars"""
        k, v = self.next()
        if k != "id":
            raise SpecError("type expected in %r" % self.text)
        s = v
        while s in ("unsigned", "struct", "long", "const") and self.peek()[0] == "id" \
                and (s == "struct" or self.peek()[1] in TYPES):
            s += " " + self.next()[1]
        while self.isop("*"):
            self.next(); s += "*"
        return s

    def binder(self):
        bs = []
        while True:
            t = self.ctype()
            k, v = self.next()
            bs.append((t, v))
            if self.isop(","):
                self.next(); continue
            break
        return bs

    def postfix(self):
        k, v = self.peek()
        if k == "num":
            self.next(); e = ("num", v)
        elif k == "str":
            self.next(); e = ("strlit", v[1:-1])
        elif k == "id" and v in ("\\forall", "\\exists"):
            self.next(); bs = self.binder(); self.expect(";")
            trig = []
            while self.isop("{"):
                self.next(); tl = [self.expr()]
                while self.isop(","):
                    self.next(); tl.append(self.expr())
                self.expect("}"); trig.append(tl)
            return (v[1:], bs, self.expr(), trig)
        elif k == "id" and v == "\\let":
            self.next(); nm = self.next()[1]; self.expect("=")
            a = self.expr(); self.expect(";")
            return ("let", nm, a, self.expr())
        elif k == "id":
            self.next(); e = ("id", v)
        elif k == "op" and v == "(":
            self.next()
            # cast?
            save = self.i
            if self.peek()[0] == "id":
                try:
                    t = self.ctype()
                    if self.isop(")") and t.endswith("*"):
                        self.next()
                        return ("cast", t, self.unary())
                except SpecError:
                    pass
                self.i = save
            e = self.expr(); self.expect(")")
        else:
            raise SpecError("unexpected %r in %r" % ((k, v), self.text))
        while True:
            if self.isop("("):
                self.next(); args = []
                if not self.isop(")"):
                    args.append(self.expr())
                    while self.isop(","):
                        self.next(); args.append(self.expr())
                self.expect(")")
                e = ("call", e[1], args)
            elif self.isop("["):
                self.next(); i = self.expr(); self.expect("]")
                e = ("index", e, i)
            elif self.isop("->"):
                self.next(); e = ("arrow", e, self.next()[1])
            elif self.isop("."):
                self.next(); e = ("dot", e, self.next()[1])
            else:
                return e


def parse_expr(s):
    return P(s).parse()


class LoopSpec:
    def __init__(self):
        self.inv = []; self.assigns = []; self.frees = []; self.variant = None
        self.hints = []; self.ghost = []; self.unroll = 0
        self.mods = []; self.cut = False


class FnSpec:
    def __init__(self, name, src):
        self.name = name; self.src = src
        self.requires = []; self.ensures = []; self.assigns = []
        self.frees = []; self.loops = {}; self.trusted = False; self.imported = None
        self.decreases = None; self.options = {}; self.labels = {}
        self.ghost = []          # (type, name) logical parameters
        self.calls = {}          # callee -> options
        self.params = None       # for libc functions: [(type,name)]
        self.ret = None
        self.noreturn = False
        self.file = None
        self.props = []
        self.inline = False
        self.callhints = []      # (callee, expr) asserted before each call
        self.rethints = []
        self.gassign = []        # ghost assignments after body


class Logic:
    def __init__(self, ret, name, params, body):
        self.ret = ret; self.name = name; self.params = params; self.body = body
        self.fuel = 1


class SpecFile:
    def __init__(self):
        self.fns = {}; self.preds = {}; self.logics = {}; self.order = []
        self.axioms = []; self.lemmas = []; self.ghosts = []
        self.sources = []; self.includes = []


def parse_params(s):
    s = s.strip()
    if not s or s == "void":
        return []
    p = P(s)
    return p.binder()


def load(path, sf=None, basedir=None, seen=None):
    import os
    if sf is None:
        sf = SpecFile()
    seen = seen if seen is not None else set()
    if path in seen:
        return sf
    seen.add(path)
    lines = []
    for raw in open(path):
        l = raw.rstrip("\n")
        l = re.sub(r"(^|\s)//.*$", "", l)
        if not l.strip():
            continue
        # continuation: lines indented deeper starting with '|' or ending '\'
        if lines and lines[-1].endswith("\\"):
            lines[-1] = lines[-1][:-1] + " " + l.strip()
        else:
            lines.append(l)
    src = None; fn = None; loop = None
    for l in lines:
        w = l.split(None, 1)
        kw = w[0]; rest = w[1] if len(w) > 1 else ""
        try:
            if kw == "include":
                load(os.path.join(os.path.dirname(path), rest.strip()), sf, basedir, seen)
                fn = None
            elif kw == "use":      # contracts proved by the check of another file
                was = set(sf.fns)
                load(os.path.join(os.path.dirname(path), rest.strip()), sf, basedir, seen)
                for k in sf.fns:
                    if k not in was and not sf.fns[k].trusted and not sf.fns[k].inline:
                        sf.fns[k].imported = rest.strip()
                fn = None
            elif kw == "source":
                src = rest.strip(); sf.sources.append(src); fn = None
            elif kw in ("pred", "logic"):
                m = re.match(r"(?:(int|bool|bytes|double)\s+)?(\w+)\s*\(([^)]*)\)\s*(?:=\s*(.*))?$", rest)
                if not m:
                    raise SpecError("bad %s: %s" % (kw, rest))
                prm = parse_params(m.group(3))
                body = parse_expr(m.group(4)) if m.group(4) else None
                if kw == "pred":
                    sf.preds[m.group(2)] = (prm, body)
                else:
                    sf.logics[m.group(2)] = Logic(m.group(1), m.group(2), prm, body)
                    sf.order.append(m.group(2))
                fn = None
            elif kw == "fuel":
                a, b = rest.split(); sf.logics[a].fuel = int(b)
            elif kw == "axiom":
                nm, e = rest.split(":", 1)
                sf.axioms.append((nm.strip(), parse_expr(e))); fn = None
            elif kw == "lemma":
                m = re.match(r"(\w+)(?:\s+induct\s+(\w+(?:\s+from\s+\w+)?))?(?:\s+using\s+([\w, ]+?))?\s*:(.*)$", rest)
                if not m:
                    raise SpecError("bad lemma " + rest)
                sf.lemmas.append((m.group(1), m.group(2), parse_expr(m.group(4)), m.group(3)))
                fn = None
            elif kw == "ghost" and fn is None:
                sf.ghosts.append(parse_params(rest)[0])
            elif kw == "fn" or kw == "extern":
                m = re.match(r"(.*?)(\w+)\s*\(([^)]*)\)\s*$", rest)
                if m and kw == "extern":
                    fn = FnSpec(m.group(2), src)
                    fn.ret = m.group(1).strip(); fn.params = parse_params(m.group(3))
                    fn.trusted = True
                else:
                    fn = FnSpec(rest.split()[0], src)
                    if "trusted" in rest.split()[1:]:
                        fn.trusted = True
                    if "inline" in rest.split()[1:]:
                        fn.inline = True
                fn.file = path
                sf.fns[fn.name] = fn; loop = None
            elif fn is None:
                raise SpecError("clause outside fn: " + l)
            elif kw == "requires":
                fn.requires.append((rest, parse_expr(rest)))
            elif kw == "ensures":
                nm = None
                m = re.match(r"@(\w+)\s+(.*)$", rest)
                if m:
                    nm = m.group(1); rest = m.group(2)
                fn.ensures.append((nm or rest, parse_expr(rest)))
            elif kw == "props":
                fn.props = rest.split()
            elif kw == "noreturn":
                fn.noreturn = True
            elif kw == "trusted":
                fn.trusted = True
            elif kw == "ghostparam":
                fn.ghost += parse_params(rest)
            elif kw == "option":
                a = rest.split(None, 1)
                fn.options[a[0]] = a[1] if len(a) > 1 else True
            elif kw == "loop":
                loop = LoopSpec(); fn.loops[rest.strip()] = loop
            elif kw == "endloop":
                loop = None
            elif kw in ("assigns", "frees"):
                tgt = loop if loop is not None else fn
                if rest.strip() != "\\nothing":
                    p = P(rest)
                    while True:
                        getattr(tgt, kw).append(p.expr())
                        if p.isop(","):
                            p.next(); continue
                        break
            elif kw == "invariant":
                loop.inv.append((rest, parse_expr(rest)))
            elif kw == "hint":
                if loop is not None:
                    loop.hints.append((rest, parse_expr(rest)))
                else:
                    fn.rethints.append((rest, parse_expr(rest)))
            elif kw == "before":
                a, b = rest.split(":", 1)
                fn.callhints.append((a.strip(), parse_expr(b)))
            elif kw == "variant":
                loop.variant = parse_expr(rest)
            elif kw == "cut":
                loop.cut = True
            elif kw == "unroll":
                loop.unroll = int(rest)
            elif kw == "decreases":
                fn.decreases = parse_expr(rest)
            elif kw == "gset":      # ghost update on call / at exit: name = e
                a, b = rest.split("=", 1)
                tgt = loop if loop is not None else fn
                fn.gassign.append((a.strip(), parse_expr(b)))
            else:
                raise SpecError("unknown clause " + kw)
        except SpecError as e:
            raise SpecError("%s: %s\n  in: %s" % (path, e, l))
    return sf
