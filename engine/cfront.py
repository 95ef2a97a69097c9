"""C front end: runs clang on the real translation unit (after rsync of /repo's
working tree into a scratch mirror) and reads back the typed AST the compiler
itself built (-ast-dump=json).  No text of the program is rewritten here."""
import json, os, re, subprocess, sys

sys.setrecursionlimit(100000)


class T:
    __slots__ = ("k", "size", "signed", "to", "n", "name", "params", "ret")

    def __init__(self, k, size=0, signed=False, to=None, n=None, name=None):
        self.k = k; self.size = size; self.signed = signed
        self.to = to; self.n = n; self.name = name

    def __repr__(self):
        if self.k == "int":
            return ("i" if self.signed else "u") + str(self.size * 8)
        if self.k == "ptr":
            return repr(self.to) + "*"
        if self.k == "array":
            return "%r[%s]" % (self.to, self.n)
        if self.k == "struct":
            return "struct " + self.name
        return self.k


VOID = T("void", 1)
BOOL = T("int", 1, False, name="_Bool")
CHAR = T("int", 1, True)
UCHAR = T("int", 1, False)
SHORT = T("int", 2, True)
USHORT = T("int", 2, False)
INT = T("int", 4, True)
UINT = T("int", 4, False)
LONG = T("int", 8, True)
ULONG = T("int", 8, False)
DOUBLE = T("float", 8)
FLOAT = T("float", 4)
LDOUBLE = T("float", 16)
FUNC = T("func", 1)


def ptr(t):
    return T("ptr", 8, to=t)


BASE = {
    "void": VOID, "char": CHAR, "signed char": CHAR, "unsigned char": UCHAR,
    "short": SHORT, "unsigned short": USHORT, "int": INT, "unsigned int": UINT,
    "long": LONG, "unsigned long": ULONG, "long long": LONG,
    "unsigned long long": ULONG, "_Bool": BOOL, "bool": BOOL, "double": DOUBLE,
    "float": FLOAT, "long double": LDOUBLE, "unsigned": UINT,
    "short int": SHORT, "long int": LONG, "__int128": T("int", 16, True),
    "unsigned __int128": T("int", 16, False), "_Float128": LDOUBLE,
}


class FrontError(Exception):
    pass


class Unit:
    """one translation unit"""

    def __init__(self, path, flags, root):
        self.path = path
        self.root = root
        r = subprocess.run(
            ["clang", "-w", "-Wno-int-conversion", "-fsyntax-only", "-Xclang", "-ast-dump=json"]
            + flags + [path], cwd=root, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise FrontError("clang failed on %s:\n%s" % (
                path, r.stderr.decode(errors="replace")[-2000:]))
        tu = json.loads(r.stdout)
        self._line = 0
        self._file = ""
        self.typedefs = {}     # name -> (qual, record id or None)
        self.records = {}      # id -> node
        self.recname = {}      # name -> id
        self.enums = {}        # const id -> value
        self.enumname = {}     # const name -> value
        self.funcs = {}        # name -> node with body
        self.protos = {}       # name -> node
        self.vars = {}         # name -> node (globals)
        self.anon = {}
        self.typecache = {}
        self.layouts = {}
        for n in tu.get("inner", []):
            self.fixlines(n)
        for n in tu.get("inner", []):
            self.top(n)

    # clang prints line/file only when they change
    def fixlines(self, n):
        st = [n]
        def loc(l):
            if not l:
                return
            if "spellingLoc" in l or "expansionLoc" in l:
                loc(l.get("spellingLoc")); loc(l.get("expansionLoc"))
                return
            if "file" in l:
                self._file = l["file"]
            if "line" in l:
                self._line = l["line"]
        def rec(x):
            loc(x.get("loc"))
            lf = (self._file, self._line)
            rg = x.get("range")
            if rg:
                loc(rg.get("begin"))
                lf2 = (self._file, self._line)
                loc(rg.get("end"))
            else:
                lf2 = lf
            x["_l"] = lf2
            for c in x.get("inner", ()):
                if c:
                    rec(c)
        rec(n)

    def top(self, n):
        k = n["kind"]
        if k == "TypedefDecl":
            rid = None
            for c in n.get("inner", ()):
                rid = self.find_decl(c)
                if rid:
                    break
            self.typedefs[n["name"]] = (n["type"]["qualType"], rid)
        elif k == "RecordDecl":
            self.record(n)
        elif k == "EnumDecl":
            self.enum(n)
        elif k == "FunctionDecl":
            body = [c for c in n.get("inner", ()) if c["kind"] == "CompoundStmt"]
            if body:
                n["_body"] = body[0]
                n["_unit"] = self
                self.funcs[n["name"]] = n
            self.protos[n["name"]] = n
        elif k == "VarDecl":
            old = self.vars.get(n["name"])
            if old is None or "inner" in n:
                self.vars[n["name"]] = n

    def find_decl(self, c):
        if c.get("kind") in ("RecordType", "EnumType"):
            return c["decl"]["id"]
        if c.get("kind") in ("ElaboratedType",):
            if "ownedTagDecl" in c:
                return c["ownedTagDecl"]["id"]
            for d in c.get("inner", ()):
                r = self.find_decl(d)
                if r:
                    return r
        return None

    def record(self, n):
        for c in n.get("inner", ()):
            if c["kind"] == "RecordDecl":
                self.record(c)
            elif c["kind"] == "EnumDecl":
                self.enum(c)
        if n.get("completeDefinition") or any(
                c["kind"] == "FieldDecl" for c in n.get("inner", ())):
            self.records[n["id"]] = n
            if n.get("name"):
                self.recname[n["name"]] = n["id"]
            # clang names anonymous records by position
            self.anon[(n["_l"])] = n["id"]

    def enum(self, n):
        v = -1
        for c in n.get("inner", ()):
            if c["kind"] != "EnumConstantDecl":
                continue
            got = None
            for d in c.get("inner", ()):
                x = self.constval(d)
                got = x if x is not None else got
            v = got if got is not None else v + 1
            self.enums[c["id"]] = v
            self.enumname[c["name"]] = v

    def constval(self, n):
        if "value" in n and n["kind"] in ("ConstantExpr", "IntegerLiteral",
                                          "CharacterLiteral"):
            return int(n["value"])
        if n["kind"] == "DeclRefExpr":
            return self.enums.get(n["referencedDecl"]["id"])
        k = n["kind"]; cs = [c for c in n.get("inner", ()) if c]
        if k in ("ConstantExpr", "ParenExpr", "ImplicitCastExpr", "CStyleCastExpr", "EnumConstantDecl") and cs:
            v = self.constval(cs[0] if k != "EnumConstantDecl" else cs[0])
            if v is not None and k in ("ImplicitCastExpr", "CStyleCastExpr"):
                t = self.ty(n["type"]["qualType"])
                if t.k != "int":
                    return None
                v &= (1 << (8 * t.size)) - 1
                if t.signed and v >> (8 * t.size - 1):
                    v -= 1 << (8 * t.size)
            return v
        if k == "UnaryOperator" and n.get("opcode") in ("-", "+", "~", "!"):
            v = self.constval(cs[0])
            return None if v is None else {"-": -v, "+": v, "~": ~v, "!": int(not v)}[n["opcode"]]
        if k == "BinaryOperator":
            a, b = self.constval(cs[0]), self.constval(cs[1])
            if a is None or b is None:
                return None
            f = {"|": lambda: a | b, "&": lambda: a & b, "^": lambda: a ^ b, "+": lambda: a + b,
                 "-": lambda: a - b, "*": lambda: a * b, "<<": lambda: a << b, ">>": lambda: a >> b}.get(n.get("opcode"))
            return f() if f else None
        return None

    # ---- types -----------------------------------------------------------
    def ty(self, q):
        t = self.typecache.get(q)
        if t is None:
            t = self.parse_type(q)
            self.typecache[q] = t
        return t

    def parse_type(self, q):
        s = re.sub(r"\b(const|volatile|restrict|__restrict|register|_Atomic)\b",
                   "", q)
        s = re.sub(r"__attribute__\(\(.*?\)\)", "", s)
        s = re.sub(r"\s+", " ", s).strip()
        if "unnamed" in s or "anonymous" in s:
            m = re.match(r"(struct|union|enum) \((?:unnamed|anonymous)(?: struct| union| enum)? at (.*?):(\d+):(\d+)\)(.*)$", s)
            if m:
                if m.group(1) == "enum":
                    base = UINT
                else:
                    rid = None
                    for (f, l), i in self.anon.items():
                        if l == int(m.group(3)):
                            rid = i
                    base = T("struct", name=rid or "?", n=self)
                return self.parse_suffix(base, m.group(5).strip())
        # function pointers / functions
        if "(" in s:
            m = re.match(r"^(.*?)\((\**)\s*((?:\[\d*\])*)\)\s*\(.*\)$", s)
            if m:
                t = FUNC
                for _ in m.group(2):
                    t = ptr(t)
                for d in re.findall(r"\[(\d*)\]", m.group(3))[::-1]:
                    t = T("array", to=t, n=int(d or 0))
                return t
            m = re.match(r"^(.*?)\((\*+)\)((?:\[\d*\])+)$", s)
            if m:   # pointer to array
                b = self.parse_suffix(self.parse_type(m.group(1)), m.group(3))
                for _ in m.group(2):
                    b = ptr(b)
                return b
            return FUNC
        m = re.match(r"^([A-Za-z_][\w ]*?)\s*([\*\[].*)?$", s)
        if not m:
            raise FrontError("type? " + q)
        return self.parse_suffix(self.base(m.group(1).strip()),
                                 (m.group(2) or "").strip())

    def parse_suffix(self, base, suf):
        t = base
        suf = suf.replace(" ", "")
        while suf.startswith("*"):
            t = ptr(t); suf = suf[1:]
        dims = re.findall(r"\[(\d*)\]", suf)
        for d in dims[::-1]:
            t = T("array", to=t, n=int(d or 0))
        return t

    def base(self, b):
        if b in BASE:
            return BASE[b]
        if b.startswith("struct ") or b.startswith("union "):
            nm = b.split(" ", 1)[1]
            return T("struct", name=self.recname.get(nm, nm), n=self)
        if b.startswith("enum "):
            return UINT
        if b in self.typedefs:
            q, rid = self.typedefs[b]
            if q == b:
                return T("struct", name=b, n=self)
            if rid and rid in self.records and not re.search(r"[\*\[]", q):
                return T("struct", name=rid, n=self)
            if b in ("va_list", "__builtin_va_list", "__gnuc_va_list"):
                return ptr(VOID)
            return self.ty(q)
        if b.startswith("__builtin_va_list") or b == "__va_list_tag":
            return ptr(VOID)
        raise FrontError("unknown base type %r in %s" % (b, self.path))

    def layout(self, rid):
        """-> (size, align, {field: (offset, type)})"""
        if rid in self.layouts:
            return self.layouts[rid]
        n = self.records.get(rid)
        if n is None and rid in self.recname:
            return self.layout(self.recname[rid])
        if n is None:
            raise FrontError("incomplete record %s" % rid)
        union = n.get("tagUsed") == "union"
        off = 0; al = 1; fields = {}
        for c in n.get("inner", ()):
            if c["kind"] != "FieldDecl":
                continue
            if c.get("isBitfield"):
                raise FrontError("bitfield")
            t = self.ty(c["type"]["qualType"])
            s, a = self.sizeof(t), self.alignof(t)
            o = 0 if union else (off + a - 1) // a * a
            nm = c.get("name")
            if nm is None:  # anonymous member
                _, _, sub = t.n.layout(t.name)
                for k, (so, st) in sub.items():
                    fields[k] = (o + so, st)
                fields["#" + c["id"]] = (o, t)
            else:
                fields[nm] = (o, t)
            fields["#" + c["id"]] = (o, t)
            off = max(off, s) if union else o + s
            al = max(al, a)
        size = (off + al - 1) // al * al
        self.layouts[rid] = (size, al, fields)
        return self.layouts[rid]

    def sizeof(self, t):
        if t.k == "array":
            return t.n * self.sizeof(t.to)
        if t.k == "struct":
            return t.n.layout(t.name)[0]
        if t.k == "func":
            return 1
        return t.size

    def alignof(self, t):
        if t.k == "array":
            return self.alignof(t.to)
        if t.k == "struct":
            return t.n.layout(t.name)[1]
        return max(1, t.size)

    def recid(self, nm):
        if nm in self.recname:
            return self.recname[nm]
        if nm in self.typedefs:
            t = self.base(nm)
            if t.k == "struct":
                return t.name
        raise FrontError("no record " + nm)
