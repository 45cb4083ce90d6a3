"""Front end for the native extensions: the C++ subset the extensions are written in, parsed into Python syntax trees, so that one
analysis serves both languages.

Value semantics become explicit: `x += e` rebinds, an assignment of a matrix that is later written element by element copies,
non-const references and pointers to scalars are one-element arrays, objects changed by a method statement are rebound to an
uninterpreted function of the old object.  Eigen and pybind11 calls become uninterpreted functions of all their arguments (template
arguments included); the ones with a plain numpy meaning (transpose, sums, blocks, zeros) become that."""
from __future__ import annotations
import ast
import os
import re

TOK = re.compile(r"""
   (?P<ws>\s+)
 | (?P<lc>//[^\n]*)
 | (?P<bc>/\*.*?\*/)
 | (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?[fFlLuU]*)
 | (?P<str>"(?:\\.|[^"\\])*")
 | (?P<chr>'(?:\\.|[^'\\])*')
 | (?P<id>[A-Za-z_]\w*)
 | (?P<op>::|->|\+\+|--|<<=|>>=|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|<<|[-+*/%<>=!&|^~?:;,.(){}\[\]])
""", re.X | re.S)

INTS = {"int", "size_t", "long", "short", "unsigned", "char", "signed", "ssize_t", "int64_t", "int32_t", "uint64_t", "uint32_t", "std::size_t", "Eigen::Index", "py::ssize_t", "std::ptrdiff_t", "ptrdiff_t"}
FLOATS = {"double", "float"}
BUILTIN = INTS | FLOATS | {"bool", "void", "auto", "const", "static", "constexpr", "inline"}
NS = {"std", "py", "Eigen", "pybind11"}


class Unsupported(Exception):
    pass


class T:
    __slots__ = ("k", "s", "line")

    def __init__(self, k, s, line):
        self.k, self.s, self.line = k, s, line

    def __repr__(self):
        return self.s


def tokenize(src):
    defs = {}
    lines = src.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i].lstrip()
        if l.startswith("#"):
            j = i
            full = lines[i]
            while full.endswith("\\") and j + 1 < len(lines):
                j += 1
                full = full[:-1] + lines[j]
            m = re.match(r"\s*#\s*define\s+([A-Za-z_]\w*)\s+(.+)$", full)
            if m:
                defs[m.group(1)] = m.group(2)
            for k in range(i, j + 1):
                lines[k] = ""
            i = j
        i += 1
    src = "\n".join(lines)

    def lex(s, line):
        out, pos = [], 0
        while pos < len(s):
            m = TOK.match(s, pos)
            if m is None:
                raise Unsupported(f"character {s[pos]!r} in line {line}")
            k = m.lastgroup
            if k not in ("ws", "lc", "bc"):
                out.append(T(k, m.group(), line))
            line += m.group().count("\n")
            pos = m.end()
        return out
    toks = lex(src, 1)
    if defs:
        body = {k: lex(v, 0) for k, v in defs.items()}
        res = []
        for t in toks:
            if t.k == "id" and t.s in body and not (res and res[-1].s in (".", "->", "::")):
                b = body[t.s]
                if len(b) > 1:
                    res.append(T("op", "(", t.line))
                res += [T(x.k, x.s, t.line) for x in b]
                if len(b) > 1:
                    res.append(T("op", ")", t.line))
            else:
                res.append(t)
        toks = res
    # attributes
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == "[" and i + 2 < len(toks) and toks[i + 1].s == "[" and toks[i + 2].k == "id" and not (out and (out[-1].k == "id" and out[-1].s not in ("else", "const", "static", "return") or out[-1].s in (")", "]"))):
            j = i + 2
            while j + 1 < len(toks) and not (toks[j].s == "]" and toks[j + 1].s == "]"):
                j += 1
            i = j + 2
            continue
        out.append(toks[i])
        i += 1
    return out


def cat(t):
    """category of a type"""
    t = t.strip()
    if t.endswith("*"):
        return "ptr"
    if t in INTS or t in ("longlong", "longlongint", "unsignedint", "longint", "unsignedlong", "unsignedlonglong", "unsignedlongint") or (t.replace("long", "").replace("unsigned", "").replace("int", "") == "" and t):
        return "int"
    if t in FLOATS or t == "longdouble":
        return "float"
    if t == "bool":
        return "bool"
    if t.startswith("std::function"):
        return "fn"
    if t.startswith("std::mt19937") or t.startswith("std::minstd"):
        return "rng"
    if t.startswith("std::random_device"):
        return "rdev"
    if re.match(r"std::\w+_distribution", t):
        return "dist"
    if t.startswith(("std::vector", "std::array")):
        return "vec"
    if t.startswith(("py::array", "pybind11::array")):
        return "pyarr"
    if t.startswith(("py::list", "py::tuple")):
        return "list"
    if t.startswith(("py::handle", "py::buffer_info", "py::object")):
        return "alias"
    if t.startswith(("std::tuple", "std::pair")):
        return "tuple"
    if t.startswith("Eigen::"):
        m = re.match(r"Eigen::(\w+)", t).group(1)
        if m.startswith(("Matrix", "Vector", "RowVector", "SparseMatrix", "SparseVector")) or m in ("PermutationMatrix", "DiagonalMatrix"):
            return "mat"
        if m.startswith("Array"):
            return "arr"
        if m in ("Ref", "Map"):
            inner = t[t.index("<") + 1:]
            c = cat(inner.split(",")[0] if not inner.startswith("Eigen::SparseMatrix") else "Eigen::SparseMatrix")
            return c if c in ("mat", "arr") else "mat"
    if t == "auto":
        return "?"
    return "obj"


def elem(t):
    """category of the entries of a container type"""
    if t.endswith("*"):
        return cat(t[:-1])
    m = re.match(r"(?:py::array_t|std::vector|std::array)<(.*)>$", t)
    if m:
        a = split_args(m.group(1))[0]
        return cat(a)
    if t.startswith("Eigen::VectorXi") or "longlongint,Eigen::Dynamic" in t and t.startswith(("Eigen::Vector", "Eigen::Ref<Eigen::Vector", "Eigen::Map<Eigen::Vector")):
        return "int"
    if cat(t) in ("mat", "arr"):
        return "float"
    return "?"


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<(":
            d += 1
        elif c in ">)":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return out


class Sig:
    def __init__(self, name, ret, params, body, line):
        self.name, self.ret, self.params, self.body, self.line = name, ret, params, body, line
        # params: (type string, name, by-reference and changeable)


def N(x):
    return ast.Name(x, ast.Load())


def npf(name, args):
    return ast.Call(ast.Attribute(N("np"), name, ast.Load()), args, [])


def C(v):
    return ast.Constant(v)


class Parser:
    """tokens of one file -> functions, bindings, constants"""

    def __init__(self, src):
        self.toks = tokenize(src)
        self.p = 0
        self.types = {}         # alias -> type string
        self.tparams = set()
        self.funcs = {}
        self.optional = set()   # bindings with default values
        self.bind = {}          # python name -> (C++ function, [argument names])
        self.inits = []
        self.module = None
        self.consts = []
        self.failed = {}
        self.top()

    # -- token helpers
    def la(self, k=0):
        return self.toks[self.p + k] if self.p + k < len(self.toks) else T("eof", "", self.toks[-1].line if self.toks else 0)

    def at(self, s, k=0):
        return self.la(k).s == s

    def next(self):
        t = self.la()
        self.p += 1
        return t

    def eat(self, s):
        if not self.at(s):
            raise Unsupported(f"line {self.la().line}: expected {s!r}, found {self.la().s!r}")
        return self.next()

    def acc(self, s):
        if self.at(s):
            self.p += 1
            return True
        return False

    def skip(self, o, c):
        """past the bracket closing the one at the cursor"""
        self.eat(o)
        d = 1
        while d:
            t = self.next()
            if t.k == "eof":
                raise Unsupported("unbalanced")
            if t.s == o:
                d += 1
            elif t.s == c:
                d -= 1

    # -- types
    def is_type_start(self):
        t = self.la()
        if t.k != "id":
            return False
        if t.s in BUILTIN or t.s in self.types or t.s in self.tparams:
            return True
        return t.s in NS and self.at("::", 1)

    def targs(self):
        """template argument list as text"""
        s = "<"
        self.eat("<")
        d = 1
        n = 0
        while d:
            t = self.next()
            n += 1
            if n > 200 or t.k == "eof" or t.s in (";", "{"):
                raise Unsupported("template arguments")
            if t.s == "<":
                d += 1
            elif t.s == ">":
                d -= 1
            elif t.s == ">>":
                d -= 2
                s += ">>"
                continue
            if t.k == "id" and t.s in self.types:
                s += self.types[t.s]
            elif t.s == "const" or t.s == "typename":
                pass
            else:
                s += t.s
        return s

    def qual(self):
        """qualified name with template arguments"""
        s = self.next().s
        s = self.types.get(s, s)
        while True:
            if self.at("<"):
                sv = self.p
                try:
                    a = self.targs()
                except Unsupported:
                    self.p = sv
                    break
                s += a
            elif self.at("::") and self.la(1).k == "id":
                self.next()
                s += "::" + self.next().s
            else:
                break
        return s.replace("pybind11::", "py::")

    def type(self):
        const = static = False
        if not self.is_type_start():
            raise Unsupported("type")
        parts = []
        while True:
            if self.acc("const"):
                const = True
            elif self.at("static") or self.at("constexpr") or self.at("inline") or self.at("typename"):
                static = static or self.at("static")
                self.next()
            elif self.la().k == "id" and self.la().s in INTS | FLOATS | {"bool", "void", "auto"}:
                parts.append(self.next().s)
            elif not parts and self.is_type_start():
                parts.append(self.qual())
            else:
                break
        if not parts:
            raise Unsupported("type")
        t = "".join(parts)
        ref = False
        while True:
            if self.acc("const"):
                const = True
            elif self.acc("*"):
                t += "*"
            elif self.acc("&"):
                ref = True
            elif self.at("&&") :
                self.next()
            else:
                break
        return t, const, ref

    # -- file level
    def top(self):
        while self.la().k != "eof":
            s0 = self.p
            try:
                self.decl_top()
            except Unsupported as e:
                self.p = s0
                self.failed[f"line {self.la().line}"] = str(e)
                self.recover()

    def recover(self):
        while self.la().k != "eof":
            if self.at("{"):
                self.skip("{", "}")
                self.acc(";")
                return
            if self.next().s == ";":
                return

    def decl_top(self):
        if self.acc(";"):
            return
        if self.at("}"):
            self.next()
            return
        if self.acc("namespace"):
            if self.la().k == "id":
                self.next()
            if self.acc("="):
                self.qual()
                self.eat(";")
                return
            self.eat("{")       # contents are file level
            return
        if self.acc("using"):
            if self.acc("namespace"):
                self.qual()
                self.eat(";")
                return
            nm = self.next().s
            if self.acc("="):
                t, _, _ = self.type()
                self.types[nm] = t
                self.eat(";")
                return
            self.p -= 1
            q = self.qual()
            self.types[q.split("::")[-1]] = q
            self.eat(";")
            return
        if self.acc("typedef"):
            t, _, _ = self.type()
            self.types[self.next().s] = t
            self.eat(";")
            return
        if self.acc("template"):
            self.eat("<")
            while not self.at(">"):
                t = self.next()
                if t.s in ("typename", "class"):
                    self.tparams.add(self.next().s)
            self.eat(">")
            return
        if self.la().s == "PYBIND11_MODULE":
            self.next()
            self.eat("(")
            self.module = self.next().s
            self.eat(",")
            m = self.next().s
            self.eat(")")
            self.bindings(m)
            return
        if self.at("struct") or self.at("class") or self.at("enum") or self.at("extern"):
            raise Unsupported("class")
        line = self.la().line
        t, const, ref = self.type()
        nm = self.next()
        if nm.k != "id":
            raise Unsupported("declarator")
        if self.at("("):
            sv = self.p
            try:
                ps = self.params()
            except Unsupported:
                ps = None
                self.p = sv
            if ps is not None:
                while self.la().s in ("noexcept", "const"):
                    self.next()
                if self.acc(";"):
                    return
                if self.at("{"):
                    b = self.p
                    self.skip("{", "}")
                    if len(ps) == 1 and ps[0][0].startswith(("py::module",)):
                        e = self.p
                        self.p = b
                        self.bindings(ps[0][1])
                        self.p = e
                        return
                    self.funcs[nm.s] = Sig(nm.s, t, ps, (b, self.p), line)
                    return
            raise Unsupported("declarator")
        self.consts.append((t, nm.s, self.p, line))
        while not self.at(";"):
            if self.at("{"):
                self.skip("{", "}")
            else:
                self.next()
        self.eat(";")

    def params(self):
        self.eat("(")
        out = []
        if self.acc(")"):
            return out
        while True:
            t, const, ref = self.type()
            nm = self.next().s if self.la().k == "id" else ""
            if self.acc("["):
                self.eat("]")
                t += "*"
            if self.acc("="):
                while not self.at(",") and not self.at(")"):
                    self.next()
            out.append((t, nm, ref and not const))
            if self.acc(")"):
                return out
            self.eat(",")

    def bindings(self, m):
        self.eat("{")
        d = 1
        while d:
            t = self.next()
            if t.k == "eof":
                return
            if t.s == "{":
                d += 1
            elif t.s == "}":
                d -= 1
            elif t.s == m and self.at(".") and self.at("def", 1):
                self.next(), self.next()
                self.eat("(")
                nm = ast.literal_eval(self.next().s)
                self.eat(",")
                self.acc("&")
                fn = self.la().s
                self.qual()
                args, dep = [], 1
                while dep:
                    x = self.next()
                    if x.s == "(":
                        dep += 1
                    elif x.s == ")":
                        dep -= 1
                    elif x.s == "=":
                        self.optional.add(nm)
                    elif x.s == "arg" and self.at("("):
                        args.append(ast.literal_eval(self.la(1).s))
                self.bind[nm] = (fn, args)
            elif t.k == "id" and self.at("(") and self.la(1).s == m and self.at(")", 2):
                self.inits.append(t.s)


class Fn:
    """one function body -> Python function"""

    def __init__(self, P, sig, names, sigs):
        self.P, self.sig, self.names, self.sigs = P, sig, names, sigs
        self.scopes = []
        self.used = set()
        self.boxed, self.stored = set(), set()
        self.tmp = 0

    # ---- scopes
    def declare(self, nm, ty):
        py = nm
        if any(nm in s for s in self.scopes[:-1]) or nm in self.reserved:
            k = 2
            while f"{nm}_{k}" in self.used:
                k += 1
            py = f"{nm}_{k}"
        self.used.add(py)
        self.scopes[-1][nm] = [py, ty, None]
        return py

    reserved = {"np", "in", "is", "lambda", "def", "not", "and", "or", "from", "import", "as", "del", "pass", "None", "True", "False", "with", "yield", "print", "len", "int", "range", "abs", "max", "min"}

    def var(self, nm):
        for s in reversed(self.scopes):
            if nm in s:
                return s[nm]
        return None

    # ---- which names are written through, or have their address taken
    def prescan(self, b, e):
        tk = self.P.toks
        for i in range(b, e):
            if tk[i].k == "id" and i + 1 < e and tk[i + 1].s in ("(", "[") and (i == 0 or tk[i - 1].s not in (".", "->", "::")):
                # x(...) = or x[...] op= : element store
                j = i + 1
                while j < e and tk[j].s in ("(", "["):
                    o, c = (("(", ")") if tk[j].s == "(" else ("[", "]"))
                    d = 0
                    while j < e:
                        if tk[j].s == o:
                            d += 1
                        elif tk[j].s == c:
                            d -= 1
                            if not d:
                                break
                        j += 1
                    j += 1
                if j < e and (tk[j].s == "=" or tk[j].s in ("+=", "-=", "*=", "/=")):
                    self.stored.add(tk[i].s)
                # passed to a changeable scalar reference of a function of this file
                sg = self.sigs.get(tk[i].s)
                if sg is not None and tk[i + 1].s == "(":
                    d, k, j = 0, 0, i + 1
                    start = j + 1
                    while j < e:
                        if tk[j].s in "([{":
                            d += 1
                        elif tk[j].s in ")]}":
                            d -= 1
                        if d == 1 and tk[j].s == "," or d == 0:
                            a = tk[start:j]
                            if k < len(sg.params) and len(a) == 1 and a[0].k == "id" and sg.params[k][2] and cat(sg.params[k][0]) in ("int", "float", "bool"):
                                self.boxed.add(a[0].s)
                            k += 1
                            start = j + 1
                            if d == 0:
                                break
                        j += 1
            if tk[i].s == "&" and tk[i - 1].s in ("(", ",") and tk[i + 1].k == "id" and tk[i + 2].s in (",", ")"):
                self.boxed.add(tk[i + 1].s)
            if tk[i].s == "->" and tk[i - 1].s != ")" or tk[i].s == "goto":
                raise Unsupported(tk[i].s)

    # ---- the function
    def build(self, pyname):
        P, sg = self.P, self.sig
        b, e = sg.body
        self.prescan(b, e)
        self.scopes = [{}]
        args = []
        pre = []
        for k, (ty, nm, mut) in enumerate(sg.params):
            c = cat(ty)
            py = f"p{k}"
            self.used.add(py)
            v = [py, ty, None]
            ann = {"int": "int", "float": "float", "bool": "bool", "list": "list", "mat": "np.ndarray", "arr": "np.ndarray", "pyarr": "np.ndarray", "vec": "np.ndarray", "rng": "np.random.Generator"}.get(c)
            if c in ("int", "float", "bool") and mut:
                v[2] = "box"
                ann = "np.ndarray"
            elif c == "ptr":
                ann = "np.ndarray"
            elif c in ("int", "float", "bool") and nm in self.boxed:
                v[2] = "box"
                v[0] = py2 = f"p{k}_b"
                pre.append(ast.Assign([ast.Name(py2, ast.Store())], npf("cpp_box", [N(py)])))
            elif c in ("mat", "arr") and nm in self.stored and not mut:
                pre.append(ast.Assign([ast.Name(py, ast.Store())], npf("copy", [N(py)])))
            if nm:
                self.scopes[-1][nm] = v
            args.append(ast.arg(py, ast.parse(ann, mode="eval").body if ann else None))
        P.p = b
        body = pre + self.block()
        f = ast.FunctionDef(name=pyname, args=ast.arguments(posonlyargs=[], args=args, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=body or [ast.Pass()], decorator_list=[],
                            returns=None, type_comment=None, lineno=sg.line, col_offset=0, end_lineno=self.P.toks[e - 1].line, end_col_offset=0)
        if hasattr(f, "type_params"):
            f.type_params = []
        return f

    def block(self):
        self.P.eat("{")
        self.scopes.append({})
        out = []
        while not self.P.at("}"):
            out += self.stmt()
        self.P.eat("}")
        self.scopes.pop()
        return out

    def body(self):
        """statement or block as the body of a control statement"""
        if self.P.at("{"):
            return self.block() or [ast.Pass()]
        self.scopes.append({})
        r = self.stmt()
        self.scopes.pop()
        return r or [ast.Pass()]

    def mark(self, nodes, line):
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, (ast.expr, ast.stmt, ast.excepthandler)) and not hasattr(x, "lineno"):
                    x.lineno = x.end_lineno = line
                    x.col_offset = x.end_col_offset = 0
        return nodes

    def stmt(self):
        line = self.P.la().line
        return self.mark(self.stmt0(), line)

    def stmt0(self):
        P = self.P
        if P.acc(";"):
            return []
        if P.at("{"):
            return self.block()
        s = P.la().s
        if s == "if":
            P.next()
            P.acc("constexpr")
            P.eat("(")
            c = self.cond()
            P.eat(")")
            a = self.body()
            b = []
            if P.acc("else"):
                b = self.body()
            return [ast.If(c, a, b)]
        if s == "for":
            return self.s_for()
        if s == "while":
            P.next()
            P.eat("(")
            c = self.cond()
            P.eat(")")
            return [ast.While(c, self.body(), [])]
        if s == "do":
            P.next()
            b = self.body()
            P.eat("while")
            P.eat("(")
            c = self.cond()
            P.eat(")")
            P.eat(";")
            if has_continue(b):
                raise Unsupported("continue in do")
            return [ast.While(C(True), b + [ast.If(ast.UnaryOp(ast.Not(), c), [ast.Break()], [])], [])]
        if s == "return":
            P.next()
            if P.acc(";"):
                return [ast.Return(None)]
            v, ty = self.init_or_expr()
            P.eat(";")
            if getattr(self, "rets", None) is not None:
                self.rets.append(ty)
            v = self.conv(v, ty, self.sig.ret)
            return [ast.Return(v)]
        if s in ("break", "continue"):
            P.next()
            P.eat(";")
            return [ast.Break() if s == "break" else ast.Continue()]
        if s == "throw":
            P.next()
            if P.acc(";"):
                return [ast.Raise(None, None)]
            v, _ = self.expr()
            P.eat(";")
            return [ast.Raise(ast.Call(N("RuntimeError"), [v], []), None)]
        if s == "try":
            P.next()
            b = self.block()
            hs = []
            while P.acc("catch"):
                P.eat("(")
                self.scopes.append({})
                nm = None
                if P.acc("."):
                    P.eat(".")
                    P.eat(".")
                else:
                    t, _, _ = P.type()
                    if P.la().k == "id":
                        nm = self.declare(P.next().s, t)
                P.eat(")")
                hb = self.block()
                self.scopes.pop()
                hs.append(ast.ExceptHandler(N("RuntimeError"), nm, hb or [ast.Pass()]))
            return [ast.Try(b or [ast.Pass()], hs, [], [])]
        if s in ("switch", "goto", "case"):
            raise Unsupported(s)
        if s in ("using", "typedef"):
            P.decl_top()
            return []
        k = 1 if s == "const" else 0
        if P.la(k).s == "auto" and (P.at("[", k + 1) or P.at("&", k + 1) and P.at("[", k + 2)):
            while not P.acc("["):
                P.next()
            nms = [P.next().s]
            while P.acc(","):
                nms.append(P.next().s)
            P.eat("]")
            P.eat("=")
            v, ty = self.init_or_expr()
            P.eat(";")
            m = re.match(r"std::(?:tuple|pair)<(.*)>$", ty)
            tys, d, cur = [], 0, ""
            for ch in (m.group(1) if m else ""):
                d += ch == "<"
                d -= ch == ">"
                if ch == "," and d == 0:
                    tys.append(cur)
                    cur = ""
                else:
                    cur += ch
            tys.append(cur)
            if len(tys) != len(nms):
                tys = ["?"] * len(nms)
            return [ast.Assign([ast.Tuple([ast.Name(self.declare(a, t), ast.Store()) for a, t in zip(nms, tys)], ast.Store())], v)]
        if P.la().k == "id" and P.is_type_start() and self.var(s) is None:
            sv = P.p
            try:
                ty, const, ref = P.type()
                ok = P.la().k == "id" and P.la(1).s in ("=", "(", "{", ";", ",", "[")
            except Unsupported:
                ok = False
            if ok:
                return self.decl(ty, const, ref)
            P.p = sv
        r = self.simple()
        P.eat(";")
        return r

    def decl(self, ty, const, ref):
        P = self.P
        out = []
        base = ty.rstrip("*")
        first = True
        while True:
            t = ty if first else base
            if not first:
                while P.acc("*"):
                    t += "*"
                P.acc("&")
            first = False
            nm = P.next().s
            out += self.declare1(t, nm, ref)
            if P.acc(";"):
                return out
            P.eat(",")

    def declare1(self, t, nm, ref):
        P = self.P
        c = cat(t)
        if P.at("["):
            P.next()
            n = None
            if not P.at("]"):
                n, _ = self.expr()
            P.eat("]")
            t += "*"
            if P.acc("="):
                v, _ = self.braces()
                py = self.declare(nm, t)
                return [ast.Assign([ast.Name(py, ast.Store())], npf("array", [v]))]
            py = self.declare(nm, t)
            return [ast.Assign([ast.Name(py, ast.Store())], npf("empty", [n]))]
        if P.at("=") and P.at("[", 1) and c in ("?", "fn"):
            P.next()
            return self.closure(nm)
        if P.acc("="):
            v, ty = self.init_or_expr()
            return self.bindv(t, nm, v, ty, ref)
        if P.at("(") or P.at("{"):
            o, cl = ("(", ")") if P.at("(") else ("{", "}")
            if o == "{" and c in ("vec",):
                v, _ = self.braces()
                return self.bindv(t, nm, npf("array", [v]), "?", ref)
            P.next()
            a = []
            tys = []
            while not P.at(cl):
                v, ty = self.init_or_expr()
                a.append(v)
                tys.append(ty)
                if not P.acc(","):
                    break
            P.eat(cl)
            v, ty = self.construct(t, a, tys)
            return self.bindv(t, nm, v, ty, ref)
        # no initial value
        py = self.declare(nm, t)
        if c in ("int", "float", "bool") and nm in self.boxed:
            self.var(nm)[2] = "box"
            return [ast.Assign([ast.Name(py, ast.Store())], npf("cpp_box", []))]
        if c == "obj" or c == "rng":
            return [ast.Assign([ast.Name(py, ast.Store())], npf("cpp_new", [C(t)]) if c == "obj" else npf("random.default_rng", []))]
        if c == "vec":
            return [ast.Assign([ast.Name(py, ast.Store())], ast.List([], ast.Load()))]
        return []

    def closure(self, nm):
        """auto f = [&](...) { ... };"""
        P = self.P
        line = P.la().line
        while not P.at("]"):
            P.next()
        P.eat("]")
        py = self.declare(nm, "closure:?")
        outer = {v[0] for sc in self.scopes for v in sc.values()}
        self.scopes.append({})
        args = []
        if P.acc("("):
            while not P.at(")"):
                t, const, ref = P.type()
                a = P.next().s if P.la().k == "id" else "_"
                if ref and not const and cat(t) in ("int", "float", "bool"):
                    raise Unsupported("changeable scalar parameter of a lambda")
                an = f"{a}_{len(self.used)}"
                self.used.add(an)
                self.scopes[-1][a] = [an, t, None]
                args.append(ast.arg(an, None))
                if not P.acc(","):
                    break
            P.eat(")")
        P.acc("mutable")
        ret = "?"
        if P.acc("->"):
            ret, _, _ = P.type()
        import copy
        sg, self.sig = self.sig, copy.copy(self.sig)
        self.sig.ret, keep, self.rets = ret, getattr(self, "rets", None), []
        try:
            body = self.block()
        finally:
            self.sig = sg
        rets, self.rets = self.rets, keep
        self.scopes.pop()
        if ret == "?" and rets:
            ret = rets[0] if len(set(rets)) == 1 else "?"
        self.var(nm)[1] = "closure:" + ret
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in outer:
                    raise Unsupported("lambda assigns to an outer variable")
        f = ast.FunctionDef(name=py, args=ast.arguments(posonlyargs=[], args=args, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=body or [ast.Pass()], decorator_list=[],
                            returns=None, type_comment=None, lineno=line, col_offset=0)
        if hasattr(f, "type_params"):
            f.type_params = []
        return [f]

    def bindv(self, t, nm, v, ty, ref):
        c = cat(t)
        if c == "rdev":
            self.declare(nm, t)
            return []
        ty2 = ty if c == "?" else t
        if isinstance(v, ast.Slice):
            v = ast.Call(N("slice"), [x if x is not None else C(None) for x in (v.lower, v.upper, v.step)], [])
        v = self.conv(v, ty, t)
        if isinstance(v, ast.Name) and c in ("?", "alias", "ptr", "pyarr") and (c != "?" or cat(ty) in ("pyarr", "alias", "ptr")) and not self.reassigned(nm):
            # another name for the same storage
            self.scopes[-1][nm] = [v.id, ty2 if ty2 != "?" else t, None]
            return []
        py = self.declare(nm, ty2)
        if c in ("int", "float", "bool") and nm in self.boxed:
            self.var(nm)[2] = "box"
            return [ast.Assign([ast.Name(py, ast.Store())], npf("cpp_box", [v]))]
        if isinstance(v, ast.Name) and cat(ty2) in ("mat", "arr", "vec") and not ref and (nm in self.stored or self.root_stored(v.id)):
            v = npf("copy", [v])
        return [ast.Assign([ast.Name(py, ast.Store())], v)]

    def root_stored(self, py):
        return any(x[0] == py and k in self.stored for s in self.scopes for k, x in s.items())

    def reassigned(self, nm):
        b, e = self.sig.body
        tk = self.P.toks
        return any(tk[i].k == "id" and tk[i].s == nm and tk[i + 1].s in ("=", "+=", "-=", "++", "--") and tk[i - 1].s in (";", "{", "}", ")") for i in range(b, e - 1))

    def conv(self, v, ty, to):
        a, b = cat(ty), cat(to)
        if b == "int" and a == "float":
            return ast.Call(N("int"), [v], [])
        return v

    def construct(self, t, a, tys):
        """T x(a...)"""
        c = cat(t)
        if c in ("int", "float", "bool") and len(a) == 1:
            return self.conv(a[0], tys[0], t), t
        if c == "rng":
            return npf("random.default_rng", a), t
        if c == "dist":
            m = re.match(r"std::(\w+)_distribution", t).group(1)
            if len(a) == 2 and ast.dump(a[0]) == ast.dump(a[1]):
                a = a[:1]
            return npf("cpp_dist", [C(m)] + a), t
        if c == "vec":
            if len(a) == 1:
                return npf("zeros", a), t
            if len(a) == 2:
                x = a[1]
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("full", "zeros") and len(x.args) <= 2:
                    inner = x.args[0]
                    val = x.args[1] if len(x.args) == 2 else C(0)
                    sh = [a[0]] + (inner.elts if isinstance(inner, ast.Tuple) else [inner])
                    return npf("full", [ast.Tuple(sh, ast.Load()), val]), t
                return npf("full", a), t
        if t.startswith("py::array_t"):
            if len(a) == 1:
                return npf("empty", a), t
        if c in ("mat", "arr"):
            if t.startswith("Eigen::Map"):
                return npf("cpp_map", [C(t)] + a), t
            if len(a) == 1 and cat(tys[0]) in ("mat", "arr", "?", "obj"):
                if isinstance(a[0], ast.Name):
                    return a[0], t
                return a[0], t
            return npf("cpp_alloc", ([C("sparse")] if "Sparse" in t else []) + a), t
        return npf("cpp_new", [C(t)] + a), t

    def braces(self):
        P = self.P
        P.eat("{")
        out = []
        while not P.at("}"):
            v, _ = self.init_or_expr()
            out.append(v)
            if not P.acc(","):
                break
        P.eat("}")
        return ast.Tuple(out, ast.Load()), "tuple"

    def init_or_expr(self):
        if self.P.at("{"):
            return self.braces()
        return self.expr()

    # ---- for
    def s_for(self):
        P = self.P
        line = P.la().line
        P.next()
        P.eat("(")
        self.scopes.append({})
        init, var, start, declared = [], None, None, False
        sv = P.p
        if not P.at(";"):
            isdecl = False
            if P.is_type_start() and self.var(P.la().s) is None:
                try:
                    ty, const, ref = P.type()
                    isdecl = P.la().k == "id" and P.la(1).s in ("=", "(", "{", ",", ":")
                except Unsupported:
                    pass
            if isdecl:
                nm = P.la().s
                if P.at(":", 1):
                    # range for
                    P.next(), P.next()
                    it, ity = self.expr()
                    P.eat(")")
                    py = self.declare(nm, ty if cat(ty) != "?" else "?")
                    b = self.body()
                    self.scopes.pop()
                    return [ast.For(ast.Name(py, ast.Store()), it, b, [], None)]
                init = self.decl(ty, const, ref)
                declared = True
                if len(init) == 1 and isinstance(init[0], ast.Assign) and isinstance(init[0].targets[0], ast.Name):
                    var, start = init[0].targets[0].id, init[0].value
            else:
                P.p = sv
                init = self.simple()
                while P.acc(","):
                    init += self.simple()
                P.eat(";")
        else:
            P.eat(";")
        c = C(True)
        if not P.at(";"):
            c = self.cond()
        P.eat(";")
        step = []
        if not P.at(")"):
            step = self.simple()
            while P.acc(","):
                step += self.simple()
        P.eat(")")
        body = self.body()
        self.scopes.pop()
        self.mark(init + step, line)
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            # the loop variable on its own on the left
            l, o, r = c.left, c.ops[0], c.comparators[0]
            if var is not None and not any(isinstance(x, ast.Name) and x.id == var for x in ast.walk(l)):
                fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
                l, o, r = r, fl.get(type(o), type(o))(), l
            if isinstance(l, ast.BinOp) and isinstance(l.op, (ast.Add, ast.Sub)) and isinstance(l.left, ast.Name) and l.left.id == var and isinstance(l.right, ast.Constant) and isinstance(l.right.value, int):
                r = plus(r, -l.right.value if isinstance(l.op, ast.Add) else l.right.value)
                l = l.left
            c = ast.Compare(l, [o], [r])
        if declared and var is not None and len(step) == 1 and isinstance(step[0], ast.Assign) and isinstance(step[0].targets[0], ast.Name) and step[0].targets[0].id == var \
                and isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.left, ast.Name) and c.left.id == var:
            v = step[0].value
            d = None
            if isinstance(v, ast.BinOp) and isinstance(v.left, ast.Name) and v.left.id == var and isinstance(v.right, ast.Constant):
                d = v.right.value if isinstance(v.op, ast.Add) else -v.right.value if isinstance(v.op, ast.Sub) else None
            stored = {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            bound = c.comparators[0]
            bn = {x.id for x in ast.walk(bound) if isinstance(x, ast.Name)}
            if isinstance(d, int) and d and var not in stored and not (bn & stored) and var not in bn:
                op = c.ops[0]
                hi = None
                if d > 0 and isinstance(op, (ast.Lt, ast.NotEq)) and (d == 1 or isinstance(op, ast.Lt)):
                    hi = bound
                elif d > 0 and isinstance(op, ast.LtE):
                    hi = plus(bound, 1)
                elif d < 0 and isinstance(op, ast.Gt):
                    hi = bound
                elif d < 0 and isinstance(op, ast.GtE):
                    hi = plus(bound, -1)
                if hi is not None:
                    a = [start, hi] if d == 1 else [start, hi, C(d)]
                    if d == 1 and isinstance(start, ast.Constant) and start.value == 0:
                        a = [hi]
                    return [ast.For(ast.Name(var, ast.Store()), ast.Call(N("range"), a, []), body, [], None)]
        body = with_step(body, step)
        return init + [ast.While(c, body + copy_nodes(step), [])]

    # ---- expression statements
    def simple(self):
        P = self.P
        if P.at("++") or P.at("--"):
            op = P.next().s
            v, ty = self.unary()
            return [self.assign(v, ast.BinOp(as_load(v), ast.Add() if op == "++" else ast.Sub(), C(1)))]
        s0 = P.p
        v, ty = self.expr()
        if P.at("++") or P.at("--"):
            op = P.next().s
            return [self.assign(v, ast.BinOp(as_load(v), ast.Add() if op == "++" else ast.Sub(), C(1)))]
        t = P.la().s
        if t == "=":
            targets = [v]
            tys = [ty]
            while P.acc("="):
                v2, ty2 = self.init_or_expr()
                targets.append(v2)
                tys.append(ty2)
            val, vt = targets.pop(), tys.pop()
            if isinstance(val, ast.Name) and (cat(vt) in ("mat", "arr", "vec") or cat(tys[0]) in ("mat", "arr", "vec")):
                if self.root_stored(val.id) or any(isinstance(x, ast.Name) and self.root_stored(x.id) for x in targets):
                    val = npf("copy", [val])
            val = self.conv(val, vt, tys[0])
            if isinstance(targets[0], ast.Call):
                # x.head(n) = v and the like
                r = self.view_store(targets[0], val)
                if r is None or len(targets) > 1:
                    raise Unsupported("assignment to a call")
                return r
            if len(targets) > 1 and not isinstance(val, (ast.Name, ast.Constant)):
                self.tmp += 1
                tn = f"_t{self.tmp}"
                return [ast.Assign([ast.Name(tn, ast.Store())], val)] + [self.assign(x, N(tn)) for x in reversed(targets)]
            return [self.assign(x, val) for x in reversed(targets)]
        if t in ("+=", "-=", "*=", "/=", "%=", "&=", "|="):
            P.next()
            w, wt = self.expr()
            if isinstance(v, ast.Call):
                raise Unsupported("update of a call")
            r, rt = self.binary(t[0], as_load(v), ty, w, wt)
            return [self.assign(v, self.conv(r, rt, ty))]
        # a call for its effect
        if isinstance(v, ast.Call):
            return self.effect(v, s0)
        return []

    def assign(self, tgt, val):
        if isinstance(tgt, ast.Tuple):
            return ast.Assign([ast.Tuple([store(x) for x in tgt.elts], ast.Store())], val)
        return ast.Assign([store(tgt)], val)

    def view_store(self, call, val):
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np" and call.args and isinstance(call.args[0], (ast.Name, ast.Subscript)):
            x = call.args[0]
            return [self.assign(x, npf("cpp_set_" + f.attr, call.args + [val]))]
        return None

    def effect(self, v, s0):
        f = v.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np":
            nm = f.attr
            if nm in ("cpp_print", "cpp_free"):
                return []
            if nm.endswith("InPlace") and len(v.args) >= 2:
                return [self.assign(v.args[-1], v)]
            if nm == "cpp_m_setZero":
                x, a = v.args[0], v.args[1:]
                if a:
                    return [self.assign(x, npf("zeros", [a[0] if len(a) == 1 else ast.Tuple(a, ast.Load())]))]
                return [self.assign(x, npf("zeros_like", [x]))]
            if nm == "cpp_m_seed":
                return [self.assign(v.args[0], npf("random.default_rng", v.args[1:]))]
            if nm == "cpp_functor":
                # f(in, out)
                return [self.assign(v.args[-1], v)]
            if v.args and isinstance(v.args[0], (ast.Name, ast.Subscript)):
                x = v.args[0]
                if isinstance(x, ast.Name) and x.id in {f"p{k}" for k in range(len(self.sig.params))} and nm.startswith("cpp_f_"):
                    return [ast.Assign([ast.Subscript(x, C(...), ast.Store())], v)]
                return [self.assign(x, v)]
            return [ast.Expr(v)]
        if isinstance(f, ast.Attribute) and f.attr == "push_back":
            return [ast.Expr(ast.Call(ast.Attribute(f.value, "append", ast.Load()), v.args, []))]
        return [ast.Expr(v)]

    # ---- expressions; every one yields (tree, type)
    def cond(self):
        v, ty = self.expr()
        return v

    def expr(self):
        return self.ternary()

    def ternary(self):
        P = self.P
        c, ct = self.binop(0)
        if P.acc("?"):
            a, at = self.init_or_expr()
            P.eat(":")
            b, bt = self.init_or_expr()
            k = at if at == bt else "double" if {cat(at), cat(bt)} <= {"int", "float"} and "float" in (cat(at), cat(bt)) else at if bt == "?" else bt if at == "?" else at
            return ast.IfExp(c, a, b), k
        return c, ct

    LEVELS = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]

    def binop(self, lv):
        if lv == len(self.LEVELS):
            return self.unary()
        a, at = self.binop(lv + 1)
        while self.P.la().k == "op" and self.P.la().s in self.LEVELS[lv]:
            op = self.P.next().s
            b, bt = self.binop(lv + 1)
            a, at = self.binary(op, a, at, b, bt)
        return a, at

    def binary(self, op, a, at, b, bt):
        ca, cb = cat(at), cat(bt)
        if op in ("||", "&&"):
            return ast.BoolOp(ast.Or() if op == "||" else ast.And(), [a, b]), "bool"
        if op in ("|", "&") and ca == "bool" and cb == "bool":
            return ast.BoolOp(ast.Or() if op == "|" else ast.And(), [a, b]), "bool"
        cmpo = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, ">": ast.Gt, "<=": ast.LtE, ">=": ast.GtE}
        if op in cmpo:
            if isinstance(b, ast.Constant) and isinstance(b.value, bool) and op in ("==", "!=") and ca == "bool":
                return (a if b.value == (op == "==") else ast.UnaryOp(ast.Not(), a)), "bool"
            if op in ("<=", ">=") and ca == "int" and cb == "int":
                # integers: one strict form
                k = 1 if op == "<=" else -1
                b = C(b.value + k) if isinstance(b, ast.Constant) and type(b.value) is int else ast.BinOp(b, ast.Add() if k > 0 else ast.Sub(), C(1))
                op = op[0]
            return ast.Compare(a, [cmpo[op]()], [b]), "bool"
        num = {"int", "bool"}
        if op == "*":
            if ca == "mat" and cb == "mat":
                return ast.BinOp(a, ast.MatMult(), b), "Eigen::MatrixXd"
            o = ast.Mult()
        elif op == "/":
            o = ast.FloorDiv() if ca in num and cb in num else ast.Div()
        else:
            o = {"+": ast.Add(), "-": ast.Sub(), "%": ast.Mod(), "|": ast.BitOr(), "&": ast.BitAnd(), "^": ast.BitXor(), "<<": ast.LShift(), ">>": ast.RShift()}[op]
        for k in ("arr", "mat"):
            if ca == k or cb == k:
                return ast.BinOp(a, o, b), "Eigen::ArrayXd" if k == "arr" else "Eigen::MatrixXd"
        if ca in num and cb in num:
            return ast.BinOp(a, o, b), "int"
        if "float" in (ca, cb):
            return ast.BinOp(a, o, b), "double"
        return ast.BinOp(a, o, b), "?"

    def unary(self):
        P = self.P
        t = P.la()
        if t.k == "op":
            if t.s == "!":
                P.next()
                v, ty = self.unary()
                return ast.UnaryOp(ast.Not(), v), "bool"
            if t.s == "-":
                P.next()
                v, ty = self.unary()
                if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) and not isinstance(v.value, bool):
                    return C(-v.value), ty
                return ast.UnaryOp(ast.USub(), v), ty
            if t.s == "+":
                P.next()
                return self.unary()
            if t.s == "*":
                P.next()
                v, ty = self.unary()
                return ast.Subscript(v, C(0), ast.Load()), ty[:-1] if ty.endswith("*") else "?"
            if t.s == "&":
                P.next()
                nm = P.next().s
                v = self.var(nm)
                if v is None:
                    raise Unsupported("address of " + nm)
                return N(v[0]), v[1] + "*"
            if t.s in ("++", "--"):
                raise Unsupported("increment inside an expression")
            if t.s == "(":
                # cast?
                sv = P.p
                P.next()
                if P.is_type_start() and self.var(P.la().s) is None:
                    try:
                        ty, _, _ = P.type()
                        if P.at(")"):
                            P.next()
                            v, vt = self.unary()
                            return self.castto(ty, v, vt)
                    except Unsupported:
                        pass
                P.p = sv
        return self.postfix()

    def castto(self, ty, v, vt):
        c = cat(ty)
        if c == "int" and cat(vt) in ("float", "?"):
            return ast.Call(N("int"), [v], []), ty
        if c == "int" and cat(vt) == "bool":
            return ast.IfExp(v, C(1), C(0)), ty
        return v, ty

    def args(self, cl=")"):
        P = self.P
        a, t = [], []
        while not P.at(cl):
            v, ty = self.init_or_expr()
            a.append(v)
            t.append(ty)
            if not P.acc(","):
                break
        P.eat(cl)
        return a, t

    MATH = {"exp": "exp", "log": "log", "sqrt": "sqrt", "fabs": "abs", "abs": "abs", "sin": "sin", "cos": "cos", "tan": "tan", "atan": "arctan", "tanh": "tanh", "floor": "floor", "ceil": "ceil", "lgamma": "cpp_lgamma",
            "log1p": "log1p", "expm1": "expm1", "erf": "cpp_erf", "erfc": "cpp_erfc", "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite", "round": "round"}

    def primary(self):
        P = self.P
        t = P.next()
        if t.k == "num":
            s = t.s.rstrip("fFlLuU") if not t.s.lower().startswith("0x") else t.s
            if re.fullmatch(r"\d+", s):
                return C(int(s)), "int"
            return C(float(s)), "double"
        if t.k == "str":
            s = ast.literal_eval(t.s)
            while P.la().k == "str":
                s += ast.literal_eval(P.next().s)
            return C(s), "std::string"
        if t.k == "chr":
            return C(t.s), "char"
        if t.s == "(":
            v, ty = self.expr()
            P.eat(")")
            return v, ty
        if t.s == "[":
            raise Unsupported("lambda")
        if t.k != "id":
            raise Unsupported(f"line {t.line}: {t.s!r}")
        if t.s in ("true", "false"):
            return C(t.s == "true"), "bool"
        if t.s in ("nullptr", "NULL"):
            return C(None), "?"
        if t.s in ("INFINITY", "HUGE_VAL"):
            return ast.Attribute(N("np"), "inf", ast.Load()), "double"
        if t.s == "NAN":
            return ast.Attribute(N("np"), "nan", ast.Load()), "double"
        if t.s == "M_PI":
            return ast.Attribute(N("np"), "pi", ast.Load()), "double"
        v = self.var(t.s)
        if v is not None and not P.at("::"):
            if v[2] == "box":
                return ast.Subscript(N(v[0]), C(0), ast.Load()), v[1]
            if isinstance(v[2], tuple):
                return v[2][0], v[2][1]
            return N(v[0]), v[1]
        if t.s == "sizeof":
            P.skip("(", ")")
            return C(1), "int"
        if t.s in ("static_cast", "reinterpret_cast", "const_cast", "dynamic_cast"):
            P.eat("<")
            ty, _, _ = P.type()
            P.eat(">")
            P.eat("(")
            v, vt = self.expr()
            P.eat(")")
            return self.castto(ty, v, vt)
        if t.s in BUILTIN and t.s not in ("const", "static", "auto", "void"):
            P.p -= 1
            ty, _, _ = P.type()
            if P.acc("("):
                a, at = self.args()
                if not a:
                    return C(0), ty
                return self.castto(ty, a[0], at[0])
            if P.at("{"):
                P.next()
                a, at = self.args("}")
                return self.castto(ty, a[0], at[0]) if a else (C(0), ty)
            raise Unsupported("type in expression")
        P.p -= 1
        q = P.qual()
        nm = q.split("::")[-1].split("<")[0]
        if q in ("Eigen::all", "Eigen::placeholders::all"):
            return ast.Slice(None, None, None), "slice"
        if q in ("Eigen::last", "Eigen::placeholders::last"):
            return ast.Attribute(N("np"), "cpp_last", ast.Load()), "int"
        if P.at("(") or P.at("{"):
            br = P.at("{")
            if br and not (q in ("VectorXi64",) or cat(q) in ("mat", "vec", "pyarr", "tuple", "obj")):
                raise Unsupported("braces")
            P.next()
            a, at = self.args("}" if br else ")")
            return self.call(q, nm, a, at)
        if q in [x[1] for x in P.consts]:
            ct = next(x for x in P.consts if x[1] == q)
            return N(q), ct[0]
        if "::" in q or q[0].isupper():
            return npf("cpp_const", [C(q)]), "?"
        if q in self.sigs:
            return C("&" + self.names.get(q, q)), "fn"
        raise Unsupported(f"name {q}")

    def call(self, q, nm, a, at):
        if q in self.sigs:
            sg = self.sigs[q]
            out = []
            for k, x in enumerate(a):
                if k < len(sg.params) and sg.params[k][2] and cat(sg.params[k][0]) in ("int", "float", "bool") and isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and x.slice.value == 0 \
                        and isinstance(x.value, ast.Name):
                    x = x.value         # a reference: hand on the cell
                elif k < len(sg.params):
                    x = self.conv(x, at[k], sg.params[k][0])
                out.append(x)
            return ast.Call(N(self.names[q]), out, []), sg.ret
        base = q.split("<")[0]
        sb = base[5:] if base.startswith("std::") else base
        if sb in self.MATH and len(a) == 1:
            ty = "int" if sb == "abs" and cat(at[0]) == "int" else "bool" if sb.startswith("is") else "double"
            return npf(self.MATH[sb], a), ty
        if sb == "pow" and len(a) == 2:
            return ast.BinOp(a[0], ast.Pow(), a[1]), "double"
        if sb in ("max", "min") and len(a) == 2:
            return ast.Call(N(sb), a, []), at[0] if at[0] == at[1] else "double"
        if sb in ("fmax", "fmin") and len(a) == 2:
            return ast.Call(N(sb[1:]), a, []), "double"
        if sb in ("move", "forward", "as_const", "ref", "cref") and len(a) == 1:
            return a[0], at[0]
        if sb in ("make_tuple", "tie", "make_pair", "forward_as_tuple") or base.startswith(("std::tuple", "std::pair")):
            return ast.Tuple(a, ast.Load()), "std::tuple"
        if base == "py::make_tuple":
            return ast.Tuple(a, ast.Load()), "std::tuple"
        if base == "py::ellipsis":
            return C(...), "slice"
        if base == "py::cast" or base.endswith("::cast"):
            return a[0], at[0] if cat(at[0]) != "?" else "py::array"
        if base in ("py::print", "printf", "std::printf"):
            return npf("cpp_print", []), "?"
        if base == "free":
            return npf("cpp_free", []), "?"
        if base == "malloc":
            return npf("cpp_malloc", []), "?"
        if base == "std::get" and len(a) == 1:
            k = re.search(r"<(\d+)>", q)
            if k:
                return ast.Subscript(a[0], C(int(k.group(1))), ast.Load()), "?"
        if base == "Eigen::seq" and len(a) == 2:
            last = isinstance(a[1], ast.Attribute) and a[1].attr == "cpp_last"
            return ast.Slice(a[0], None if last else plus(a[1], 1), None), "slice"
        if base == "Eigen::seqN" and len(a) == 2:
            return ast.Slice(a[0], ast.BinOp(a[0], ast.Add(), a[1]), None), "slice"
        if q.endswith("::epsilon"):
            return npf("cpp_eps", []), "double"
        if q.startswith("std::numeric_limits"):
            if nm == "infinity":
                return ast.Attribute(N("np"), "inf", ast.Load()), "double"
            if nm == "quiet_NaN":
                return ast.Attribute(N("np"), "nan", ast.Load()), "double"
            return npf("cpp_limit", [C(q)]), "double"
        m = re.match(r"(Eigen::\w+(?:<.*>)?)::(Zero|Identity|Ones|Constant)$", q)
        if m:
            sh = a[:-1] if m.group(2) == "Constant" else a
            shp = sh[0] if len(sh) == 1 else ast.Tuple(sh, ast.Load())
            if m.group(2) == "Zero":
                return npf("zeros", [shp]), m.group(1)
            if m.group(2) == "Ones":
                return npf("ones", [shp]), m.group(1)
            if m.group(2) == "Constant":
                return npf("full", [shp, a[-1]]), m.group(1)
            return npf("cpp_identity", sh), m.group(1)
        if cat(q) in ("mat", "arr", "vec", "pyarr", "rng", "dist"):
            return self.construct(q, a, at)
        if q == "py::array_t" or base == "py::array_t":
            return self.construct(q, a, at)
        if base.startswith(("std::", "py::", "Eigen::")) or nm[0].isalpha():
            pre = [C(q)] if "<" in q else []
            return npf("cpp_f_" + re.sub(r"\W", "_", re.sub(r"<.*>", "", q).replace("::", "_")), a + pre), "?"
        raise Unsupported("call of " + q)

    # methods with a plain meaning
    def postfix(self):
        P = self.P
        v, ty = self.primary()
        while True:
            if P.at("("):
                c = cat(ty)
                P.next()
                a, at = self.args()
                if ty.startswith("closure:"):
                    v, ty = ast.Call(v, a, []), ty[8:]
                elif c == "fn":
                    v, ty = ast.Call(v, a, []), ("Eigen::MatrixXd" if "MatrixXd(" in ty.replace("Eigen::MatrixXd(", "MatrixXd(") and ty.startswith("std::function<Eigen") else "double" if ty.startswith("std::function<double") else "?")
                elif c == "rng":
                    v, ty = ast.Call(ast.Attribute(v, "integers", ast.Load()), a, []), "int"
                elif c == "rdev":
                    v, ty = npf("cpp_entropy", []), "int"
                elif c == "dist" or (ty in P.tparams and len(a) == 1):
                    v, ty = ast.Call(ast.Attribute(a[0], "choice", ast.Load()), [v], []), "int" if "discrete" in ty or "int" in ty.split("<")[0] else "double"
                elif c == "obj":
                    v, ty = npf("cpp_functor", [v] + a), "?"
                elif c in ("int", "float", "bool"):
                    raise Unsupported("call of a number")
                else:
                    e = elem(ty)
                    sl = any(t == "slice" for t in at) or any(cat(t) in ("arr", "mat") for t in at)
                    v = ast.Subscript(v, a[0] if len(a) == 1 else ast.Tuple(a, ast.Load()), ast.Load())
                    ty = ("Eigen::ArrayXd" if c == "arr" else "Eigen::MatrixXd") if sl else {"int": "int", "float": "double", "bool": "bool"}.get(e, "?")
            elif P.at("["):
                P.next()
                i, it = self.init_or_expr()
                P.eat("]")
                e = elem(ty) if cat(ty) in ("ptr", "vec", "pyarr", "mat", "arr") else "?"
                m = re.match(r"std::vector<(.*)>$", ty)
                if isinstance(i, ast.Tuple) and len(i.elts) == 1:
                    i = i.elts[0]
                if m and cat(m.group(1)) == "vec":
                    nt = m.group(1)
                    v, ty = ast.Subscript(v, i, ast.Load()), nt
                elif isinstance(v, ast.Subscript) and cat(ty) == "vec" and not isinstance(v.slice, ast.Slice):
                    j = v.slice.elts if isinstance(v.slice, ast.Tuple) else [v.slice]
                    v, ty = ast.Subscript(v.value, ast.Tuple(j + [i], ast.Load()), ast.Load()), {"int": "int", "float": "double", "bool": "bool"}.get(e, "?")
                else:
                    v, ty = ast.Subscript(v, i, ast.Load()), "py::handle" if cat(ty) == "list" else {"int": "int", "float": "double", "bool": "bool"}.get(e, "?")
            elif P.at("."):
                P.next()
                P.acc("template")
                nm = P.next().s
                targ = None
                if P.at("<"):
                    sv = P.p
                    try:
                        targ = P.targs()
                        if not P.at("("):
                            raise Unsupported("")
                    except Unsupported:
                        P.p = sv
                        targ = None
                if P.acc("("):
                    a, at = self.args()
                    v, ty = self.method(v, ty, nm, targ, a, at)
                elif nm == "ptr":
                    pass
                else:
                    v, ty = ast.Attribute(v, nm, ast.Load()), "?"
            else:
                return v, ty

    def method(self, v, ty, nm, targ, a, at):
        c = cat(ty)
        mat = "Eigen::MatrixXd"
        if nm in ("unchecked", "mutable_unchecked", "request", "data", "mutable_data", "begin", "end", "eval", "noalias", "cbegin", "cend", "derived", "const_cast_derived") and not (nm in ("data",) and a):
            return v, ty
        if nm == "array" and not a:
            return v, "Eigen::ArrayXi64" if elem(ty) == "int" else "Eigen::ArrayXd"
        if nm == "matrix" and not a:
            return v, mat
        if nm == "cast" and targ:
            return v, ty
        if nm in ("transpose", "adjoint") and not a:
            return ast.Attribute(v, "T", ast.Load()), mat if c in ("mat", "?", "obj") else ty
        if nm == "sum" and not a:
            return npf("sum", [v]), "int" if elem(ty) == "int" or "i64" in ty else "double"
        if nm == "mean" and not a:
            return npf("mean", [v]), "double"
        if nm in ("maxCoeff", "minCoeff") and not a:
            return npf(nm[:3], [v]), "double"
        if nm == "norm" and not a:
            return npf("cpp_norm", [v]), "double"
        if nm in ("abs", "cwiseAbs") and not a:
            return npf("abs", [v]), ty
        if nm in ("exp", "log", "sqrt", "square") and not a and c in ("arr", "mat"):
            return npf(nm, [v]), ty
        if nm == "cols" and not a:
            return ast.Subscript(ast.Attribute(v, "shape", ast.Load()), C(1), ast.Load()), "int"
        if nm == "rows" and not a:
            return ast.Subscript(ast.Attribute(v, "shape", ast.Load()), C(0), ast.Load()), "int"
        if nm == "shape" and len(a) == 1:
            return ast.Subscript(ast.Attribute(v, "shape", ast.Load()), a[0], ast.Load()), "int"
        if nm == "size" and not a:
            return (ast.Call(N("len"), [v], []) if c in ("vec", "list", "pyarr", "alias") else ast.Attribute(v, "size", ast.Load())), "int"
        full = ast.Slice(None, None, None)
        if nm == "col" and len(a) == 1:
            return ast.Subscript(v, ast.Tuple([full, a[0]], ast.Load()), ast.Load()), mat
        if nm == "row" and len(a) == 1:
            return ast.Subscript(v, ast.Tuple([a[0], full], ast.Load()), ast.Load()), mat
        if nm == "head" and len(a) == 1:
            return ast.Subscript(v, ast.Slice(None, a[0], None), ast.Load()), mat
        if nm == "topRows" and len(a) == 1:
            return ast.Subscript(v, ast.Tuple([ast.Slice(None, a[0], None), full], ast.Load()), ast.Load()), mat
        if nm == "leftCols" and len(a) == 1:
            return ast.Subscript(v, ast.Tuple([full, ast.Slice(None, a[0], None)], ast.Load()), ast.Load()), mat
        if nm == "topLeftCorner" and len(a) == 2:
            return ast.Subscript(v, ast.Tuple([ast.Slice(None, a[0], None), ast.Slice(None, a[1], None)], ast.Load()), ast.Load()), mat
        if nm == "asDiagonal" and not a:
            return npf("diag", [v]), mat
        if nm == "diagonal" and not a:
            return npf("cpp_diagonal", [v]), mat
        if nm == "coeff" or nm == "coeffRef" or nm == "at":
            return ast.Subscript(v, a[0] if len(a) == 1 else ast.Tuple(a, ast.Load()), ast.Load()), {"int": "int", "float": "double"}.get(elem(ty), "?")
        if c == "rng":
            if nm == "seed":
                return npf("cpp_m_seed", [v] + a), ty
            return ast.Call(ast.Attribute(v, nm, ast.Load()), a, []), "int"
        if nm == "push_back" or nm == "append":
            return ast.Call(ast.Attribute(v, "append", ast.Load()), a, []), "?"
        if nm == "insertBack" or nm == "insert" and c == "mat":
            return ast.Subscript(v, ast.Tuple(a, ast.Load()), ast.Load()), "double"
        if nm in ("reserve", "startVec", "finalize", "makeCompressed"):
            return npf("cpp_print", []), "?"
        ex = [C(targ)] if targ else []
        inf = {"matrixL": mat, "matrixR": mat, "matrixQ": mat, "matrixU": mat, "matrixQR": mat, "householderQ": mat, "solve": mat, "rank": "int", "permutationP": mat, "colsPermutation": mat, "permutationPinv": mat,
               "indices": mat, "inverse": mat, "triangularView": mat, "selfadjointView": mat, "value": "double", "row": "int", "index": "int", "dot": "double", "cwiseProduct": mat, "determinant": "double", "trace": "double",
               "bottomLeftCorner": mat, "bottomRows": mat, "block": mat, "segment": mat, "tail": mat, "colwise": "?", "rowwise": "?", "replicate": mat, "reshaped": mat}.get(nm, "?")
        if nm == "dot" and len(a) == 1:
            return npf("dot", [v] + a), "double"
        if nm.endswith("InPlace"):
            return npf("cpp_m_" + nm, [v] + ex + a), "?"
        return npf("cpp_m_" + nm, [v] + ex + a), inf


def plus(e, k):
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return C(e.value + k)
    if isinstance(e, ast.BinOp) and isinstance(e.right, ast.Constant) and isinstance(e.right.value, int) and isinstance(e.op, (ast.Add, ast.Sub)):
        w = (e.right.value if isinstance(e.op, ast.Add) else -e.right.value) + k
        if w == 0:
            return e.left
        return ast.BinOp(e.left, ast.Add() if w > 0 else ast.Sub(), C(abs(w)))
    return ast.BinOp(e, ast.Add() if k > 0 else ast.Sub(), C(abs(k)))


def store(x):
    if isinstance(x, ast.Name):
        return ast.Name(x.id, ast.Store())
    if isinstance(x, ast.Subscript):
        return ast.Subscript(x.value, x.slice, ast.Store())
    if isinstance(x, ast.Attribute):
        return ast.Attribute(x.value, x.attr, ast.Store())
    raise Unsupported("assignment target")


def as_load(x):
    if isinstance(x, ast.Name):
        return N(x.id)
    return x


def has_continue(body):
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While)):
            continue
        for f in ("body", "orelse", "finalbody"):
            if has_continue(getattr(s, f, []) or []):
                return True
        for h in getattr(s, "handlers", []):
            if has_continue(h.body):
                return True
    return False


def copy_nodes(ns):
    import copy
    return [copy.deepcopy(n) for n in ns]


def with_step(body, step):
    """the step of a for statement runs before the next test, after continue too"""
    out = []
    for s in body:
        if isinstance(s, ast.Continue):
            out += copy_nodes(step)
        elif not isinstance(s, (ast.For, ast.While)):
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list):
                    setattr(s, f, with_step(b, step))
            for h in getattr(s, "handlers", []):
                h.body = with_step(h.body, step)
        out.append(s)
    return out


def module(path, src=None):
    """(Python module tree, {function: reason} not translated, Parser)"""
    src = src if src is not None else open(path, encoding="utf-8").read()
    P = Parser(src)
    names = {}
    for py, (fn, _) in P.bind.items():
        names.setdefault(fn, py)
    for fn in P.funcs:
        names.setdefault(fn, "_" + fn)
    body = [ast.Import([ast.alias("numpy", "np")])]
    failed = dict(P.failed)
    for t, nm, p, line in P.consts:
        P.p = p
        F = Fn(P, Sig(nm, "void", [], (p, p), line), names, P.funcs)
        F.scopes = [{}]
        try:
            s = F.declare1(t, nm, False)
            body += F.mark(s, line)
        except Unsupported as e:
            failed[nm] = str(e)
    for fn, sg in P.funcs.items():
        try:
            F = Fn(P, sg, names, P.funcs)
            f = F.build(names[fn])
            body.append(f)
            for py, (g, _) in P.bind.items():
                if g == fn and py != names[fn]:
                    import copy
                    f2 = copy.deepcopy(f)
                    f2.name = py
                    body.append(f2)
        except (Unsupported, RecursionError) as e:
            failed[names[fn]] = str(e)
    m = ast.Module(body, [])
    ast.fix_missing_locations(m)
    return m, failed, P


if __name__ == "__main__":
    import sys
    for p in sys.argv[1:]:
        m, failed, P = module(p)
        print("#", p, P.module, {k: v[0] for k, v in P.bind.items()}, P.inits, "FAILED", failed)
        print(ast.unparse(m))
