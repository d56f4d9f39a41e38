"""Generators of well-formed Skull programs (by construction well typed, terminating, and within the defined domain)."""
import math

from .lang import *

NAMES = ["a", "b", "c", "d", "x", "y", "z", "foo", "bar", "count", "total", "n", "k", "val", "tmp", "left", "right", "acc", "q",
         "step", "limit", "flag", "name", "item", "idx", "sum", "res", "aa", "ab", "ba", "xY", "a1", "a_b", "Some", "longer_name_1"]
INT_EDGE = [0, 1, -1, 2, 3, 5, 7, 10, 16, 63, 64, 100, 127, 128, 255, 256, 1000, 4095, 65535, 65536, 1 << 31, (1 << 31) - 1, -(1 << 31),
            1 << 32, (1 << 32) + 1, 1 << 53, (1 << 53) + 1, 1 << 62, I64_MAX, I64_MIN, I64_MIN + 1, I64_MAX - 1, 123456789012345]
FLOATS = [0.0, 1.0, -1.0, 0.5, 2.0, 0.1, 3.14, 1.5, -2.25, 100.0, 1e10, 0.001, 123456.789, 1e-7, -0.0, 9007199254740993.0, 1e100,
          math.inf, -math.inf, math.nan, 4.9e-324, 1.7976931348623157e308, 2.2250738585072014e-308]
RUNES = [ord(c) for c in "aZ0 ~'\"\\#{}é€😀ß中"] + [9, 10, 13, 27, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000]
STR_PIECES = ["", "a", "b", "ab", "hello", " ", "x y", "#", "# c", "#{", "#}", "{", "}", "(", "\\", "\"", "'", "\n", "\t", "é", "€", "😀", "%s", "%d%n",
              "?", "1", "0", "//", "&", ",", "\x1b", "\x01", "\x7f", "ß"]


COMMENTS = ["# c", "# \"open", "#{ block #}", "#{ two\nlines #}", "# it's }", "# if x {", "#{#}", "#{ # #}", "#\ttab é 😀", "# #{ #}"]


class Opts:
    def __init__(self, **kw):
        self.funcs = True
        self.nested_funcs = True
        self.namespaces = True
        self.refs = True
        self.loops = True
        self.aliases = True
        self.exports = True
        self.types = BASIC
        self.side_calls = True      # id_T calls inside expressions
        self.size = 14              # statement budget
        self.depth = 3              # expression depth
        self.float_pow = True
        self.rshift_neg = True
        self.bool_calls = True      # calls inside and/or operands
        self.max_calls = None       # calls per expression
        self.const_fold = True      # all-literal subexpressions allowed
        self.names = NAMES
        self.parens = 0.05
        self.unicode_text = True
        self.void_text = True
        self.edge = 0.12
        self.if_depth = 3
        self.mut_ratio = 0.5
        self.ref_params = 0.12
        self.mut_refs = 0.3
        self.poke = 0               # weight of calls of C functions which write through a reference
        self.early_return = True
        self.top_return = True
        self.comments = 0.04
        self.func_export = 0.1
        self.var_export = 0.06
        self.param_counts = [(8, 0), (16, 1), (12, 2), (8, 3), (4, 5), (1, 7), (1, 10)]
        for k, v in kw.items():
            assert hasattr(self, k), k
            if v is not None:
                setattr(self, k, v)


class Scope:
    __slots__ = ("names", "parent", "owner", "kind", "members", "loop")

    def __init__(self, parent, kind, owner, loop):
        self.names, self.parent, self.kind, self.owner, self.loop = {}, parent, kind, owner, loop


class Gen:
    def __init__(self, data, opts=None):
        self.d = data
        self.o = opts or Opts()
        self.externals = {}
        self.scope = Scope(None, "top", None, False)
        self.budget = self.o.size
        self.in_func = 0
        self.calls_left = None
        self.no_calls = 0
        self.recursing = []
        self.free = False       # the next expression decides the type of a definition
        self.was_free = False

    # ---- hooks for fault injection (lib/faults.py)
    def site(self, t, e):
        """An expression of type t that did not go through _expr."""
        return e

    def call_site(self, call):
        return call

    def stmt_site(self, depth, prev):
        """Statements to put before the next one."""
        return []

    def ret_site(self, func, stmts):
        return stmts

    def end_site(self, body):
        """A finished block."""
        return body

    def type_site(self, t, text, what):
        return text

    # ---- names
    def taken(self, name):
        s = self.scope
        while s:
            if name in s.names:
                return True
            s = s.parent
        return name in self.externals

    def fresh(self, avoid=()):
        d = self.d
        for _ in range(4):
            name = d.pick(self.o.names)
            if not self.taken(name) and name not in avoid:
                return name
        base = d.pick(self.o.names)
        i = 0
        while self.taken(base + str(i)) or base + str(i) in avoid:
            i += 1
        return base + str(i)

    def add(self, sym):
        self.scope.names[sym.name] = sym
        return sym

    def push(self, kind, owner=None, loop=False):
        self.scope = Scope(self.scope, kind, owner, loop)

    def pop(self):
        s = self.scope
        self.scope = s.parent
        return s

    @property
    def owner(self):
        s = self.scope
        while s and s.kind != "func":
            s = s.parent
        return s.owner if s else None

    def at_top(self):
        """True when the current scope is the top level, or only inside of namespaces."""
        s = self.scope
        while s.kind == "ns":
            s = s.parent
        return s.kind == "top"

    def visible(self):
        """[(sym, path)] of everything that can be named here."""
        out = []
        s = self.scope
        while s:
            for sym in s.names.values():
                out.append((sym, sym.name))
                if sym.kind == "ns" and sym.ns is not None:
                    self._members(sym, sym.name, out)
            s = s.parent
        return out

    def _members(self, ns, path, out):
        for sym in ns.ns.values():
            p = path + "." + sym.name
            out.append((sym, p))
            if sym.kind == "ns" and sym.ns is not None:
                self._members(sym, p, out)

    def usable(self, sym):
        if sym.kind != "var":
            return False
        return sym.owner is self.owner or sym.glob or (sym.const_expr and not sym.mut and not sym.type.startswith("&"))

    def vars(self, type=None, mut=None):
        out = []
        for sym, path in self.visible():
            if sym.kind == "var" and (type is None or sym.type == type) and (mut is None or bool(sym.mut) == mut) and self.usable(sym):
                out.append((sym, path))
        return out

    def funcs(self, type):
        return [(s, p) for s, p in self.visible() if s.kind == "func" and not s.external and s.ret == type and s.body is not None]

    def ext(self, name):
        sym = self.externals.get(name)
        if not sym:
            kind, _, ty = name.partition("_")
            ty = ty.capitalize()
            if kind == "ref":
                ty = "&" + ty
            params = [Sym("var", "v", type=ty)]
            if kind == "poke":
                params.insert(0, Sym("var", "r", type="&" + ty))
            sym = Sym("func", name, external=True, params=params, ret="Void" if kind in ("obs", "poke") else ty)
            self.externals[name] = sym
        return sym

    # ---- expressions
    def lit(self, t):
        d = self.d
        if t == "Int":
            if d.bool(self.o.edge):
                v = d.pick(INT_EDGE)
            else:
                v = d.range(0, 12)
                if d.bool(0.15):
                    v = -v
            return Lit("Int", v, self.int_text(v))
        if t == "Float":
            if d.bool(self.o.edge):
                v = d.pick(FLOATS)
            else:
                v = d.range(0, 40) / 4.0
            return Lit("Float", v)
        if t == "Bool":
            return Lit("Bool", d.bool())
        if t == "Rune":
            v = d.pick(RUNES) if d.bool(0.3) else 97 + d.below(26)
            return Lit("Rune", v)
        if t == "Str":
            n = d.weighted([(3, 0), (6, 1), (3, 2), (1, 4)])
            v = "".join(d.pick(STR_PIECES) for _ in range(n))
            text = None
            if ("\n" in v or "\t" in v) and d.bool(0.4):
                # line breaks and tabs may be written as they are
                text = '"' + "".join(c if c in "\n\t" else escape(ord(c), '"') for c in v) + '"'
            return Lit("Str", v, text)
        raise AssertionError(t)

    def int_text(self, v):
        d = self.d
        if v >= 0 and d.bool(0.08):
            k = d.below(4)
            if k == 0:
                return hex(v) if d.bool() else "0x%X" % v
            if k == 1:
                return bin(v)
            if k == 2:
                return "0o%o" % v
            if v >= 1000:
                return format(v, "_")
        return str(v)

    def expr(self, t, depth=None, top=False):
        if depth is None:
            depth = self.d.below(self.o.depth + 1)
        saved = self.calls_left
        if self.calls_left is None:
            self.calls_left = self.o.max_calls
        e = self._expr(t, depth)
        if saved is None:
            self.calls_left = None
        return e

    def can_call(self):
        return not self.no_calls and (self.calls_left is None or self.calls_left > 0)

    def leaf(self, t):
        d = self.d
        vs = self.vars(t)
        if vs and not d.bool(0.4):
            sym, path = d.pick(vs)
            return Var(sym, path)
        if self.o.refs and d.bool(0.12):
            rs = self.vars("&" + t)
            if rs:
                sym, path = d.pick(rs)
                return Deref(Var(sym, path))
        if t.startswith("&"):
            return self.ref_leaf(t)
        return self.lit(t)

    def ref_leaf(self, t):
        """A reference of type t; only to variables which outlive the place of use."""
        vs = [(s, p) for s, p in self.vars(t[1:]) if s.owner is self.owner or s.glob]
        if not vs:
            raise Reject()
        sym, path = self.d.pick(vs)
        return Ref(Var(sym, path))

    def new_target(self, ref):
        """Another value for the mutable reference `ref`: what it refers to must live as long as `ref`."""
        home = self.scope
        while home and home.names.get(ref.name) is not ref:
            home = home.parent
        here, self.scope = self.scope, home
        if home is None:
            self.scope = here
            return None
        vs = [(s, p) for s, p in self.vars(ref.type[1:]) if s.owner is ref.owner or s.glob]
        rs = [(s, p) for s, p in self.vars(ref.type) if s is not ref and (s.owner is ref.owner or s.glob)]
        self.scope = here
        if rs and (not vs or self.d.bool(0.3)):
            return Var(*self.d.pick(rs))
        if not vs:
            return None
        return Ref(Var(*self.d.pick(vs)))

    def _expr(self, t, depth):
        d = self.d
        if d.bool(self.o.parens):
            self.free = self.was_free
            return Paren(self._expr(t, depth))
        if depth <= 0 or t.startswith("&"):
            return self.leaf(t)
        if self.can_call():
            if d.bool(0.12):
                fs = self.funcs(t)
                if fs:
                    sym, path = d.pick(fs)
                    if self.callable(sym):
                        return self.call(sym, path, depth - 1)
            if self.o.side_calls and d.bool(0.12):
                name = d.pick(["id", "op"]) + "_" + t.lower()
                if self.calls_left is not None:
                    self.calls_left -= 1
                return self.call_site(Call(self.ext(name), [self._expr(t, depth - 1)]))
        sub = lambda ty: self._expr(ty, depth - 1 - d.below(2) * (depth > 1))
        if t == "Int":
            op = d.weighted([(5, "+"), (4, "-"), (3, "*"), (2, "/"), (2, "mod"), (1, "^"), (1, "<<"), (1, ">>"), (2, "neg"), (2, "leaf")])
            if op == "leaf":
                return self.leaf(t)
            if op == "neg":
                self.free = self.was_free
                return Un("-", sub(t))
            if op in ("/", "mod"):
                l = sub(t)
                if d.bool(0.75):
                    v = d.range(1, 9)
                    r = self.site("Int", Lit("Int", -v if d.bool(0.2) else v))
                else:
                    r = sub(t)
                    if isinstance(r, Lit) and r.value == 0:
                        r = Lit("Int", 3)
                    if self.bare_zero(r):
                        r = Lit("Int", 2)
                return Bin(op, l, r, t)
            if op == "^":
                l = sub(t) if d.bool(0.3) else self.small_int()
                return Bin(op, l, self.site("Int", Lit("Int", d.range(0, 5))), t)
            if op in ("<<", ">>"):
                l = sub(t)
                if op == ">>" and not self.o.rshift_neg:
                    l = Lit("Int", d.range(0, 1 << 20))
                n = d.range(0, 6) if d.bool(0.8) else d.range(0, 63)
                return Bin(op, l, self.site("Int", Lit("Int", n)), t)
            return Bin(op, sub(t), sub(t), t)
        if t == "Float":
            op = d.weighted([(5, "+"), (4, "-"), (3, "*"), (3, "/"), (1, "mod"), (1, "^"), (2, "neg"), (2, "leaf")])
            if op == "leaf":
                return self.leaf(t)
            if op == "neg":
                self.free = self.was_free
                return Un("-", sub(t))
            if op == "^" and not self.o.float_pow:
                op = "*"
            return Bin(op, sub(t), sub(t), t)
        if t == "Bool":
            op = d.weighted([(6, "cmp"), (4, "eq"), (3, "and"), (3, "or"), (2, "xor"), (3, "not"), (1, "leaf")])
            if op == "leaf":
                return self.leaf(t)
            if op == "not":
                return Un("not", sub(t))
            if op == "cmp":
                ty = d.pick([x for x in ("Int", "Float") if x in self.o.types])
                return Bin(d.pick(["<", ">", "<=", ">="]), sub(ty), sub(ty), "Bool")
            if op == "eq":
                ty = d.pick(self.o.types)
                return Bin(d.pick(["is", "isnt"]), sub(ty), sub(ty), "Bool")
            if op in ("and", "or") and not self.o.bool_calls:
                l = sub(t)
                self.no_calls += 1
                r = sub(t)
                self.no_calls -= 1
                return Bin(op, l, r, t)
            return Bin(op, sub(t), sub(t), t)
        return self.leaf(t)

    def bare_zero(self, e):
        while isinstance(e, (Paren, Alt)):
            e = e.e if isinstance(e, Paren) else e.good
        return isinstance(e, Lit) and e.value == 0

    def small_int(self):
        v = self.d.range(0, 9)
        return Lit("Int", -v if self.d.bool(0.2) else v)

    def callable(self, sym):
        # recursion only through the guarded pattern
        return sym not in self.recursing

    def call(self, sym, path, depth):
        if self.calls_left is not None:
            self.calls_left -= 1
        args = []
        for i, p in enumerate(sym.params):
            if i == 0 and sym.pure == "rec":
                args.append(self.site("Int", Lit("Int", self.d.range(0, 6))))
            else:
                args.append(self._expr(p.type, max(0, depth)))
        return self.call_site(Call(sym, args, path, trailing=bool(args) and self.d.bool(0.03)))

    # ---- types
    def pick_type(self):
        return self.d.pick(self.o.types)

    def type_text(self, t):
        """A way to write type t here."""
        if t.startswith("&"):
            if self.o.aliases and self.d.bool(0.3):
                al = [p for s, p in self.visible() if s.kind == "alias" and s.type == t]
                if al:
                    return self.d.pick(al)
            return "&" + self.type_text(t[1:])
        if self.o.aliases and self.d.bool(0.4):
            al = [p for s, p in self.visible() if s.kind == "alias" and s.type == t]
            if al:
                return self.d.pick(al)
        return t

    # ---- statements
    def define(self, t=None, mut=None, expr=None):
        d = self.d
        t = t or self.pick_type()
        if mut is None:
            mut = d.bool(self.o.mut_ratio)
        text = self.type_text(t) if d.bool(0.2) else None
        self.free = text is None
        e = expr or self.expr(t)
        self.free = False
        if text:
            text = self.type_site(t, text, "def")
        export = False
        if self.o.exports and self.scope.kind == "top" and not mut and not t.startswith("&") and d.bool(self.o.var_export):
            export = True
        sym = Sym("var", self.fresh(), type=t, mut=mut, owner=self.owner, glob=self.at_top(), const_expr=isinstance(e, Lit), export=export)
        self.add(sym)
        return ("def", sym, e, text)

    def stmt(self, depth):
        """A non terminating statement, as a list of statements."""
        d, o = self.d, self.o
        self.budget -= 1
        opts = [(6, "obs"), (5, "def"), (5, "set"), (1, "noop")]
        if depth < o.if_depth:
            opts += [(4, "if")]
            if o.loops:
                opts += [(2, "while")]
        if o.funcs and depth < o.if_depth and (self.scope.kind in ("top", "ns") or o.nested_funcs):
            opts.append((4 if self.scope.kind in ("top", "ns") else 1, "func"))
        if o.namespaces and depth < o.if_depth and self.scope.kind in ("top", "ns"):
            opts.append((1, "ns"))
        if o.refs:
            opts.append((1, "refdef"))
        if o.aliases:
            opts.append((1, "alias"))
        opts.append((2, "callstmt"))
        if o.poke:
            opts.append((o.poke, "poke"))
        k = d.weighted(opts)
        if k == "poke":
            vs = [(s, p) for s, p in self.vars(mut=True) if s.line != "loop" and s.type in BASIC and (s.owner is self.owner or s.glob)]
            if not vs:
                k = "def"
            else:
                sym, path = d.pick(vs)
                rs = [(s, p) for s, p in self.vars("&" + sym.type) if s.alias_of is sym and not s.mut]
                to = Var(*d.pick(rs)) if rs and d.bool() else Ref(Var(sym, path))
                return [("call", Call(self.ext("poke_" + sym.type.lower()), [to, self.expr(sym.type)]))]
        if k == "set":
            vs = self.vars(mut=True)
            vs = [(s, p) for s, p in vs if not getattr(s, "line", None) == "loop"]
            if not vs:
                k = "def"
            else:
                sym, path = d.pick(vs)
                if sym.type.startswith("&"):
                    e = self.new_target(sym)
                    if e is not None:
                        return [("set", Var(sym, path), self.site(sym.type, e))]
                    k = "obs"
                else:
                    e = self.expr(sym.type)
                    if self.is_same(e, sym):
                        e = self.lit(sym.type)
                    return [("set", Var(sym, path), e)]
        if k == "def":
            return [self.define()]
        if k == "noop":
            return [("noop",)]
        if k == "refdef":
            vs = [(s, p) for s, p in self.vars() if s.type.count("&") < 2 and (s.owner is self.owner or s.glob)]
            if not vs:
                k = "obs"
            else:
                sym, path = d.pick(vs)
                s = self.define("&" + sym.type, d.bool(self.o.mut_refs), Ref(Var(sym, path)))
                s[1].alias_of = sym
                return [s]
        if k == "alias":
            t = self.pick_type()
            if d.bool(0.2):
                t = "&" + t
            text = self.type_site(t, self.type_text(t), "alias")
            sym = Sym("alias", self.fresh(), type=t)
            self.add(sym)
            return [("alias", sym, text)]
        if k == "callstmt":
            fs = [(s, p) for s, p in self.visible() if s.kind == "func" and not s.external and s.body is not None and self.callable(s)]
            if fs:
                sym, path = d.pick(fs)
                return [("call", self.full_call(sym, path))]
            k = "obs"
        if k == "obs":
            return [self.observe()]
        if k == "if":
            n = d.weighted([(6, 1), (2, 2), (1, 3)])
            arms = []
            for _ in range(n):
                cond = self.expr("Bool")
                self.push("block", loop=self.scope.loop)
                arms.append((cond, self.block(depth + 1)))
                self.pop()
            other = None
            if d.bool(0.45):
                self.push("block", loop=self.scope.loop)
                other = self.block(depth + 1)
                self.pop()
            between = {}
            for i in list(range(1, n)) + ["else"] * (other is not None):
                if d.bool(self.o.comments * 2):
                    between[i] = [("comment", d.pick(COMMENTS)) for _ in range(d.weighted([(2, 1), (1, 2), (1, 3)]))]
            return [("if", arms, other, between)]
        if k == "while":
            return self.loop(depth)
        if k == "func":
            return [self.func(depth)]
        if k == "ns":
            sym = Sym("ns", self.fresh())
            self.add(sym)
            self.push("ns")
            body = self.block(depth + 1, terminators=False)
            sc = self.pop()
            sym.ns = sc.names
            return [("ns", sym, body)]
        raise AssertionError(k)

    def full_call(self, sym, path):
        saved = self.calls_left
        self.calls_left = self.o.max_calls
        c = self.call(sym, path, self.d.below(2))
        self.calls_left = saved
        return c

    def observe(self, t=None):
        t = t or self.pick_type()
        return ("call", Call(self.ext("obs_" + t.lower()), [self.expr(t)]))

    def is_same(self, e, sym):
        while isinstance(e, (Paren, Alt)):
            e = e.e if isinstance(e, Paren) else e.good
        return isinstance(e, Var) and e.sym is sym

    def loop(self, depth):
        """A loop that ends: the counter changes first thing in the body."""
        d = self.d
        n = d.range(1, 5)
        i = Sym("var", self.fresh(), type="Int", mut=True, owner=self.owner, glob=self.at_top(), line="loop")
        self.add(i)
        start = d.range(0, 2)
        cond = Bin(d.pick(["<", "isnt"]), Var(i), Lit("Int", start + n), "Bool")
        form = d.below(4)
        pre = ("def", i, Lit("Int", start), None)
        if form == 1:
            self.no_calls += not self.o.bool_calls
            cond = Bin("and", cond, self.expr("Bool", 1), "Bool")
            self.no_calls -= not self.o.bool_calls
        self.push("block", loop=True)
        body = [("set", Var(i), self.site("Int", Bin("+", Var(i), Lit("Int", 1), "Int")))]
        if form == 2:
            # an endless loop that breaks
            limit = self.site("Bool", Bin(d.pick([">", ">="]), Var(i), Lit("Int", start + n), "Bool"))
            cond = self.site("Bool", Lit("Bool", True))
            body.append(("if", [(limit, [("break",)])], None))
        body += self.block(depth + 1)
        self.pop()
        return [pre, ("while", cond, body)]

    def block(self, depth, terminators=True, minimum=1):
        d = self.d
        out = []
        n = d.weighted([(3, 1), (4, 2), (3, 3), (2, 4)])
        for _ in range(n):
            if self.budget <= 0:
                break
            out += self.stmt_site(depth, out)
            out += self.stmt(depth)
            if d.bool(self.o.comments):
                out.append(("comment", d.pick(COMMENTS)))
        if terminators and d.bool(0.25):
            t = self.terminator()
            if t:
                out.append(t)
                while d.bool(self.o.comments):
                    out.append(d.pick([("noop",), ("comment", "# never"), ("unreachable",)]))
        if not out:
            out.append(("noop",))
        return self.end_site(out)

    def terminator(self):
        d = self.d
        loop = self.scope.loop
        opts = []
        if loop:
            opts += [(2, "break"), (2, "continue")]
        if self.o.early_return and self.scope.kind == "block":
            opts.append((1, "return"))
        if not opts:
            return None
        k = d.weighted(opts)
        if k != "return":
            return (k,)
        return self.ret()

    def ret(self):
        owner = self.owner
        if owner is None:
            if not self.o.top_return:
                return ("noop",)
            return ("return", self.expr("Int") if self.d.bool(0.8) else self.site("Int", Lit("Int", self.d.below(200))))
        if owner.ret == "Void":
            return ("return", None)
        return ("return", self.expr(owner.ret))

    def func(self, depth):
        d = self.d
        name = self.fresh()
        ret = d.pick(("Void",) + tuple(self.o.types))
        rec = d.bool(0.25)
        export = self.o.exports and self.scope.kind == "top" and d.bool(self.o.func_export)
        sym = Sym("func", name, ret=ret, params=[], external=False, export=export, owner=self.owner)
        if ret != "Void":
            sym.init = self.type_site(ret, self.type_text(ret), "ret")
        elif self.o.void_text and d.bool(0.1):
            sym.init = "Void"
        self.add(sym)
        saved_budget = self.budget
        self.budget = min(self.budget, 2 + d.below(7))
        start_budget = self.budget
        self.push("func", sym)
        params = []
        for i in range(d.weighted(self.o.param_counts)):
            t = self.pick_type()
            if i == 0 and rec:
                t = "Int"
            elif self.o.refs and d.bool(self.o.ref_params):
                t = "&" + t
            p = Sym("var", self.fresh(), type=t, mut=False, owner=sym, is_param=True)
            p.init = self.type_site(t, self.type_text(t), "param")
            params.append(self.add(p))
        sym.params = params
        body = []
        self.recursing.append(sym)
        if rec and params:
            sym.pure = "rec"
            n = params[0]
            self.push("block")
            base = [] if ret == "Void" else []
            base.append(self.observe() if d.bool(0.5) else ("noop",))
            base.append(("return", None) if ret == "Void" else ("return", self.expr(ret, 1)))
            self.pop()
            body.append(("if", [(self.site("Bool", Bin("<=", Var(n), Lit("Int", 0), "Bool")), base)], None))
        body += self.block(depth + 1, terminators=False)
        if rec and params:
            args = [Bin("-", Var(params[0]), Lit("Int", d.range(1, 2)), "Int")] + [self.expr(p.type, 1) for p in params[1:]]
            again = Call(sym, args)
            if ret == "Void":
                body.append(("call", again))
            else:
                rv = self.fresh()
                v = Sym("var", rv, type=ret, mut=False, owner=sym)
                body.append(("def", v, again, None))
                self.add(v)
        if self.budget > 0 and d.bool(0.4):
            body += self.stmt(depth + 1)
        if ret != "Void":
            body += self.ret_site(sym, [("return", self.expr(ret))])
        else:
            body += self.ret_site(sym, [("return", None)] if d.bool(0.1) else [])
        if not body:
            body.append(("noop",))
        self.recursing.pop()
        self.pop()
        sym.body = body
        self.budget = saved_budget - (start_budget - self.budget) - 1
        return ("func", sym)

    def program(self):
        d = self.d
        out = []
        while self.budget > 0:
            out += self.stmt_site(0, out)
            out += self.stmt(0)
            if not d.bool(0.98):
                break
        # observe the final state
        for sym, path in self.vars():
            if sym.type in self.o.types and d.bool(0.7):
                out.append(("call", Call(self.ext("obs_" + sym.type.lower()), [Var(sym, path)])))
        if d.bool(0.5) and self.o.top_return:
            out.append(self.ret())
        return self.with_externals(out)

    def with_externals(self, out):
        head = [("ext", s) for s in self.externals.values()]
        return head + out


def stats_of(stmts, acc=None):
    """Counts of constructs, for the non-triviality rules."""
    acc = acc if acc is not None else {}

    def bump(k):
        acc[k] = acc.get(k, 0) + 1

    def ex(e):
        if isinstance(e, Bin):
            bump("op " + e.op)
            ex(e.l)
            ex(e.r)
        elif isinstance(e, Un):
            bump("op unary " + e.op)
            ex(e.e)
        elif isinstance(e, Paren):
            ex(e.e)
        elif isinstance(e, Alt):
            ex(e.good)
        elif isinstance(e, Call):
            bump("external call" if e.sym.external else "call")
            for a in e.args:
                ex(a)
        elif isinstance(e, (Ref, Deref)):
            bump(type(e).__name__.lower())

    for s in stmts:
        bump(s[0])
        if s[0] in ("def", "set"):
            ex(s[2])
        elif s[0] == "if":
            for c, b in s[1]:
                ex(c)
                stats_of(b, acc)
            if s[2]:
                stats_of(s[2], acc)
        elif s[0] == "while":
            ex(s[1])
            stats_of(s[2], acc)
        elif s[0] == "return" and s[1] is not None:
            ex(s[1])
        elif s[0] == "call":
            ex(s[1])
        elif s[0] == "func":
            stats_of(s[1].body, acc)
        elif s[0] == "ns":
            stats_of(s[2], acc)
        elif s[0] == "alt":
            stats_of(s[1], acc)
    return acc
