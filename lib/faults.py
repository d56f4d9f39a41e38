"""Valid programs with one fault injected: FaultGen generates the two renderings of a program side by side.

The program is rendered with Alt.show_bad off (valid) and on (one fault). `fault` describes what was injected:
{"kind": name, "msg": text the message must contain or None}; the offending token carries the mark "fault" when its
position is known.
"""
from .gen import *
from .lang import *

NUM = ("Int", "Float")
VALID = {op: NUM for op in ("+", "-", "*", "/", "mod", "<", ">", "<=", ">=", "^")}
VALID.update({"<<": ("Int",), ">>": ("Int",), "and": ("Bool",), "or": ("Bool",), "xor": ("Bool",), "is": BASIC, "isnt": BASIC})
KEYWORDS = ["mut", "not", "and", "or", "xor", "is", "isnt", "return", "if", "elif", "else", "while", "true", "false", "unreachable", "external",
            "export", "noop", "import", "namespace", "mod", "break", "continue", "Int", "Float", "Bool", "Rune", "Str", "Void"]


class FaultGen(Gen):
    def __init__(self, data, opts, family, rate, simple=False):
        Gen.__init__(self, data, opts)
        self.family, self.rate, self.simple = family, rate, simple
        self.fault = None
        self.quiet = 0
        self.dead = []

    def due(self):
        if self.fault is not None or self.quiet:
            return False
        return self.d.bool(self.rate)

    def blame(self, kind, msg=None):
        self.fault = {"kind": kind, "msg": msg}

    # ---- bookkeeping
    def pop(self):
        s = Gen.pop(self)
        if s.kind != "ns":
            self.dead += [x.name for x in s.names.values()]
        return s

    def valid(self, t, depth=1):
        """An expression of type t without faults."""
        self.quiet += 1
        self.free = False
        e = Gen._expr(self, t, depth)
        self.quiet -= 1
        return e

    def token(self, e):
        """A single marked token, for positions."""
        if isinstance(e, Lit):
            return Raw([mark(e.text)], e.type)
        if isinstance(e, Var):
            return Raw([mark(e.path)], e.type)
        return e

    # ---- expression sites
    def _expr(self, t, depth):
        free, self.free = self.free, False
        self.was_free = free
        if self.due():
            good = self.valid(t, depth)
            bad = self.bad_expr(t, free, good)
            if bad is not None:
                return Alt(good, bad)
            return good
        return Gen._expr(self, t, depth)

    def leaf(self, t):
        return Gen.leaf(self, t)

    def site(self, t, e):
        if self.due():
            bad = self.bad_expr(t, False, e)
            if bad is not None:
                return Alt(e, bad)
        return e

    def bad_expr(self, t, free, good):
        if self.family == "type":
            return self.bad_type(t, free)
        if self.family == "name":
            return self.bad_name(t)
        if self.family == "expr":
            return self.bad_syntax(t, good)
        if self.family == "literal":
            return self.bad_literal(t)
        return None

    # ---- types
    def bad_type(self, t, free):
        d = self.d
        opts = [(4, "binop"), (2, "mixed"), (2, "unop"), (1, "void"), (1, "deref"), (1, "refop")]
        if not free:
            opts += [(8, "other"), (16 if t.startswith("&") else 2, "ref")]
        if self.simple:
            return None
        k = d.weighted(opts)
        depth = d.below(2)
        if k == "other":
            ty = d.pick([x for x in self.o.types if x != t])
            e = self.valid(ty, depth)
            self.blame("type-other %s for %s" % (ty, t), None)
            return e
        if k == "binop":
            op = d.pick(sorted(VALID))
            bad = [x for x in BASIC if x not in VALID[op]]
            if not bad:
                return None
            ty = d.pick(bad)
            self.blame("type-op %s on %s" % (op, ty))
            return Paren(Bin(op, self.valid(ty, depth), self.valid(ty, 0), t))
        if k == "mixed":
            op = d.pick(sorted(VALID))
            a = d.pick(VALID[op])
            b = d.pick([x for x in BASIC if x != a])
            self.blame("type-mixed %s %s %s" % (a, op, b))
            if d.bool():
                a, b = b, a
            return Paren(Bin(op, self.valid(a, depth), self.valid(b, 0), t))
        if k == "unop":
            op = d.pick(["not", "-"])
            ty = d.pick([x for x in BASIC if x != "Bool"] if op == "not" else ["Bool", "Rune", "Str"])
            self.blame("type-unary %s on %s" % (op, ty))
            return Paren(Un(op, self.valid(ty, depth)))
        if k == "void":
            fs = [(s, p) for s, p in self.visible() if s.kind == "func" and s.ret == "Void" and s.body is not None and not s.params]
            self.blame("type-void call used as value")
            if fs and d.bool():
                s, p = d.pick(fs)
                return Call(s, [], p)
            return Call(self.ext("obs_int"), [self.valid("Int", 0)])
        if k == "deref":
            vs = [(s, p) for s, p in self.vars() if not s.type.startswith("&")]
            if not vs:
                return None
            s, p = d.pick(vs)
            self.blame("type-deref of %s" % s.type)
            return Raw(["*", p], t)
        if k == "refop":
            # a reference is no operand of any operator
            vs = [(s, p) for s, p in self.vars() if s.owner is self.owner or s.glob]
            if not vs:
                return None
            s, p = d.pick(vs)
            a = [p] if s.type.startswith("&") else ["&", p]
            b = a if d.bool() or s.type.startswith("&&") else expr_tokens(self.valid(s.type.lstrip("&"), 0), [])
            op = d.pick(sorted(VALID))
            self.blame("type-op %s on reference" % op)
            if d.bool(0.2):
                return Raw(["(", d.pick(["not", "-"])] + ["("] + a + [")", ")"], t)
            if d.bool():
                a, b = b, a
            return Raw(["("] + a + [op] + b + [")"], t)
        if k == "ref":
            vs = [(s, p) for s, p in self.vars() if "&" + s.type != t]
            rs = [(s, p) for s, p in self.vars() if s.type != t and s.type.startswith("&")]
            if rs and d.bool(0.3):
                s, p = d.pick(rs)
                self.blame("type-variable that is a reference for %s" % t)
                return Raw([p], t)
            if not vs:
                return None
            s, p = d.pick(vs)
            self.blame("type-reference for %s" % t)
            return Raw(["&", p], t)

    def call_site(self, call):
        if not self.due():
            return call
        d = self.d
        args = list(call.args)
        if self.family == "type" and not self.simple:
            k = d.below(3)
            if k == 0 and args:
                args.pop(d.below(len(args)))
            elif k == 1:
                args.insert(d.below(len(args) + 1), self.valid(d.pick(self.o.types), d.below(2)))
            else:
                return call
            self.blame("type-number of arguments")
            return Alt(call, Call(call.sym, args, call.path))
        if self.family == "name":
            name, kind = self.no_function()
            if name is None:
                return call
            alias = any(s.kind == "alias" and p == name for s, p in self.visible())
            self.blame("name-function %s" % kind, None if alias else 'function "%s" missing declaration' % name)
            return Alt(call, Call(call.sym, args, mark(name)))
        if self.family == "expr" and not self.simple:
            toks = expr_tokens(call, [])
            k = d.below(5)
            if k == 0:
                toks = toks[:-1]
                kind = "unclosed call"
            elif k == 1:
                toks = toks[:2] + [","] + toks[2:]
                kind = "leading comma"
            elif k == 2 and len(args) > 1:
                a, b = expr_tokens(args[0], []), expr_tokens(args[1], [])
                toks = [call.path, "("] + a + [",", ","] + b + [")"]
                kind = "double comma"
            elif k == 3 and len(args) > 1:
                toks = [call.path, "("] + expr_tokens(args[0], []) + expr_tokens(Lit("Int", 1), []) + [")"]
                kind = "missing comma"
            else:
                return call
            self.blame("syntax-" + kind)
            return Alt(call, Raw(toks, call.type))
        return call

    def no_function(self):
        """A name that is not a callable function here."""
        d = self.d
        k = d.below(4)
        vis = self.visible()
        if k == 0:
            opts = [p for s, p in vis if s.kind in ("var", "alias", "ns")]
            kind = "is not a function"
        elif k == 1:
            opts = [n for n in self.dead if not self.taken(n)]
            kind = "out of scope"
        elif k == 2:
            opts = [p + ".nope" for s, p in vis if s.kind == "ns"] + [s.name for s, p in vis if "." in p and s.kind == "func" and not self.taken(s.name)]
            kind = "not a member"
        else:
            opts = ["undefined_name", "zz", "Nope"]
            kind = "undefined"
        opts = [o for o in opts if o not in BASIC]
        if not opts:
            return None, None
        return d.pick(opts), kind

    # ---- names
    def bad_name(self, t):
        d = self.d
        k = d.below(5)
        vis = self.visible()
        if k == 0:
            opts = ["undefined_name", "zz", "nope1", "q_q"]
            kind = "undefined"
        elif k == 1:
            opts = [n for n in self.dead if not self.taken(n)]
            kind = "out of scope"
        elif k == 2:
            opts = [p for s, p in vis if s.kind in ("func", "ns")]
            kind = "is not a variable"
        elif k == 3:
            opts = [p + ".nope" for s, p in vis if s.kind == "ns"] + [p + ".x" for s, p in vis if s.kind in ("var", "func")]
            # a member of a namespace holds no names of the scopes around it
            for s, p in vis:
                if s.kind == "ns" and s.ns is not None:
                    opts += [p + "." + o.name for o, q in vis if q == o.name and o.name not in s.ns]
            kind = "not a member"
        else:
            opts = [s.name for s, p in vis if "." in p and not self.taken(s.name)]
            kind = "member without its namespace"
        if not opts:
            return None
        name = d.pick(opts)
        self.blame("name-%s" % kind, 'variable "%s" not found' % name)
        return Raw([mark(name)], t)

    # ---- syntax of expressions
    def bad_syntax(self, t, good):
        d = self.d
        toks = expr_tokens(good, [])
        k = d.below(10)
        if k == 9:
            if t != "Int" or not isinstance(good, (Lit, Var, Paren)):
                return None
            zero = d.pick(["0", "-0", "00", "0x0", "0b0", "0o0", "0x00", "000"])
            toks, kind = ["("] + toks + [d.pick(["/", "mod"]), zero, ")"], "division by zero"
        elif k == 0:
            toks, kind = ["("] + toks + [d.pick(["+", "/", "mod", "^", "and", "is", "<"]), ")"], "missing right side"
        elif k == 1:
            toks, kind = ["/"] + toks, "missing left side"
        elif k == 2:
            toks, kind = ["("] + toks, "unclosed parenthesis"
        elif k == 3:
            toks, kind = ["(", ")"], "empty parentheses"
        elif k == 4:
            toks, kind = ["not", "not"] + toks, "double unary"
        elif k == 5:
            toks, kind = toks + ["+", "/"] + toks, "double operator"
        elif k == 6:
            toks, kind = toks + ["mod", "is"] + toks, "double operator"
        elif k == 7:
            toks, kind = ["- -"] + toks, "double unary"
        else:
            toks, kind = toks + [d.pick(["$", "@", "?", "!", "~", "==", "&&", "||", "%", "->", ";"])] + toks, "not an operator"
        self.blame("syntax-" + kind)
        return Raw(toks, t)

    # ---- literals
    def bad_literal(self, t):
        d = self.d
        text, kind, msg = bad_literal(d)
        self.blame("literal-" + kind, msg)
        return Raw([mark(text)], t)

    # ---- types in declarations
    def type_site(self, t, text, what):
        if self.family not in ("type", "name") or not self.due():
            return text
        d = self.d
        k = d.below(3)
        msg = None
        if self.family == "type":
            if what == "def":
                bad = d.pick([x for x in BASIC + ("&" + t,) if x != t])
                kind = "declared %s for %s" % (bad, t)
            elif what == "param":
                bad, kind = "Void", "Void parameter"
            else:
                return text
            self.blame("type-" + kind)
        else:
            if what == "alias":
                return text
            if k == 0:
                bad = d.pick(["Nope", "Integer", "int", "string"])
            elif k == 1:
                opts = [p for s, p in self.visible() if s.kind in ("var", "func", "ns")]
                if not opts:
                    return text
                bad = d.pick(opts)
            else:
                opts = [n for n in self.dead if not self.taken(n)]
                if not opts:
                    return text
                bad = d.pick(opts)
            if self.taken(bad) and any(s.kind == "alias" and p == bad for s, p in self.visible()):
                return text
            if d.bool(0.15):
                # a reference to what is no type
                self.blame("name-type %s" % what, None)
                bad = "&" * d.range(1, 2) + bad
            else:
                self.blame("name-type %s" % what, 'type "%s" could not be found' % bad)
                bad = mark(bad)
        a = AltText(text)
        a.bad = bad
        return a

    # ---- statement sites
    def raw(self, *tokens):
        return ("raw", list(tokens))

    def stmt_site(self, depth, prev):
        if self.family == "type" and not self.simple and not self.d.bool(0.15):
            return []
        if not self.due():
            return []
        f = {"name": self.bad_name_stmt, "struct": self.bad_struct_stmt, "type": self.bad_type_stmt, "expr": lambda d, p: None,
             "literal": lambda d, p: None}[self.family]
        bad = f(depth, prev)
        if bad is None:
            return []
        if not isinstance(bad, list):
            bad = [bad]
        return [("alt", [], bad)]

    def bad_type_stmt(self, depth, prev):
        d = self.d
        if self.simple or d.bool(0.3):
            return self.simple_type_stmt()
        if d.bool(0.05):
            self.blame("type-mutable alias", "type alias cannot be mutable")
            return self.raw("mut", self.new_name(), ":=", d.pick(BASIC))
        vs = self.vars(mut=True)
        if vs and d.bool():
            s, p = d.pick(vs)
            ty = d.pick([x for x in BASIC if x != s.type])
            self.blame("type-assign %s to %s" % (ty, s.type))
            return ("set", Var(s, p), self.valid(ty, 1))
        ty = d.pick([x for x in BASIC if x != "Bool"])
        k = d.below(3)
        self.blame("type-condition %s" % ty)
        if k == 0:
            return ("if", [(self.valid(ty, 1), [("noop",)])], None)
        if k == 1:
            return ("while", self.valid(ty, 1), [("noop",)])
        return ("if", [(self.valid("Bool", 1), [("noop",)]), (self.valid(ty, 1), [("noop",)])], None)

    def leaf_token(self, t):
        """The text of a literal or variable of type t: one token."""
        vs = self.vars(t)
        if vs and self.d.bool():
            return self.d.pick(vs)[1]
        return self.lit(t).text

    def new_name(self):
        self.quiet += 1
        n = self.fresh()
        self.quiet -= 1
        return n

    def simple_type_stmt(self):
        """A statement with a type fault whose reported token is known."""
        d, m = self.d, mark
        t = d.pick(BASIC)
        w = d.pick([x for x in BASIC if x != t])
        k = d.below(18)
        got = 'expected type "%s", got "%s"' % (t, w)
        if k == 0:
            toks = expr_tokens(self.valid(w, 1), [])
            toks[0] = m(toks[0])
            self.blame("type-argument", 'expected param of type "%s", got "%s"' % (t, w))
            return self.raw(self.ext("obs_" + t.lower()).name, "(", *toks, ")")
        if k == 1:
            vs = [(s, p) for s, p in self.vars(t, mut=True)]
            if not vs:
                return None
            self.blame("type-assign", got)
            return self.raw(d.pick(vs)[1], "=", m(self.leaf_token(w)))
        if k == 2:
            self.blame("type-explicit", got)
            return self.raw(*(["mut"] if d.bool() else []), self.new_name() + ":", t, "=", m(self.leaf_token(w)))
        if k == 3:
            w = d.pick([x for x in BASIC if x != "Bool"])
            self.blame("type-condition", "expected boolean expression")
            return self.raw(d.pick(["if", "while"]), m(self.leaf_token(w)), "{", "noop", "}")
        if k == 4:
            w = d.pick([x for x in BASIC if x != "Bool"])
            self.blame("type-condition", "expected boolean expression")
            return [self.raw("if", "true", "{", "noop", "}"), self.raw("elif", m(self.leaf_token(w)), "{", "noop", "}")]
        if k == 5:
            owner = self.owner
            if owner is not None and owner.ret == "Void":
                return None
            t = owner.ret if owner else "Int"
            w = d.pick([x for x in BASIC if x != t])
            tok = self.leaf_token(w)
            self.blame("type-return", 'expected type "%s", got "%s"' % (t, w) if owner else 'returning non-int expression "%s" from main' % tok)
            return self.raw("if", "true", "{", "return", m(tok), "}")
        if k in (6, 7):
            op = d.pick([o for o in sorted(VALID) if t in VALID[o]])
            self.blame("type-operand", got)
            return self.raw(self.new_name(), ":=", self.leaf_token(t), op, m(self.leaf_token(w)))
        if k == 8:
            op, bad = d.pick([("+", "Str"), ("-", "Bool"), ("*", "Rune"), ("/", "Str"), ("mod", "Bool"), ("<", "Str"), (">=", "Rune")])
            self.blame("type-numeric", "expected a numeric value")
            return self.raw(self.new_name(), ":=", m(self.leaf_token(bad)), op, self.leaf_token(bad))
        if k == 9:
            bad = d.pick(["Float", "Str", "Bool", "Rune"])
            self.blame("type-integer", "expected an integer")
            return self.raw(self.new_name(), ":=", m(self.leaf_token(bad)), d.pick(["<<", ">>"]), self.leaf_token(bad))
        if k == 10:
            f = self.ext("obs_" + t.lower()).name
            args = [] if d.bool() else [self.leaf_token(t), ",", self.leaf_token(w)]
            self.blame("type-number of arguments", "invalid number of parameters")
            return self.raw(m(f), "(", *args, ")")
        if k == 11:
            f = self.new_name()
            self.blame("type-no parameters", "invalid number of parameters")
            return [self.raw(f, "(", ")", "{", "noop", "}"), self.raw(m(f), "(", self.leaf_token(w), ")")]
        if k == 12:
            self.blame("type-division by zero", "division by zero")
            return self.raw(self.new_name(), ":=", self.leaf_token("Int"), d.pick(["/"]), m(d.pick(["0", "0x0", "0b0"])))
        if k == 13:
            n = self.new_name()
            self.blame("type-void value", 'function returning type void cannot be assigned to variable "%s"' % n)
            return self.raw(n, ":=", m(self.ext("obs_" + t.lower()).name), "(", self.leaf_token(t), ")")
        if k in (15, 16):
            # a type is no value
            als = [p for s, p in self.visible() if s.kind == "alias" and "." not in p]
            a = d.pick(als) if als and d.bool() else t
            self.blame("type-alias in an expression", "type aliases cannot be used in expressions")
            n = self.new_name()
            return self.raw(*d.pick([[n, ":=", m(a), "+", self.leaf_token(t)], [n + ":", t, "=", m(a)], [n, ":=", m(a), "is", self.leaf_token(t)]]))
        if k == 17:
            self.blame("type-void variable", 'expected type "Void", got "%s"' % w)
            return self.raw(self.new_name() + ":", "Void", "=", m(self.leaf_token(w)))
        f = self.new_name()
        self.blame("type-void parameter", 'cannot use type "Void" for function parameter')
        p = "param_1"
        return self.raw(f, "(", p + ":", m("Void"), ")", "{", "noop", "}")

    def bad_name_stmt(self, depth, prev):
        d = self.d
        vis = self.visible()
        k = d.below(10)
        if k == 9:
            f, p = self.new_name(), "param_1"
            q = self.new_name()
            if d.bool():
                self.blame("name-parameter twice", 'variable "%s" shadows existing variable' % p)
                more = ["param_2:", d.pick(BASIC), ","] if d.bool() else []
                return self.raw(f, "(", p + ":", d.pick(BASIC), ",", *more, mark(p + ":"), d.pick(BASIC), ")", "{", "noop", "}")
            if d.bool():
                self.blame("name-parameter named as its function", 'variable "%s" shadows existing variable' % f)
                return self.raw(f, "(", mark(f + ":"), d.pick(BASIC), ")", "{", "noop", "}")
            if d.bool():
                self.blame("name-redefined parameter", '"%s"' % p)
                bad = d.pick([[mark(p), ":=", "1"], ["mut", mark(p), ":=", "1"], [mark(p), "(", ")", "{", "noop", "}"], ["namespace", mark(p), "{", "noop", "}"]])
                return [self.raw(f, "(", p + ":", "Int", ")", "{"), self.raw(*bad), self.raw("}")]
            if d.bool():
                self.blame("name-parameter outside of its function", 'variable "%s" not found' % p)
                return [self.raw(f, "(", p + ":", "Int", ")", "{", "noop", "}"), self.raw(q, ":=", mark(p))]
            self.blame("name-assign to parameter", 'cannot reassign const variable "%s"' % p)
            return self.raw(f, "(", p + ":", "Int", ")", "{", mark(p), "=", "1", "}")
        if k == 8:
            # used before its declaration
            self.quiet += 1
            n = self.fresh()
            self.quiet -= 1
            if d.bool():
                self.blame("name-used before its definition", 'variable "%s" not found' % n)
                return [("call", Call(self.ext("obs_int"), [Raw([mark(n)], "Int")])), self.raw(n, ":=", "1")]
            self.blame("name-called before its definition", 'function "%s" missing declaration' % n)
            return [self.raw(mark(n), "(", ")"), self.raw(n, "(", ")", "{", "noop", "}")]
        if k < 4:
            # declare something that is already there
            names = [(s.name, s) for s, p in vis if p == s.name] + [(n, s) for n, s in self.externals_declared()]
            builtin = d.bool(0.08)
            if builtin:
                name, old = d.pick(BASIC), None
            elif not names:
                return None
            else:
                name, old = d.pick(names)
            m = mark(name)
            what = old.kind if old else "type"
            t = d.pick(BASIC)
            form = d.below(11)
            if form >= 8 and (self.scope.kind != "top" or self.scope.parent is not None):
                form = d.below(8)
            self.blame("name-redeclare %s" % what, '"%s"' % name)
            if form == 0:
                return self.raw(m, ":=", self.lit(t).text)
            if form == 1:
                return self.raw("mut", m, ":=", self.lit(t).text)
            if form == 2:
                if old is None:
                    self.fault["msg"] = None
                return self.raw(mark(name + ":"), t, "=", self.lit(t).text)
            if form == 3:
                return self.raw(m, "(", ")", "{", "noop", "}")
            if form == 4:
                return self.raw("namespace", m, "{", "noop", "}")
            if form == 5:
                return self.raw(m, ":=", d.pick(BASIC))
            if form == 7:
                # with parameters and a result
                if old is not None and old.kind != "func":
                    return None
                return self.raw(m, "(", "param_1:", "Int", ")", t, "{", "return", self.lit(t).text, "}")
            if form == 8:
                return [self.raw("external", m, "(", *d.pick([[], ["param_1:", t]]), ")", *d.pick([[], [t]])), ("noop",)]
            if form == 9:
                return self.raw("export", m, ":=", self.lit(t).text)
            if form == 10:
                return self.raw("export", m, "(", ")", "{", "noop", "}")
            # a parameter
            self.quiet += 1
            f = self.fresh(avoid=(name,))
            self.quiet -= 1
            if form == 6:
                if old is None:
                    self.fault["msg"] = None
                return self.raw(f, "(", mark(name + ":"), t, ")", "{", "noop", "}")
        elif k == 4:
            vs = [(s, p) for s, p in self.vars(mut=False)]
            if not vs:
                return None
            s, p = d.pick(vs)
            self.blame("name-assign to constant", 'cannot reassign const variable "%s"' % p)
            if s.type.startswith("&"):
                return self.raw(mark(p), "=", p)
            return self.raw(mark(p), "=", *expr_tokens(self.valid(s.type, 1), []))
        elif k == 5:
            opts = [p for s, p in vis if s.kind in ("func", "alias", "ns")] + ["undefined_name"] + [n for n in self.dead if not self.taken(n)]
            p = d.pick(opts)
            self.blame("name-assign to what is not a variable", 'variable "%s" not found' % p)
            return self.raw(mark(p), "=", self.lit(d.pick(BASIC)).text)
        elif k == 6:
            vs = [(s, p) for s, p in self.vars(mut=True)]
            if not vs:
                return None
            s, p = d.pick(vs)
            self.blame("name-assign to itself", 'redundant assignment of variable "%s" to itself' % p)
            return self.raw(p, "=", mark(p))
        else:
            # a definition that uses itself
            self.quiet += 1
            n = self.fresh()
            self.quiet -= 1
            self.blame("name-own initialiser", 'variable "%s" not found' % n)
            return self.raw(n, ":=", mark(n))
        return None

    def externals_declared(self):
        return [(s.name, s) for s in self.externals.values()]

    def loop_here(self):
        s = self.scope
        while s and s.kind != "func":
            if s.loop:
                return True
            s = s.parent
        return False

    def bad_struct_stmt(self, depth, prev):
        d = self.d
        nested = self.scope.kind != "top" or self.scope.parent is not None
        k = d.below(20)
        m = mark
        if k == 0:
            if self.loop_here():
                return None
            w = d.pick(["break", "continue"])
            self.blame("struct-%s outside of a loop" % w, "%s must be inside while loop" % w)
            return self.raw(m(w))
        if k in (1, 2):
            if not prev and (self.scope.kind == "func" or self.scope.loop):
                return None  # the generator may have put an if before
            before = [p for p in prev if p[0] != "comment"]
            if prev and not before:
                return None
            if before and before[-1][0] in ("if", "alt"):
                if before[-1][0] == "alt" or before[-1][2] is None:
                    return None
            w = d.pick(["else", "elif"])
            self.blame("struct-%s without if" % w, "else/elif statement missing preceding if statement")
            return self.raw(m(w), *(expr_tokens(self.valid("Bool", 1), []) if w == "elif" else []), "{", "noop", "}")
        if k in (3, 4):
            # a terminator before more code (the generator always adds a statement after the site)
            t = self.terminator_any()
            if t is None:
                return None
            self.blame("struct-code after %s" % t[0], "unreachable code")
            # what may follow does not hide what may not
            skip = [d.pick([("comment", "# a comment"), ("comment", "#{ a comment #}"), ("noop",), ("unreachable",)]) for _ in range(d.weighted([(3, 0), (2, 1), (1, 2)]))]
            more = d.pick([("call", Call(self.ext("obs_int"), [Lit("Int", 1)])), self.raw(self.new_name(), ":=", "1"), t,
                           self.raw("if", "true", "{", "noop", "}"), self.raw("while", "false", "{", "noop", "}")])
            if t[0] == "unreachable" and more is t:
                more = self.raw(self.new_name(), ":=", "true")
            return [t] + skip + [more]
        if k == 5:
            if not nested:
                return None
            self.blame("struct-nested export or external", "cannot declare nested function")
            if d.bool():
                return self.raw("export", m("nested_fn"), "(", ")", "{", "noop", "}")
            return self.raw("external", m("nested_fn"), "(", ")")
        if k == 6:
            self.blame("struct-dangling expression", "expression cannot be used on its own")
            t = d.pick(("Int", "Bool", "Float"))
            e = self.valid(t, 1)
            if isinstance(e, Call):
                e = Lit("Int", 1)
            while isinstance(e, Paren):
                e = e.e
            if isinstance(e, Call):
                e = Lit("Int", 1)
            if not isinstance(e, (Bin, Lit, Var)):
                e = Lit("Int", 3)
            return self.raw(*expr_tokens(e, []))
        if k == 7:
            self.blame("struct-empty block", "code block cannot be empty")
            w = d.pick(["if", "while", "elif", "else", "namespace", "func"])
            if w in ("elif", "else"):
                return [self.raw("if", "true", "{", "noop", "}"), self.raw(w, *(expr_tokens(self.valid("Bool", 1), []) if w == "elif" else []), "{", "}")]
            if w == "namespace":
                return self.raw(w, self.new_name(), "{", "}")
            if w == "func":
                return self.raw(self.new_name(), "(", *d.pick([[], ["param_1:", "Int"]]), ")", *d.pick([[], ["Int"]]), "{", "}")
            return self.raw(w, *expr_tokens(self.valid("Bool", 1), []), "{", "}")
        if k == 8:
            w = d.pick(["if", "while", "elif", "else", "namespace"])
            self.blame("struct-missing block", "%s statement must be followed by code block" % w)
            if w in ("elif", "else"):
                return [self.raw("if", "true", "{", "noop", "}"), self.raw(m(w), *(expr_tokens(self.valid("Bool", 1), []) if w == "elif" else [])), ("noop",)]
            if w == "namespace":
                return [self.raw(m(w), self.new_name()), ("noop",)]
            self.fault["msg"] = None
            return self.raw(w, *expr_tokens(self.valid("Bool", 1), []))
        if k == 9:
            w = d.pick(["if", "while"])
            self.blame("struct-missing condition")
            return self.raw(w, "{", "noop", "}")
        if k == 10:
            self.quiet += 1
            n = self.fresh()
            self.quiet -= 1
            self.blame("struct-incomplete definition")
            return self.raw(*d.pick([[n, ":="], ["mut", n, ":="], [n + ":", "Int", "="], [n + ":", "Int"], [n + ":", "Int", "+", "3"], [n + ":", "Int", ":=", "3"], [n + ":", "Int", "is", "3"], ["mut", n], ["mut"], ["export"], [n + ":"],
                                     [":=", "1"], ["=", "1"], [n, "=", "1"], ["mut", "1", ":=", "2"], ["1", ":=", "2"], ["export", n]]))
        if k == 11:
            self.quiet += 1
            n = self.fresh()
            self.quiet -= 1
            self.blame("struct-two statements on a line")
            return self.raw(n, ":=", self.lit("Int").text, "noop")
        if k == 12:
            self.quiet += 1
            n = self.fresh()
            self.quiet -= 1
            w = d.pick([x for x in KEYWORDS if x not in ("Void",)] + ["1abc", "_x", "a-b", "a+b", "$x", "a@", "0", "é", "a..", "x!"])
            self.blame("struct-not an identifier")
            t = self.lit("Int").text
            return self.raw(*d.pick([[w, ":=", t], [w, "(", ")", "{", "noop", "}"], ["namespace", w, "{", "noop", "}"], [n, "(", w + ":", "Int", ")", "{", "noop", "}"]]))
        if k == 13:
            self.blame("struct-stray token")
            return self.raw(d.pick(["}", ")", "(", ",", ":=", "=", "and", "$", "==", "not", "elif", "&", "*", "-", "is"]))
        if k == 14:
            self.blame("struct-function without a body")
            return self.raw("nofn", "(", ")", "Int")
        if k == 15:
            self.blame("struct-missing return")
            t = d.pick(BASIC)
            body = d.pick([["noop"], ["return"], ["if", "true", "{", "return", self.lit(t).text, "}"], ["while", "true", "{", "return", self.lit(t).text, "}"]])
            self.quiet += 1
            n = self.fresh()
            self.quiet -= 1
            return self.raw(n, "(", ")", t, "{", *body, "}")
        if k == 16:
            t = d.pick(BASIC)
            self.blame("struct-value from a void function", None)
            self.quiet += 1
            n = self.fresh()
            self.quiet -= 1
            body = ["return", self.lit(t).text]
            for _ in range(d.below(3)):
                body = d.pick([["if", "true"], ["while", "true"]]) + ["{"] + body + ["}"]
            return self.raw(n, "(", ")", "{", *body, "}")
        if k == 17:
            self.blame("struct-code block without a statement")
            return self.raw(*d.pick([["{", "noop", "}"], ["noop", "{", "noop", "}"], ["obs_int", "(", "1", ")", "{", "noop", "}"]]))
        if k == 18:
            self.blame("struct-else after else", "else/elif statement missing preceding if statement")
            return [self.raw("if", "true", "{", "noop", "}"), self.raw("else", "{", "noop", "}"), self.raw(m(d.pick(["else", "elif true"])), "{", "noop", "}")]
        if k == 19:
            self.blame("struct-separated else", "else/elif statement missing preceding if statement")
            return [self.raw("if", "true", "{", "noop", "}"), ("noop",), self.raw(m(d.pick(["else", "elif true"])), "{", "noop", "}")]
        return None

    def terminator_any(self):
        d = self.d
        opts = ["return", "unreachable"]
        if self.loop_here():
            opts += ["break", "continue"]
        k = d.pick(opts)
        if k == "return":
            owner = self.owner
            if owner is not None and owner.ret == "Void":
                return ("return", None)
            return ("return", self.valid(owner.ret if owner else "Int", 1))
        return (k,)

    def ret_site(self, func, stmts):
        if self.family != "struct" or not self.due():
            return stmts
        if func.ret != "Void":
            self.blame("struct-missing return")
            d = self.d
            last, no = stmts[-1], [("noop",)]
            c = lambda: Bin(d.pick(["is", "<"]), Lit("Int", d.below(3)), Lit("Int", 1), "Bool")
            nested = [[("if", [(c(), [last])], [last])], [("if", [(c(), [last])], None)], [("if", [(c(), no)], [last])], [("if", [(c(), [last])], no)],
                      [("if", [(c(), no), (c(), [last])], [last])], [("while", Lit("Bool", True), [last])], [("while", c(), [last])],
                      [("if", [(c(), [last])], [last]), d.pick([("noop",), ("comment", "# c")])]]
            return [("alt", stmts, d.pick([[("noop",)], [("return", None)], [("unreachable",)], d.pick(nested), d.pick(nested)]))]
        return stmts

    def build(self):
        stmts = self.program()
        if self.fault is None:
            raise Reject()
        return stmts


def bad_literal(d):
    """(text, kind, message) of a malformed literal: one token that is no valid constant of any type."""
    k = d.below(12)
    if k == 0:
        v = (1 << 63) + d.below(1 << 40)
        if d.bool(0.3):
            v = d.range(1 << 64, 1 << 90)
        return str(v), "overflow", "overflow occurred"
    if k == 1:
        return str(-(1 << 63) - 1 - d.below(1 << 40)), "overflow", "overflow occurred"
    if k == 2:
        return hex((1 << 63) + d.below(1 << 63)) if False else "0x1" + "".join(d.pick("0123456789abcdef") for _ in range(16 + d.below(4))), "overflow", "overflow occurred"
    if k == 3:
        return "0b2" if d.bool() else "0b10" + d.pick("2345a"), "bad binary", None
    if k == 4:
        return "0o" + d.pick(["8", "78", "19", "a"]), "bad octal", None
    if k == 5:
        return "0x" + d.pick(["g", "1g", "", "x1", "_1", "1__2"]), "bad hex", None
    if k == 6:
        return d.pick(["1__0", "1_", "1_000_", "12__3"]), "bad underscore", None
    if k == 7:
        return d.pick(["1.", "1.2.3", "1.2e", "1e", "1.x", "1..2", "0.1a", "--1", "+1", "1f"]), "bad number", None
    if k == 8:
        return d.pick(["''", "'ab'", "'\\'", "'abc'"]), "bad rune", None
    if k == 9:
        return "'\\" + d.pick(["q", "z", "x", "xg", "1", "u0041"]) + "'", "bad rune escape", None
    if k == 10:
        return '"' + d.pick(["", "a", "ab "]) + "\\" + d.pick(["q", "z", "xg", "y", "u"]) + d.pick(["", "b"]) + '"', "bad string escape", None
    return "9" * 309 + d.pick(["9" * 10, "9"]) + ".0", "float overflow", "overflow occurred"
