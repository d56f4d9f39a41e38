"""Expressions: values, precedence, associativity, evaluation order."""
from .common import *
from lib.gen import INT_EDGE, FLOATS, RUNES, STR_PIECES

ID = "C01"
BUDGET = 40
RULE = ("exprs: random trees, non trivial when some observed expression has at least 3 operators of at least 2 precedence levels; "
        "ops: one operator over edge values in every operand form, non trivial when both operands are not equal; "
        "chains: flat token chains of 3 to 9 operators parsed by an independent precedence table")
ASSUMPTIONS = ["operands whose result is undefined (overflow, division by zero, negative Int exponent, shift past 63) are not generated",
               "pow and fmod of the host libm are the reference for Float ^ and mod"]

OPS = [("Int", o) for o in ("+", "-", "*", "/", "mod", "^", "<<", ">>", "<", ">", "<=", ">=", "is", "isnt")] + \
      [("Float", o) for o in ("+", "-", "*", "/", "mod", "^", "<", ">", "<=", ">=", "is", "isnt")] + \
      [("Bool", o) for o in ("and", "or", "xor", "is", "isnt")] + \
      [("Rune", "is"), ("Rune", "isnt"), ("Str", "is"), ("Str", "isnt")]
RESULT = lambda t, o: "Bool" if o in ("<", ">", "<=", ">=", "is", "isnt") else t


class Base(Test):
    def check(self, case):
        c, r = self.box.build_and_run(case.src)
        compare_run(c, r, case.out, case.code)

    def describe(self, case):
        return case.src


def ops_in(e, acc):
    if isinstance(e, Bin):
        acc.append(PREC[e.op])
        ops_in(e.l, acc)
        ops_in(e.r, acc)
    elif isinstance(e, Un):
        acc.append(UNARY_PREC)
        ops_in(e.e, acc)
    elif isinstance(e, Paren):
        ops_in(e.e, acc)
    elif isinstance(e, Call):
        for a in e.args:
            ops_in(a, acc)
    elif isinstance(e, Deref):
        acc.append(UNARY_PREC)
    return acc


class Exprs(Base):
    """A set of variables, then observed expressions of every type, at the top level, in functions, in conditions."""
    name = "exprs"
    weight = 3

    def generate(self, d):
        edge = d.pick([0.05, 0.2, 0.4])
        g = Gen(d, Opts(size=10, depth=5, edge=edge, parens=d.pick([0.0, 0.1])))
        head = []
        for t in BASIC:
            for _ in range(d.range(0, 2)):
                kind = d.below(3)
                e = g.lit(t)
                if kind == 2:
                    e = Call(g.ext("op_" + t.lower()), [e])
                head.append(g.define(t, kind >= 1, e))
        if d.bool(0.4):
            head += [s for _ in range(2) for s in [self.refdef(g)] if s]
        infunc = d.bool(0.5)
        if d.bool(0.5):
            f = g.func(2)
            head.append(f)
        body = []
        sym = None
        if infunc:
            sym = Sym("func", g.fresh(), ret="Void", params=[], external=False, owner=None)
            g.add(sym)
            g.push("func", sym)
            for _ in range(d.range(0, 4)):
                t = g.pick_type()
                p = Sym("var", g.fresh(), type=t, mut=False, owner=sym, is_param=True)
                p.init = t
                sym.params.append(g.add(p))
        n = d.range(1, 7)
        shapes = []
        budget = 1
        pre = list(head)
        args = []
        if infunc:
            args = [g.lit(p.type) for p in sym.params]
        for _ in range(n):
            t = g.pick_type()
            for attempt in range(3):
                e = g.expr(t, d.range(1, 5))
                form = d.below(6)
                if form == 4 and t == "Bool":
                    s = [("if", [(e, [("call", Call(g.ext("obs_int"), [Lit("Int", 1)]))])], [("call", Call(g.ext("obs_int"), [Lit("Int", 2)]))])]
                elif form == 5:
                    v = Sym("var", g.fresh(), type=t, mut=d.bool(), owner=g.owner, glob=g.at_top())
                    s = [("def", v, e, None), ("call", Call(g.ext("obs_" + t.lower()), [Var(v)]))]
                else:
                    s = [("call", Call(g.ext("obs_" + t.lower()), [e]))]
                trial = self.whole(pre, body + s, sym, args)
                try:
                    Interp().run(trial)
                except Undefined:
                    continue
                if form == 5:
                    g.add(s[0][1])
                body += s
                shapes.append(e)
                break
        if not shapes:
            raise Reject()
        if infunc:
            g.pop()
        stmts = self.whole(pre, body, sym, args)
        if not infunc and d.bool(0.3):
            e = g.expr("Int", 3)
            try:
                Interp().run(stmts + [("return", e)])
                stmts = stmts + [("return", e)]
            except Undefined:
                pass
        stmts = g.with_externals(stmts)
        out, code = Interp().run(stmts)
        return Prog(stmts, out=out, code=code, shapes=shapes)

    def refdef(self, g):
        vs = g.vars()
        vs = [(s, p) for s, p in vs if not s.type.startswith("&")]
        if not vs:
            return None
        s, p = g.d.pick(vs)
        return g.define("&" + s.type, False, Ref(Var(s, p)))

    def whole(self, pre, body, sym, args):
        if sym is None:
            return pre + body
        sym.body = body or [("noop",)]
        return pre + [("func", sym), ("call", Call(sym, list(args)))]

    def nontrivial(self, case):
        for e in case.shapes:
            a = ops_in(e, [])
            if len(a) >= 3 and len(set(a)) >= 2:
                return case.src
        return None


class Ops(Base):
    """One operator, edge operands, each operand in one of the forms a program can have it in."""
    name = "ops"
    weight = 2

    def generate(self, d):
        g = Gen(d, Opts(edge=0.9))
        ns = Sym("ns", "ns", ns={})
        top, fbody, params, args, obs = [], [], [], [], []
        nsbody = []
        f = Sym("func", "f", ret="Void", params=params, external=False)
        infunc = d.bool(0.6)
        ids = 0
        keys = []
        for _ in range(d.range(1, 14)):
            t, op = d.pick(OPS)
            a, b = self.value(d, t), self.value(d, t)
            if d.bool(0.15):
                b = a
            if t == "Int" and op == "^":
                b = d.range(0, 8) if d.bool(0.9) else d.range(0, 70)
            if t == "Int" and op in ("<<", ">>"):
                b = d.range(0, 63)
            try:
                binop(op, t, a, b)
            except Undefined:
                continue
            sides = []
            for side, v in enumerate((a, b)):
                ids += 1
                nm = "v%d" % ids
                form = d.below(9)
                if form == 8 and not infunc:
                    form = 7
                lit = Lit(t, v)
                if form == 0 and op in ("/", "mod") and side == 1 and t == "Int":
                    form = 1 if v == 0 else 0
                if form == 0:
                    e = lit
                elif form in (1, 2):
                    s = Sym("var", nm, type=t, mut=form == 2, glob=True)
                    top.append(("def", s, lit, None))
                    e = Var(s)
                elif form == 3:
                    s = Sym("var", nm, type=t, mut=d.bool(), glob=False, owner=f if infunc else None)
                    (fbody if infunc else top).append(("def", s, lit, None))
                    e = Var(s)
                elif form == 4:
                    e = Call(g.ext("op_" + t.lower()), [lit])
                elif form == 5:
                    s = Sym("var", nm, type=t, mut=d.bool(), glob=True)
                    top.append(("def", s, lit, None))
                    r = Sym("var", nm + "r", type="&" + t, glob=not infunc, owner=f if infunc else None)
                    (fbody if infunc else top).append(("def", r, Ref(Var(s)), None))
                    e = Deref(Var(r))
                elif form == 6:
                    s = Sym("var", nm, type=t, mut=d.bool(), glob=True)
                    nsbody.append(("def", s, lit, None))
                    e = Var(s, "ns." + nm)
                elif form == 7:
                    q = Sym("func", nm, ret=t, params=[], external=False, body=[("return", lit)])
                    top.append(("func", q))
                    e = Call(q, [])
                else:
                    p = Sym("var", nm, type=t, owner=f, is_param=True)
                    params.append(p)
                    args.append(lit)
                    e = Var(p)
                sides.append(e)
            e = Bin(op, sides[0], sides[1], RESULT(t, op))
            keys.append("%s %s %r %r" % (t, op, a, b))
            o = e.type
            if d.bool(0.2):
                un = Un("not" if o == "Bool" else "-", e) if o in ("Int", "Bool", "Float") else e
                try:
                    Interp().run([("def", Sym("var", "z", type=o), Un(un.op, Lit(o, binop(op, t, a, b))), None)]) if un is not e else None
                    e = un
                except Undefined:
                    pass
            obs.append(("call", Call(g.ext("obs_" + o.lower()), [e])))
        if not obs:
            raise Reject()
        stmts = []
        if nsbody:
            stmts.append(("ns", ns, nsbody))
        stmts += top
        if infunc:
            f.body = fbody + obs
            stmts += [("func", f), ("call", Call(f, args))]
        else:
            stmts += obs
        stmts = g.with_externals(stmts)
        out, code = Interp().run(stmts)
        return Prog(stmts, out=out, code=code, keys=keys)

    def value(self, d, t):
        if t == "Int":
            k = d.below(4)
            if k == 0:
                return d.range(-9, 9) if d.bool() else d.range(0, 100)
            if k == 1:
                return d.pick(INT_EDGE)
            if k == 2:
                return d.range(-(1 << 40), 1 << 40)
            return d.range(I64_MIN, I64_MAX)
        if t == "Float":
            k = d.below(4)
            if k == 0:
                return d.range(-40, 40) / 4.0
            if k == 1:
                return d.pick(FLOATS)
            if k == 2:
                return d.range(-10 ** 9, 10 ** 9) / 997.0
            return struct.unpack("<d", struct.pack("<Q", d.below(1 << 64)))[0]
        if t == "Bool":
            return d.bool()
        if t == "Rune":
            return d.pick(RUNES) if d.bool() else d.range(32, 126)
        if d.bool(0.5):
            return "".join(d.pick("ab") for _ in range(d.range(0, 3)))
        return "".join(d.pick(STR_PIECES) for _ in range(d.range(0, 3)))

    def nontrivial(self, case):
        return "\n".join(case.keys)


class Chains(Base):
    """Flat chains of operators without parentheses: the tokens are generated first, and parsed by the reference
    parser below with the documented table, so no printer is trusted."""
    name = "chains"

    def generate(self, d):
        g = Gen(d, Opts(edge=0.0))
        vals = {}
        head = []
        for i, nm in enumerate("abcdef"):
            v = d.range(-4, 9)
            s = Sym("var", nm, type="Int", mut=d.bool(), glob=True)
            head.append(("def", s, Lit("Int", v), None))
            vals[nm] = s
        for nm in "pqr":
            s = Sym("var", nm, type="Bool", mut=d.bool(), glob=True)
            head.append(("def", s, Lit("Bool", d.bool()), None))
            vals[nm] = s
        stmts = list(head)
        n = 0
        texts = []
        for _ in range(d.range(1, 6)):
            toks = self.chain(d, g, vals)
            try:
                e, at = self.parse(toks, 0, MAX_PREC)
            except (Reject, IndexError):
                continue
            if at != len(toks) or e.type not in ("Int", "Bool"):
                continue
            trial = [("call", Call(g.ext("obs_" + e.type.lower()), [e]))]
            try:
                Interp().run(head + trial)
            except Undefined:
                continue
            n += 1
            texts.append((e, toks))
            stmts += [("raw", ["obs_" + e.type.lower(), "("] + [t if isinstance(t, str) else t.text if isinstance(t, Lit) else t.path for t in toks] + [")"])]
        if not n:
            raise Reject()
        out, code = Interp().run(head + [("call", Call(g.ext("obs_" + e.type.lower()), [e])) for e, _ in texts])
        stmts = g.with_externals(stmts)
        return Prog(stmts, out=out, code=code, toks=texts)

    def chain(self, d, g, vals):
        toks = []
        boolean = d.bool(0.5)

        def int_atom():
            k = d.below(8)
            if k == 0:
                toks.append("-")
            if k == 1:
                toks.append("(")
                a = d.pick("abcdef")
                toks.append(Var(vals[a]))
                toks.append(d.pick(["+", "-", "*"]))
                toks.append(Lit("Int", d.range(0, 9)))
                toks.append(")")
                return
            if d.bool(0.5):
                toks.append(Var(vals[d.pick("abcdef")]))
            else:
                toks.append(Lit("Int", d.range(0, 7)))

        def int_chain(n):
            int_atom()
            for _ in range(n):
                op = d.pick(["+", "-", "*", "/", "mod", "^", "<<", ">>"])
                toks.append(op)
                if op == "^":
                    toks.append(Lit("Int", d.range(0, 3)))
                elif op in ("<<", ">>"):
                    toks.append(Lit("Int", d.range(0, 5)))
                elif op in ("/", "mod"):
                    toks.append(Lit("Int", d.range(1, 5)))
                else:
                    int_atom()

        def bool_atom():
            if d.bool(0.3):
                toks.append("not")
            if d.bool(0.25):
                toks.append("(")
                int_chain(d.below(2))
                toks.append(d.pick(["<", ">", "<=", ">=", "is", "isnt"]))
                int_chain(d.below(2))
                toks.append(")")
                return
            toks.append(Var(vals[d.pick("pqr")]) if d.bool() else Lit("Bool", d.bool()))

        if boolean:
            bool_atom()
            for _ in range(d.range(1, 6)):
                toks.append(d.pick(["and", "or", "xor", "is", "isnt"]))
                bool_atom()
        else:
            int_chain(d.range(1, 7))
            if d.bool(0.4):
                toks.append(d.pick(["<", ">", "<=", ">=", "is", "isnt"]))
                int_chain(d.range(0, 3))
        return toks

    # precedence climbing over the token list, straight from docs/expressions.md
    def parse(self, toks, at, level):
        if level == 1:
            return self.atom(toks, at)
        if level == UNARY_PREC:
            if isinstance(toks[at], str) and toks[at] in ("-", "not"):
                e, nxt = self.parse(toks, at + 1, 2)
                if toks[at] == "not" and e.type != "Bool" or toks[at] == "-" and e.type != "Int":
                    raise Reject()
                return Un(toks[at], e), nxt
            return self.parse(toks, at, 2)
        e, at = self.parse(toks, at, level - 1)
        while at < len(toks) and isinstance(toks[at], str) and PREC.get(toks[at]) == level:
            op = toks[at]
            if level == 2 and isinstance(toks[at + 1], str) and toks[at + 1] in ("-", "not"):
                raise Reject()
            r, at = self.parse(toks, at + 1, level - 1)
            t = e.type
            if r.type != t:
                raise Reject()
            want = {"and": "Bool", "or": "Bool", "xor": "Bool", "is": t, "isnt": t}.get(op, "Int")
            if t != want:
                raise Reject()
            e = Bin(op, e, r, RESULT(t, op))
        return e, at

    def atom(self, toks, at):
        t = toks[at]
        if isinstance(t, str):
            if t != "(":
                raise Reject()
            e, at = self.parse(toks, at + 1, MAX_PREC)
            if at >= len(toks) or toks[at] != ")":
                raise Reject()
            return Paren(e), at + 1
        return t, at + 1

    def nontrivial(self, case):
        return case.src if any(len(ops_in(e, [])) >= 3 for e, _ in case.toks) else None


TESTS = [Exprs, Ops, Chains]
