"""Programs with many, long or deep things: whatever a compiler counts, numbers or nests."""
from .gen import *

LADDER = [3, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]
DEEP = [3, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 90]


def i(v):
    return Lit("Int", v)


class Scale(Gen):
    def __init__(self, d, without=()):
        self.without = without
        Gen.__init__(self, d, Opts(names=["v", "f", "n", "x", "item", "T", "aa", "z_"]))
        self.number = 0
        self.kinds = []

    def name(self, base="g"):
        self.number += 1
        return "%s%d" % (base, self.number)

    def obs(self, e):
        t = e.sym.ret if isinstance(e, Call) else e.type
        return ("call", Call(self.ext("obs_" + t.lower()), [e]))

    def some(self, n, k=5):
        """A few of the numbers below n, the ends more often."""
        d = self.d
        return [d.weighted([(2, n - 1), (1, 0), (1, n // 2), (4, d.below(n))]) for _ in range(k)]

    def var(self, t="Int", mut=False, name=None, owner=None):
        return Sym("var", name or self.name(), type=t, mut=mut, owner=owner)

    def function(self, params, ret, body=None):
        return Sym("func", self.name(), ret=ret, params=params, external=False, body=body)

    def program(self):
        d = self.d
        out = []
        pieces = [self.chain, self.nest, self.variables, self.functions, self.deep_ns, self.wide_ns, self.big_loop, self.long_body, self.recursion, self.long_expr,
                  self.nested_calls, self.nested_funcs, self.strings, self.refs, self.parameters, self.parens]
        for _ in range(d.weighted([(4, 1), (2, 2), (1, 3)])):
            piece = d.pick([p for p in pieces if p.__name__ not in self.without])
            self.kinds.append(piece.__name__)
            d.label(piece.__name__)
            out += piece()
        if d.bool(0.3):
            out.append(("return", i(d.below(256))))
        return self.with_externals(out)

    def chain(self):
        """if, many elif, else"""
        d = self.d
        n = d.pick(LADDER)
        p = self.var(name="p%d" % self.number)
        f = self.function([p], "Int")
        r = self.var(mut=True)
        ends = d.pick(["set", "return", "mixed"])
        arms = []
        for k in range(n):
            v = i(k * 7 + 1)
            arms.append((Bin("is", Var(p), i(k), "Bool"), [("return", v)] if ends == "return" or ends == "mixed" and k % 3 == 1 else [("set", Var(r), v)]))
        other = d.pick([None, [("set", Var(r), i(-1))], [("return", i(-2))]])
        f.body = [("def", r, i(-3), None), ("if", arms, other), ("return", Var(r))]
        return [("func", f)] + [self.obs(Call(f, [i(k)])) for k in self.some(n) + [n]]

    def nest(self):
        """Blocks in blocks; what comes after the inner ones runs too, unless a loop is left"""
        d = self.d
        n = d.pick(DEEP)
        p = self.var(name="p%d" % self.number)
        f = self.function([p], "Int")
        total = self.var(mut=True)
        inner = d.pick([[("return", Var(total))], [("set", Var(total), Bin("+", Var(total), i(1000), "Int"))]])
        hows = d.pick([["if"], ["while"], ["if", "while", "else", "elif"]])
        loops = 0
        body = inner
        for k in range(n, 0, -1):
            how = d.pick(hows)
            local = self.var()
            after = [("set", Var(total), Bin("+", Var(total), Var(local), "Int"))]
            body = [("def", local, Bin("+", Var(p), i(k), "Int"), None)] + body + (after if body[-1][0] not in ("return", "break", "continue") else [])
            cond = Bin(">", Var(p), i(-k), "Bool")
            if how == "if":
                body = [("if", [(cond, body)], d.pick([None, [("set", Var(total), i(k))]]))]
            elif how == "else":
                body = [("if", [(Un("not", Paren(cond)), [("set", Var(total), i(k))])], body)]
            elif how == "elif":
                body = [("if", [(Bin("<", Var(p), i(-200), "Bool"), [("noop",)]), (cond, body)], None)]
            else:
                # goes round once or twice
                loops += 1
                c = self.var(mut=True)
                rounds = 2 if loops <= 6 and d.bool(0.5) else 1
                step = ("set", Var(c), Bin("+", Var(c), i(1), "Int"))
                if body[-1][0] not in ("return",) and d.bool(0.3):
                    body = body + [(d.pick(["break", "continue"]),)]
                body = [("def", c, i(0), None), ("while", Bin("<", Var(c), i(rounds), "Bool"), [step] + body)]
        f.body = [("def", total, i(0), None)] + body + [("return", Var(total))]
        return [("func", f)] + [self.obs(Call(f, [i(v)])) for v in (0, 5, -n // 2, -n - 1)]

    def variables(self):
        """Many variables, at the top or in a function"""
        d = self.d
        n = d.pick(LADDER)
        inside = d.bool()
        vs = [self.var(d.pick(BASIC), d.bool()) for _ in range(n)]
        body = [("def", v, self.lit(v.type), None) for v in vs]
        for k in self.some(n, 8):
            if vs[k].mut:
                body.append(("set", Var(vs[k]), self.lit(vs[k].type)))
        reads = [self.obs(Var(vs[k])) for k in self.some(n, 8)]
        ints = [v for v in vs if v.type == "Int"]
        if ints:
            t = Var(ints[0])
            for v in ints[1:]:
                t = Bin("+", t, Var(v), "Int")
            reads.append(self.obs(t))
        if inside:
            f = self.function([], "Void", body + reads)
            return [("func", f), ("call", Call(f, []))]
        for v in vs:
            v.glob = True
        return body + reads

    def functions(self):
        """Many functions, which call earlier ones"""
        d = self.d
        n = d.pick(LADDER)
        fs, out = [], []
        for k in range(n):
            p = self.var(name="p")
            e = Bin("+", Var(p), i(k * k), "Int")
            if fs and d.bool(0.5) :
                g = d.pick(fs[-20:]) if d.bool(0.7) else d.pick(fs)
                if g.depth < 40:
                    e = Bin("+", Call(g, [Var(p)]), i(k), "Int")
            f = self.function([p], "Int", [("return", e)])
            f.depth = 1 + (e.l.sym.depth if isinstance(e.l, Call) else 0)
            fs.append(f)
            out.append(("func", f))
        return out + [self.obs(Call(fs[k], [i(d.range(0, 9))])) for k in self.some(n, 8)]

    def deep_ns(self):
        d = self.d
        n = d.pick(DEEP[:13])
        path, leaves = "", []
        names = [self.name(d.pick(["n", "n", "namespace_with_a_long_name_"])) for _ in range(n)]

        def level(k, path):
            ns = Sym("ns", names[k])
            here = path + names[k] + "."
            body = []
            v = self.var(mut=d.bool(0.3), name="v%d" % k)
            v.glob = True
            v.const_expr = True
            body.append(("def", v, i(k * 3), None))
            leaves.append((v, here + v.name))
            f = Sym("func", "f%d" % k, ret="Int", params=[], external=False, body=[("return", i(k * 5 + 1))])
            body.append(("func", f))
            leaves.append((f, here + f.name))
            if k + 1 < n:
                body.insert(d.below(len(body) + 1), level(k + 1, here))
            return ("ns", ns, body)

        out = [level(0, "")]
        for k in self.some(len(leaves), 8):
            s, p = leaves[k]
            out.append(self.obs(Var(s, p) if s.kind == "var" else Call(s, [], p)))
            if s.kind == "var" and s.mut:
                out += [("set", Var(s, p), i(k)), self.obs(Var(s, p))]
        return out

    def wide_ns(self):
        d = self.d
        n = d.pick(LADDER)
        ns = Sym("ns", self.name("n"))
        vs = [self.var(mut=d.bool(0.3), name="m%d" % k) for k in range(n)]
        for v in vs:
            v.glob = True
        out = [("ns", ns, [("def", v, i(k * 11), None) for k, v in enumerate(vs)])]
        for k in self.some(n, 8):
            p = "%s.m%d" % (ns.name, k)
            if vs[k].mut:
                out.append(("set", Var(vs[k], p), i(k)))
            out.append(self.obs(Var(vs[k], p)))
        return out

    def big_loop(self):
        """More rounds than 16 bits count"""
        d = self.d
        n = d.pick([300, 1000, 5000, 32768, 65535, 65536, 65537, 70000])
        p = self.var(name="p%d" % self.number)
        f = self.function([p], "Int")
        c, t, l = self.var(mut=True), self.var(mut=True), self.var(mut=d.bool())
        body = [("set", Var(c), Bin("+", Var(c), i(1), "Int"))]
        k = d.below(4)
        if k == 1:
            body.append(("if", [(Bin("is", Bin("mod", Var(c), i(3), "Int"), i(0), "Bool"), [("continue",)])], None))
        body.append(("def", l, Bin("*", Var(c), i(3), "Int"), None))
        body.append(("set", Var(t), Bin("+", Var(t), Var(l), "Int")))
        cond = Bin("<", Var(c), Var(p), "Bool")
        if k == 2:
            body.append(("if", [(Bin("is", Var(c), i(n - 3), "Bool"), [("break",)])], None))
        if k == 3:
            body.append(("if", [(Bin(">", Var(t), i(n), "Bool"), [("set", Var(t), Bin("-", Var(t), i(n), "Int"))])], None))
        # statements that need storage or a value each round
        extra, funcs = [], []
        for _ in range(d.weighted([(2, 0), (2, 1), (1, 2)])):
            w = d.weighted([(2, 0), (1, 1), (1, 2), (1, 3), (1, 4)])
            if w == 0:
                extra.append(("noop",))
            elif w == 1:
                v = self.var(d.pick(BASIC), d.bool())
                extra.append(("def", v, self.lit(v.type), None))
                if v.mut:
                    extra.append(("set", Var(v), self.lit(v.type)))
            elif w == 2:
                q = self.var()
                g = self.function([q], "Int", [("noop",), ("return", Bin("+", Var(q), i(1), "Int"))])
                funcs.append(("func", g))
                extra.append(("set", Var(t), Call(g, [Var(t)])))
            elif w == 3:
                v = self.var(mut=True)
                extra.append(("if", [(Bin("<", Var(t), Var(p), "Bool"), [("def", v, Var(t), None), ("set", Var(v), Bin("+", Var(v), i(1), "Int")), ("noop",)])], [("noop",)]))
            else:
                v, w = self.var(mut=True), self.var(mut=True)
                extra.append(("def", v, i(0), None))
                extra.append(("while", Bin("<", Var(v), i(2), "Bool"), [("def", w, Var(v), None), ("set", Var(w), Bin("+", Var(w), i(1), "Int")), ("set", Var(v), Var(w)), ("noop",)]))
                if n > 5000:
                    n = 32768
        body[1:1] = extra
        f.body = [("def", c, i(0), None), ("def", t, i(0), None), ("while", cond, body), ("return", Bin("+", Var(t), Var(c), "Int"))]
        return funcs + [("func", f), self.obs(Call(f, [i(n)]))]

    def long_body(self):
        d = self.d
        n = d.pick(LADDER)
        t = self.var(mut=True)
        body = [("def", t, i(1), None)]
        for k in range(n):
            w = d.below(6)
            if w == 0:
                body.append(("if", [(Bin("<", Var(t), i(d.range(0, 300)), "Bool"), [("set", Var(t), Bin("+", Var(t), i(k), "Int"))])], None))
            elif w == 1:
                body.append(("set", Var(t), Bin("mod", Var(t), i(d.range(2, 1000)), "Int")))
            elif w == 2:
                body.append(("noop",))
            elif w == 3:
                body.append(self.obs(Var(t)))
            else:
                body.append(("set", Var(t), Bin("+", Bin("mod", Bin("*", Var(t), i(d.range(1, 9)), "Int"), i(1009), "Int"), i(k), "Int")))
        if d.bool():
            f = self.function([], "Int", body + [("return", Var(t))])
            return [("func", f), self.obs(Call(f, []))]
        t.glob = True
        return body + [self.obs(Var(t))]

    def recursion(self):
        d = self.d
        n = d.pick(DEEP + [150, 256, 300])
        p = self.var(name="p%d" % self.number)
        f = self.function([p], "Int")
        l = self.var(mut=d.bool())
        r = self.var()
        f.body = [("if", [(Bin("<=", Var(p), i(0), "Bool"), [("return", i(d.range(0, 9)))])], None),
                  ("def", l, Bin("*", Var(p), i(2), "Int"), None), ("def", r, Call(f, [Bin("-", Var(p), i(1), "Int")]), None), ("return", Bin("+", Var(l), Var(r), "Int"))]
        return [("func", f), self.obs(Call(f, [i(n)]))]

    def long_expr(self):
        """One expression with many operators, leaning left, right or both ways"""
        d = self.d
        n = d.pick(LADDER)
        t, ops = d.pick([("Int", "+-"), ("Int", "+*-"), ("Bool", ["and", "or", "xor"]), ("Float", "+-")])
        vs = [self.var(t, True) for _ in range(3)]
        for v in vs:
            v.glob = True
        defs = [("def", v, self.lit(t) if t != "Int" else i(d.range(0, 3)), None) for v in vs]

        def leaf():
            k = d.below(4)
            if k == 0:
                return i(d.range(0, 2)) if t == "Int" else self.lit(t)
            if k == 1:
                return Call(self.ext("op_" + t.lower()), [Var(d.pick(vs))])
            return Var(d.pick(vs))

        lean = d.pick(["left", "right"])
        e = leaf()
        times = 0
        for k in range(n):
            op = d.pick(ops)
            if op == "*":
                times += 1
                if times > 12:
                    op = "+"
            l, r = (e, leaf()) if lean == "left" else (leaf(), e)
            if lean == "right" and k >= 90:
                break
            e = Bin(op, l, r, t)
        return defs + [self.obs(e)]

    def nested_calls(self):
        d = self.d
        n = d.pick(DEEP)
        p, q = self.var(name="p%d" % self.number), self.var(name="q%d" % self.number)
        f = self.function([p, q], "Int", [("return", Bin("-", Bin("*", i(2), Var(p), "Int"), Var(q), "Int"))])
        e = i(1)
        for k in range(n):
            other = i(d.range(0, 3)) if d.bool() else Call(self.ext("op_int"), [i(k)])
            e = Call(f, [Bin("mod", e, i(97), "Int"), other])
        return [("func", f), self.obs(e)]

    def parens(self):
        d = self.d
        n = d.pick(DEEP)
        v = self.var()
        v.glob = True
        e = Var(v)
        for k in range(n):
            w = d.below(4)
            e = Paren(e) if w < 2 else Paren(Bin("+", i(k), e, "Int")) if w == 2 else Un("-", Paren(e))
        return [("def", v, Call(self.ext("op_int"), [i(d.range(0, 99))]), None), self.obs(e)]

    def nested_funcs(self):
        """Functions in functions"""
        d = self.d
        n = d.pick(DEEP[:10])

        def level(k):
            p = self.var(name="p%d" % k)
            f = self.function([p], "Int", [])
            l = self.var()
            if k < n:
                inner = level(k + 1)
                g = inner[1]
                f.body = [inner] if d.bool() else [("noop",), inner]
                f.body += [("def", l, Call(g, [Bin("+", Var(p), i(k), "Int")]), None), ("return", Bin("+", Var(l), Var(p), "Int"))]
            else:
                f.body = [("return", Bin("*", Var(p), i(3), "Int"))]
            return ("func", f)

        top = level(0)
        return [top, self.obs(Call(top[1], [i(d.range(0, 50))]))]

    def strings(self):
        """Many strings, or a long one"""
        d = self.d
        if d.bool(0.4):
            n = d.pick(LADDER + [1000, 4096, 65534, 65535, 65536, 65537, 70000])
            unit = d.pick(["a", "ab\n", "\\", "é", "0123456789"])
            text = (unit * n)[:n]
            v = self.var("Str")
            v.glob = True
            # (what is observed is cut, so look at the length of the text with a comparison too)
            return [("def", v, Lit("Str", text), None), self.obs(Bin("is", Var(v), Lit("Str", text), "Bool")), self.obs(Bin("is", Var(v), Lit("Str", text[:-1]), "Bool")), self.obs(Var(v))]
        n = d.pick(LADDER)
        texts = ["s%d" % (k if not d.bool(0.1) else d.below(n)) for k in range(n)]
        vs = [self.var("Str") for _ in texts]
        for v in vs:
            v.glob = True
        return [("def", v, Lit("Str", t), None) for v, t in zip(vs, texts)] + [self.obs(Var(vs[k])) for k in self.some(n, 8)]

    def refs(self):
        """References to references, and down again"""
        d = self.d
        n = d.pick([2, 3, 5, 8, 9, 16])
        inside = d.bool() or "top refs" in self.without
        f = self.function([], "Void", []) if inside else None
        v = self.var(mut=True)
        out = [("def", v, i(d.range(0, 50)), None)]
        last = v
        for k in range(n):
            r = self.var("&" + last.type)
            out.append(("def", r, Ref(Var(last)), None))
            last = r
            if d.bool(0.3):
                out.append(("set", Var(v), i(k + 100)))
        while last.type.count("&") > 1:
            r = self.var(last.type[1:])
            out.append(("def", r, Deref(Var(last)), None))
            last = r
        out += [("set", Var(v), i(d.range(0, 50))), self.obs(Deref(Var(last)))]
        if not inside:
            return out
        f.body = out
        return [("func", f), ("call", Call(f, []))]

    def parameters(self):
        d = self.d
        n = d.pick(LADDER)
        ps = [self.var(d.pick(BASIC), name="p%d_%d" % (self.number, k)) for k in range(n)]
        shown = self.some(n, 6)
        f = self.function(ps, "Void", [self.obs(Var(ps[k])) for k in shown])
        again = self.function([Sym("var", p.name, type=p.type) for p in ps], "Void")
        again.body = [("call", Call(f, [Var(p) for p in again.params]))]
        return [("func", f), ("func", again), ("call", Call(again, [self.lit(p.type) for p in ps]))]
