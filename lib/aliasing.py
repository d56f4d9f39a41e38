"""Programs in which the same variable has several names: references, parameters, and C code that writes through them."""
from .gen import *


class Aliases(Gen):
    def __init__(self, d, c=False):
        Gen.__init__(self, d, Opts(edge=0.1, unicode_text=False))
        self.c = c              # stay in what the C backend supports
        self.calls_in_expr = not c
        self.number = 0
        self.kinds = [d.pick(BASIC) for _ in range(d.range(1, 2))]
        self.globals, self.grefs, self.fns = [], [], []
        self.steps = 0

    def name(self, base):
        self.number += 1
        return "%s%d" % (base, self.number)

    # what may be used at a place: `owner` is the function, `params` and `locals` its symbols
    def values(self, t, here):
        out = [g for g in self.globals if g.type == t]
        return out + [s for s in here if s.type == t]

    def refs(self, t, here, read=False):
        """The references to `t`, without those to constants unless they are only read."""
        return [r for r in self.grefs + here if r.type == "&" + t and (read or r.line != "constant")]

    def value(self, t, here, deep=True):
        d = self.d
        opts = [(1, "lit"), (3, "var")]
        if self.refs(t, here, True):
            opts.append((5, "deref"))
        if deep and t in ("Int", "Float", "Bool"):
            opts.append((3, "op"))
        k = d.weighted(opts)
        if k == "var":
            vs = self.values(t, here)
            return Var(d.pick(vs)) if vs else self.lit(t)
        if k == "deref":
            return Deref(Var(d.pick(self.refs(t, here, True))))
        if k == "op":
            if t == "Bool":
                return Bin("xor", self.value(t, here, False), self.value(t, here, False), t)
            l, r = self.value(t, here, False), self.value(t, here, False)
            return Bin("is", l, r, "Bool") if t == "Bool" else Bin(d.pick("+-"), l, r, t)
        return self.small(t)

    def small(self, t):
        if t == "Int":
            return Lit(t, self.d.range(-9, 99))
        return self.lit(t)

    def ref(self, t, here):
        """A reference to a mutable variable."""
        d = self.d
        rs = self.refs(t, here)
        vs = [g for g in self.values(t, here) if g.mut]
        if rs and (not vs or d.bool(0.6)):
            return Var(d.pick(rs))
        return Ref(Var(d.pick(vs))) if vs else None

    def block(self, here, owner, size, depth=0):
        d = self.d
        out = []
        here = list(here)
        for _ in range(size):
            t = d.pick(self.kinds)
            k = d.weighted([(5, "obs"), (4, "set"), (4, "poke"), (3, "local"), (2, "ref"), (2, "constant"), (2, "call"), (1, "if"), (1, "while"), (1, "move")])
            if k in ("if", "while") and depth > 1:
                k = "obs"
            if k == "call" and not self.fns:
                k = "set"
            if k == "obs":
                out.append(("call", Call(self.ext("obs_" + t.lower()), [self.value(t, here)])))
            elif k == "set":
                vs = [v for v in self.values(t, here) if v.mut and v.line != "loop"]
                if vs:
                    v = d.pick(vs)
                    e = self.value(t, here)
                    if not (isinstance(e, Var) and e.sym is v):
                        out.append(("set", Var(v), e))
            elif k == "poke":
                to = self.ref(t, [h for h in here if h.line != "loop"])
                if to:
                    out.append(("call", Call(self.ext("poke_" + t.lower()), [to, self.value(t, here)])))
            elif k == "local":
                v = Sym("var", self.name("a"), type=t, mut=d.bool(0.5), owner=owner)
                plain = self.c and owner is None and not depth
                out.append(("def", v, self.small(t) if plain else self.value(t, here), None))
                here.append(v)
            elif k == "ref":
                to = self.ref(t, [h for h in here if h.line != "loop"])
                if to:
                    if self.c and owner is None and not depth:
                        if not isinstance(to, Ref):
                            continue
                    elif d.bool(0.7):
                        to = Call(self.ext("ref_" + t.lower()), [to])
                    v = Sym("var", self.name("q"), type="&" + t, mut=d.bool(0.3), owner=owner)
                    out.append(("def", v, to, None))
                    here.append(v)
            elif k == "constant":
                vs = [v for v in here if v.type == t and not v.mut]
                if vs:
                    v = Sym("var", self.name("k"), type="&" + t, mut=False, owner=owner, line="constant")
                    out.append(("def", v, Ref(Var(d.pick(vs[-2:]))), None))
                    here.append(v)
                    if d.bool():
                        out.append(("call", Call(self.ext("obs_" + t.lower()), [Deref(Var(v))])))
            elif k == "move":
                vs = [r for r in self.refs(t, here) if r.mut]
                if vs:
                    v = d.pick(vs)
                    # not to variables that end before the reference does
                    to = self.ref(t, [] if v in self.grefs else [h for h in here if h.is_param])
                    if to and not (isinstance(to, Var) and to.sym is v):
                        out.append(("set", Var(v), to))
            elif k == "call":
                f = d.pick(self.fns)
                args = []
                for p in f.params:
                    if p.type.startswith("&"):
                        to = self.ref(p.type[1:], [h for h in here if h.line != "loop"])
                        if to and self.calls_in_expr and d.bool(0.4):
                            to = Call(self.ext("ref_" + p.type[1:].lower()), [to])
                        args.append(to)
                    else:
                        args.append(self.value(p.type, here))
                if None in args:
                    continue
                call = Call(f, args)
                if f.ret == "Void":
                    out.append(("call", call))
                else:
                    vs = [v for v in self.values(f.ret, here) if v.mut and v.line != "loop"]
                    if vs and d.bool():
                        out.append(("set", Var(d.pick(vs)), call))
                    elif self.c and owner is None and not depth:
                        continue
                    elif self.calls_in_expr:
                        out.append(("call", Call(self.ext("obs_" + f.ret.lower()), [call])))
                    else:
                        v = Sym("var", self.name("a"), type=f.ret, mut=False, owner=owner)
                        out.append(("def", v, call, None))
                        here.append(v)
            elif k == "if":
                c = Bin(d.pick(["is", "isnt"]), self.value(t, here, False), self.value(t, here, False), "Bool")
                out.append(("if", [(c, self.block(here, owner, d.range(1, 3), depth + 1) or [("noop",)])],
                            (self.block(here, owner, d.range(1, 3), depth + 1) or [("noop",)]) if d.bool() else None))
            elif k == "while":
                i = Sym("var", self.name("i"), type="Int", mut=True, owner=owner, line="loop")
                out.append(("def", i, Lit("Int", 0), None))
                body = self.block(here + [i], owner, d.range(1, 4), depth + 1)
                body.append(("set", Var(i), Bin("+", Var(i), Lit("Int", 1), "Int")))
                out.append(("while", Bin("<", Var(i), Lit("Int", d.range(1, 4)), "Bool"), body))
        return out

    def function(self):
        d = self.d
        f = Sym("func", self.name("f"), ret=d.weighted([(1, "Void"), (1, None)]) or d.pick(self.kinds), params=[], external=False)
        for _ in range(d.range(1, 4)):
            t = d.pick(self.kinds)
            f.params.append(Sym("var", self.name("p"), type=t if d.bool(0.25) else "&" + t, mut=False, owner=f, is_param=True))
        f.body = self.block(f.params, f, d.range(1, 7))
        if f.ret != "Void":
            f.body.append(("return", self.value(f.ret, f.params)))
        elif not f.body:
            f.body.append(("noop",))
        return f

    def program(self):
        d = self.d
        out = []
        for t in self.kinds + [d.pick(self.kinds) for _ in range(d.range(0, 3))]:
            g = Sym("var", self.name("g"), type=t, mut=True)
            out.append(("def", g, self.small(t), None))
            self.globals.append(g)
        for _ in range(d.range(0, 2)):
            g = d.pick(self.globals)
            to = Ref(Var(g))
            r = Sym("var", self.name("r"), type="&" + g.type, mut=d.bool(0.4))
            out.append(("def", r, to, None))
            self.grefs.append(r)
        for _ in range(d.range(1, 4)):
            f = self.function()
            self.fns.append(f)
            out.append(("func", f))
            out += self.block([], None, d.range(0, 2))
        out += self.block([], None, d.range(3, 10))
        return self.with_externals(out)
