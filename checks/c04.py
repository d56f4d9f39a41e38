"""Flags that must not change what a program does."""
import itertools, math, os
from .common import *
from lib.scale import Scale
from lib.aliasing import Aliases

ID = "C04"
BUDGET = 60
RULE = "the program makes at least 3 observations and uses a loop, a function or a branch; each is built under 3 flag sets besides the reference"
ASSUMPTIONS = ["Float ^ is left out: optimisation may replace pow by an equally accurate sequence",
               "the payload and sign of NaN are not observed"]

FLAGS = [list(filter(None, f)) for f in itertools.product(["", "-O1", "-O2", "-O3"], ["", "-g"], ["", "--llvm-no-verify"])]

PLAIN = [["-g"], ["-g", "--llvm-no-verify"]]


def build_with(box, src, mode, flags):
    """Returns (compile, run) for program p built in one mode."""
    if mode == "native":
        return box.build_and_run(src, flags)
    box.put("p.sk", src)
    box.drop("p", ".p.sk.o", ".p.sk.s")
    c = box.skull("p.sk", mode, *flags)
    if not c.ok:
        return c, None
    obj = ".p.sk.o"
    if mode == "-S":
        a = box.call(["/usr/bin/as", "--gdwarf-5", ".p.sk.s", "-o", ".p.sk.o"], timeout=20)
        if not a.ok:
            raise Failure("bad-asm", "the assembly from %s is not accepted: %s" % (flags, a.brief()))
    if not box.has(obj):
        return c, None
    l = box.call([os.path.join(box.top, "bin", "cc"), "-nostartfiles", os.path.join(box.top, "start.o"), obj, box.obs, "-o", "p", "-lm"], timeout=20)
    if not l.ok:
        raise Failure("link", "the output of %s %s does not link: %s" % (mode, flags, l.brief()))
    return c, box.exe("p")


class Flags(Test):
    name = "flags"

    def generate(self, d):
        g = Gen(d, Opts(size=d.range(3, 22), depth=2, float_pow=False, poke=2))
        stmts = g.program()
        it = Interp()
        out, code = it.run(stmts)
        sets = []
        for _ in range(3):
            sets.append((d.weighted([(4, "native"), (1, "-c"), (1, "-S")]), FLAGS[d.below(len(FLAGS))]))
        return Prog(stmts, out=out, code=code, sets=sets)

    def check(self, case):
        for mode, flags in [("native", [])] + case.sets:
            c, r = build_with(self.box, case.src, mode, flags)
            what = "binary from %s %s" % (mode, " ".join(flags) or "(no flags)")
            compare_run(c, r, case.out, case.code, what)

    def describe(self, case):
        return "%s\n# flag sets: %s" % (case.src, case.sets)

    def nontrivial(self, case):
        st = stats_of(case.stmts)
        return case.src + repr(case.sets) if len(case.out) >= 3 and (st.get("if") or st.get("while") or st.get("func")) else None


EDGE = {"Int": [0, 1, -1, 2, 3, -2, 7, 8, -8, 63, 64, 255, 256, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, 1 << 53, 1 << 61, 1 << 62, (1 << 62) + 1, 3 << 61, I64_MAX, I64_MIN, I64_MIN + 1, 0x5555555555555555],
        "Float": [0.0, -0.0, 1.0, -1.0, 0.5, 3.0, 0.1, 1e308, -1e308, 1.7976931348623157e308, 5e-324, 1e-310, 1e16, 9007199254740993.0, math.inf, -math.inf, math.nan],
        "Bool": [False, True]}
# {x} {y}: the parameters; {k}: a small number; the optimiser knows identities for each of these, right only when the generated code promises no more than the language does
SHAPES = {
    "Int": ["(x << k) / p", "(x << k) >> k", "(x << k) < z", "(x << k) is (y << k)", "(x << k) > x", "x mod p", "x / p", "x / p * p + x mod p", "x / y * y + x mod y", "(x >> k) << k", "(x >> k) < z",
            "x * p / p", "(x + k) - k is x", "x - y < z", "x * x >= z", "x mod p < z", "-x", "- (x - y)", "(x + y) / 2", "x << k << 1", "x >> k >> 1", "(x << k) mod p", "x ^ 2", "2 ^ k * x", "z - x", "x + x",
            "x - x", "x / x", "x mod x", "x is x", "(x << k) >= (y << k)", "(x >> k) - (y >> k)", "x < y is (y > x)", "(x + 1) > x", "(x << k) / (1 << k)"],
    "Float": ["x + z", "z + x", "x - z", "z - x", "x * z", "x - x", "x / x", "x is x", "x isnt x", "x * 1.0", "x / 3.0", "x * 3.0 / 3.0", "(x + y) - y", "(x + y) - x", "x + y + 1.0", "x * y * y", "x / y / y",
              "x * y + y", "x * y - x", "-x", "- (x - y)", "z - (x - y)", "x < y", "not (x < y)", "not (x >= y)", "x <= y", "x >= y", "x > y", "x is y", "x isnt y", "x mod y", "x mod 1.0", "x mod 2.0",
              "(x < y) or (x >= y)", "(x is y) or (x isnt y)", "(x < y) xor (x > y)", "x / y", "1.0 / x", "x / 2.0", "x / 10.0", "x + x", "x * 2.0", "x * x", "x + y is (y + x)"],
    "Bool": ["x and x", "x or y", "x xor y", "not x xor y", "x is y", "x isnt y", "not (x and y)", "x and not x", "x or not x", "(x xor y) xor y", "x is true", "x isnt false"],
}


def parse(text, env):
    """An expression over the names of `env`, by the precedence table of the reference model."""
    toks = text.replace("(", " ( ").replace(")", " ) ").split()

    def level(p):
        if p == 0:
            return atom()
        if p == UNARY_PREC and toks and toks[0] in ("-", "not"):
            op = toks.pop(0)
            return Un(op, level(p))
        l = level(p - 1)
        while toks and PREC.get(toks[0]) == p:
            op = toks.pop(0)
            l = Bin(op, l, level(p - 1), "Bool" if op in ("<", ">", "<=", ">=", "is", "isnt") else l.type)
        return l

    def atom():
        t = toks.pop(0)
        if t == "(":
            e = level(MAX_PREC)
            toks.pop(0)
            return Paren(e)
        if t.startswith("-"):
            return Un("-", env[t[1:]]())
        if t in env:
            return env[t]()
        if t in ("true", "false"):
            return Lit("Bool", t == "true")
        return Lit("Float", float(t)) if "." in t else Lit("Int", int(t))

    e = level(MAX_PREC)
    assert not toks, text
    return e


class Identities(Test):
    """Functions over edge values the compiler cannot see, in shapes which optimisers rewrite."""
    name = "identities"

    def generate(self, d):
        g = Gen(d, Opts())
        stmts = []
        used = set()
        for i in range(d.range(1, 4)):
            t = d.weighted([(5, "Int"), (5, "Float"), (1, "Bool")])
            k = d.weighted([(1, 0), (4, 1), (3, 2), (1, 3), (1, 8), (1, 31), (1, 32), (1, 62), (1, 63)])
            f = Sym("func", "f%d" % i, ret="Void", params=[], external=False)
            for n in "xy":
                q = Sym("var", n, type=t, mut=False, owner=f, is_param=True)
                q.init = t
                f.params.append(q)
            env = {"x": lambda: Var(f.params[0]), "y": lambda: Var(f.params[1]), "k": lambda: Lit("Int", k), "p": lambda: Lit("Int", 1 << min(k, 62)),
                   "z": lambda: Lit(t, 0 if t == "Int" else d.pick([0.0, -0.0]))}
            if t == "Float" and d.bool():
                zero = d.pick([0.0, -0.0])
                env["z"] = lambda: Lit("Float", zero, d.pick(["0.0", "0.00"]) if math.copysign(1, zero) > 0 else "-0.0")
            f.body = []
            for _ in range(d.range(1, 6)):
                shape = d.pick(SHAPES[t])
                used.add(shape)
                e = parse(shape, env)
                obs = Call(g.ext("obs_" + e.type.lower()), [e])
                if e.type == "Bool" and d.bool():
                    f.body.append(("if", [(e, [("call", Call(g.ext("obs_int"), [Lit("Int", 1)]))])], [("call", Call(g.ext("obs_int"), [Lit("Int", 2)]))]))
                else:
                    f.body.append(("call", obs))
            stmts.append(("func", f))
            calls = 0
            for _ in range(d.range(1, 8)):
                args = [Lit(t, d.pick(EDGE[t])) for _ in "xy"]
                if d.bool():
                    args = [Call(g.ext("op_" + t.lower()), [a]) for a in args]
                call = ("call", Call(f, args))
                try:
                    Interp().run([call])
                except Undefined:
                    continue
                stmts.append(call)
                calls += 1
            if not calls:
                raise Reject()
        stmts[:0] = [("ext", s) for s in g.externals.values()]
        out, code = Interp().run(stmts)
        sets = [("native", [x for x in (o, d.pick(["", "", "-g"])) if x]) for o in (d.pick(["-O1", "-O2"]), "-O3")]
        return Prog(stmts, out=out, code=code, sets=sets, used=used)

    check = Flags.check
    describe = Flags.describe

    def nontrivial(self, case):
        return case.src + repr(case.sets) if len(case.out) >= 3 else None


class Large(Flags):
    """Many, long and deep things."""
    name = "scale"
    quick_cases = 400

    def generate(self, d):
        stmts = Scale(d).program()
        out, code = Interp(max_steps=600000, max_obs=3000, max_depth=400).run(stmts)
        sets = [(d.weighted([(4, "native"), (1, "-c"), (1, "-S")]), d.pick(f)) for f in (FLAGS, PLAIN)]
        return Prog(stmts, out=out, code=code, sets=sets)


class Aliasing(Flags):
    """Variables with several names."""
    name = "aliases"

    def generate(self, d):
        stmts = Aliases(d).program()
        out, code = Interp().run(stmts)
        sets = [("native", [x for x in (o, d.pick(["", "", "-g"])) if x]) for o in (d.pick(["-O1", "-O2"]), "-O3")]
        return Prog(stmts, out=out, code=code, sets=sets)

    def nontrivial(self, case):
        return case.src + repr(case.sets) if len(case.out) >= 3 else None


TESTS = [Flags, Identities, Large, Aliasing]
