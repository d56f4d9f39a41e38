"""The C backend: emitted C is compiled with cc, run, and compared with the reference interpreter."""
import os

from .common import *
from lib.scale import Scale
from lib.aliasing import Aliases

ID = "C03"
BUDGET = 45
RULE = "the program contains at least 2 different kinds of: if, while, function call, assignment, reference, operator"
ASSUMPTIONS = ["cc is gcc (some cases: clang, gcc -O2) with -include stdbool.h (the emitted C uses bool without including it)",
               "the recorded limits of the C backend are not generated: namespaces, nested functions, several calls in one expression, "
               "calls in and/or, >> on negative values, literal-only Int arithmetic past 32 bit, dereferences in top level initialisers, C keywords as names"]

C_WORDS = {"auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum", "extern", "float", "for", "goto", "if",
           "inline", "int", "long", "register", "restrict", "return", "short", "signed", "sizeof", "static", "struct", "switch", "typedef", "union",
           "unsigned", "void", "volatile", "while", "bool", "true", "false", "main", "init", "asm"}


def c_int(e):
    """The exact value when C computes `e` in int (all leaves are literals), None when it is 64 bit there."""
    if isinstance(e, Paren):
        return c_int(e.e)
    if isinstance(e, Lit):
        if e.value == I64_MIN:
            raise Reject()
        return e.value if -(1 << 31) < e.value < (1 << 31) else None
    if isinstance(e, Un):
        v = c_int(e.e)
        return None if v is None else fits(-v)
    if isinstance(e, Bin):
        a, b = c_int(e.l), c_int(e.r)
        if e.op == "^":
            return None
        if e.op in ("<<", ">>"):
            if a is None:
                return None
            if a < 0 or b is None or b > 30:
                raise Reject()
            return fits(binop(e.op, "Int", a, b))
        if a is None or b is None:
            return None
        return fits(binop(e.op, "Int", a, b))
    return None


def fits(v):
    if not -(1 << 31) < v < (1 << 31):
        raise Reject()
    return v


def const_init(e):
    return not any(isinstance(x, Deref) for x in sub(e))


def walk_exprs(stmts, fn, top=True):
    for s in stmts:
        if s[0] in ("def", "set"):
            fn(s[2])
        elif s[0] == "if":
            for c, b in s[1]:
                fn(c)
                walk_exprs(b, fn)
            if s[2]:
                walk_exprs(s[2], fn)
        elif s[0] == "while":
            fn(s[1])
            walk_exprs(s[2], fn)
        elif s[0] == "return" and s[1] is not None:
            fn(s[1])
        elif s[0] == "call":
            fn(s[1])
        elif s[0] == "func":
            walk_exprs(s[1].body, fn)


def sub(e):
    yield e
    if isinstance(e, Bin):
        yield from sub(e.l)
        yield from sub(e.r)
    elif isinstance(e, (Un, Paren)):
        yield from sub(e.e)
    elif isinstance(e, Call):
        for a in e.args:
            yield from sub(a)


def look(e):
    """Leaves out arithmetic on literals which C does in int, and that int is too small for."""
    for x in sub(e):
        if x.type == "Int":
            c_int(x)
        if isinstance(x, Bin) and x.l.type == "Int":
            c_int(x.l), c_int(x.r)


class CGen(Gen):
    def define(self, t=None, mut=None, expr=None):
        if self.scope.kind == "top" and expr is None:
            t = t or self.pick_type()
            expr = self.lit(t) if self.d.bool(0.3) else self.expr(t)
            if not const_init(expr):
                expr = self.lit(t)
        return Gen.define(self, t, mut, expr)


class Programs(Test):
    name = "cprograms"

    def generate(self, d):
        exports = d.bool(0.2)
        g = CGen(d, Opts(size=d.range(3, 22), depth=3, poke=1, namespaces=False, nested_funcs=False, max_calls=1, bool_calls=False, rshift_neg=False,
                         func_export=0.8 if exports else 0.1))
        stmts = g.program()
        back = add_callbacks(g, stmts) if exports else []

        walk_exprs(stmts, look)
        it = Interp()
        out, code = it.run(stmts)
        return Prog(stmts, out=out, code=code, how=d.weighted([(12, ("gcc", "-O0")), (1, ("gcc", "-O2")), (1, ("clang", "-O0"))]), flags=["-g"] if d.bool(0.2) else [], side="#include \"skull/Skull.h\"\n" + "".join(map(c_callback, back)) if back else None)

    def check(self, case):
        b = self.box
        c, cc = build_c(b, case.src, case.side, case.how, case.flags)
        if not c.ok:
            raise Failure("rejected", "a valid program was rejected: %s" % c.brief())
        if cc is None:
            raise Failure("no-output", "no C was written: %s" % c.brief())
        if not cc.ok:
            raise Failure("bad-c", "cc rejects the emitted C: %s" % cc.brief())
        compare_run(c, b.exe("p"), case.out, case.code, "compiled C")
        self.linkage(case)

    def linkage(self, case):
        """The linker sees the exports, and no others."""
        top = [s[1] for s in case.stmts if s[0] in ("func", "def")]
        private = {s.name for s in top if not s.export} - self.taken()
        exported = {s.name for s in top if s.export}
        if not top:
            return
        got = self.symbols()
        for n in exported:
            if "p." + n not in got:
                raise Failure("symbols", "%s is exported, but the C has no symbol p.%s" % (n, n))
        for n in private:
            if n in got or "p." + n in got:
                raise Failure("symbols", "%s is private, but other files see it" % n)

    def symbols(self):
        return set(self.box.call(["/usr/bin/nm", "--defined-only", "-g", "--format=just-symbols", "p"]).out.decode("utf-8", "replace").split("\n"))

    def taken(self):
        """What is in every program."""
        if not hasattr(self, "always"):
            b = self.box
            b.put("side.c", "int main(void) { return 0; }\n")
            b.call(["/usr/bin/gcc", "-fno-pie", "-no-pie", "side.c", b.obs, "-o", "empty", "-lm"], timeout=30)
            self.always = set(b.call(["/usr/bin/nm", "--defined-only", "-g", "--format=just-symbols", "empty"]).out.decode().split("\n"))
            b.drop("side.c", "empty")
        return self.always

    def describe(self, case):
        return "// skull --c-backend %s; %s\n" % (" ".join(case.flags), " ".join(case.how)) + case.src + ("---- side.c ----\n" + case.side if case.side else "")

    def nontrivial(self, case):
        st = stats_of(case.stmts)
        kinds = sum(1 for k in ("if", "while", "call", "set", "ref") if st.get(k)) + any(k.startswith("op ") for k in st)
        return case.src if kinds >= 2 else None


class Large(Programs):
    """Many, long and deep things."""
    name = "scale"
    quick_cases = 700

    def generate(self, d):
        g = Scale(d, ("deep_ns", "wide_ns", "nested_funcs", "top refs"))
        stmts = g.program()
        exports = d.pick([0, 0.1, 0.5])
        for s in stmts:
            if s[0] == "func" and d.bool(exports):
                s[1].export = True
        walk_exprs(stmts, look)
        it = Interp(max_steps=600000, max_obs=3000, max_depth=400)
        out, code = it.run(stmts)
        return Prog(stmts, out=out, code=code, side=None, how=("gcc", "-O0"), flags=[])

    def nontrivial(self, case):
        return case.src if case.out else None


class Aliasing(Programs):
    """Variables with several names."""
    name = "aliases"
    quick_cases = 600

    def generate(self, d):
        stmts = Aliases(d, c=True).program()
        walk_exprs(stmts, look)
        out, code = Interp().run(stmts)
        return Prog(stmts, out=out, code=code, side=None, how=d.pick([("gcc", "-O0"), ("gcc", "-O2")]), flags=[])

    def nontrivial(self, case):
        return case.src if len(case.out) >= 3 else None


# not @ (symbol versions) and \ (GNU as does not find the end of quoted names that end in one)
NAME_CHARS = "abcxyz019-+ .,_'\"%$#&()*=~^é漢!?[]{}<>|;:"


class FileNames(Test):
    """Any file name: the C compiles, and has the symbols that the other backend makes."""
    name = "file-names"
    quick_cases = 500

    def generate(self, d):
        def name(n):
            return "".join(d.pick(NAME_CHARS) for _ in range(d.range(1, n)))
        folder = name(3).replace(".", "d").lstrip("-") + "/" if d.bool(0.3) else ""
        file = d.pick(["my-prog", "my prog", "1", "a.b", "x+y"]) if d.bool(0.2) else name(6).lstrip("-") or "p"
        if folder == "/":
            folder = ""
        text, names, total = "", [], 0
        for i in range(d.weighted([(9, d.range(0, 3)), (1, d.range(4, 12))])):
            v, k = d.range(1, 20), d.pick(["func", "const", "global"])
            names.append("v%d" % i)
            if k == "func":
                text += "export v%d() Int {\n\treturn %d\n}\n" % (i, v)
            elif k == "const":
                text += "export v%d := %d\n" % (i, v)
            else:
                text += "g%d() Int {\n\treturn %d\n}\nexport v%d := g%d()\n" % (i, v, i, i)
            total += v
        text += "return " + " + ".join("v%d%s" % (i, "()" if "v%d()" % i in text else "") for i in range(len(names))) + "\n" if names else "return 3\n"
        return Prog([], text, names=names, total=total or 3, file=folder + file, cc=d.pick(["gcc", "gcc", "clang"]), flags=["-g"] if d.bool(0.5) else [])

    def describe(self, case):
        return "// %r %s %s\n" % (case.file + ".sk", case.cc, case.flags) + case.src

    def nontrivial(self, case):
        return self.describe(case)

    def check(self, case):
        b = self.box
        b.fresh()
        folder = os.path.dirname(case.file)
        if folder:
            os.makedirs(os.path.join(b.work, folder))
        b.put(case.file + ".sk", case.src)
        c = b.skull(case.file + ".sk", "--c-backend", "-o", "out.c", *case.flags)
        if not c.ok or not b.has("out.c"):
            raise Failure("rejected", "a valid program was rejected: %s" % c.brief())
        cc = b.call(["/usr/bin/" + case.cc, "-w", *case.flags, "-include", "stdbool.h", "-fno-pie", "-no-pie", "out.c", "-o", "p", "-lm"], timeout=30)
        if not cc.ok:
            raise Failure("bad-c", "cc rejects the emitted C: %s" % cc.brief())
        x = b.exe("p")
        if x.kind != "e" or x.code != case.total:
            raise Failure("exit-code", "expected %d: %s" % (case.total, x.brief()))
        c = b.skull(case.file + ".sk", "-c", "-o", "out.o")
        if not c.ok:
            raise Failure("rejected", "a valid program was rejected: %s" % c.brief())
        want = b.call(["/usr/bin/nm", "--defined-only", "-g", "--format=just-symbols", "out.o"]).out.split(b"\n")
        got = b.call(["/usr/bin/nm", "--defined-only", "-g", "--format=just-symbols", "p"]).out.split(b"\n")
        missing = [n for n in want if n not in got and n.rpartition(b".")[2].decode() in case.names]
        if missing or sum(n.rpartition(b".")[2].decode() in case.names for n in want) != len(case.names):
            raise Failure("symbols", "the C lacks the symbols %s of the object: %s, %s" % (missing, want, got[:40]))


EXT = "external obs_int(v: Int)\nexternal obs_bool(v: Bool)\nexternal id_bool(v: Bool) Bool\n"
PROBES = {
    # id of the known finding: (program, what it prints by the language)
    "c-short-circuit": (EXT + "obs_bool(id_bool(false) and id_bool(true))\n", b"B 0\nB 1\nb 0\n"),
    "c-arithmetic-shift": (EXT + "mut x := -8\nx = -8\nobs_int(x >> 1)\n", b"i 7ffffffffffffffc\n"),
    "c-int-literals": (EXT + "obs_int(2147483647 + 1)\n", b"i 80000000\n"),
}


def build_c(b, src, side=None, how=("gcc", "-O0"), flags=()):
    b.put("p.sk", src)
    b.drop(".p.sk.c", "p")
    c = b.skull("p.sk", "--c-backend", *flags)
    if c.ok and b.has(".p.sk.c"):
        if side:
            b.put("side.c", side)
        cc = b.call(["/usr/bin/" + how[0], "-w", how[1], *flags, "-include", "stdbool.h", "-fno-pie", "-no-pie", ".p.sk.c", *(["-I" + os.path.join(b.top, "src"), "side.c"] if side else []), b.obs, "-o", "p", "-lm"], timeout=30)
        return c, cc
    return c, None


def probe(box, entry):
    src, want = PROBES[entry["id"]]
    c, cc = build_c(box, src)
    return not (cc and cc.ok and box.exe("p").out == want)


TESTS = [Programs, Large, Aliasing, FileNames]
