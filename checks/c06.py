"""Names: scopes, namespaces, redeclaration, constness; with many and colliding names."""
from .faults_common import *
from lib.faults import KEYWORDS

ID = "C06"
BUDGET = 45
RULE = ("name-faults: a valid program and the same program with one name fault (distinct faulty sources); "
        "names: the program declares at least 5 names and observes at least 3 values (distinct sources)")
ASSUMPTIONS = ["identifiers are letters, digits, `_` after the first character, and never keywords or builtin types",
               "nested functions use only constants of the functions around them"]

ALMOST = ["iff", "mutx", "mod1", "returns", "Integer", "Ints", "true1", "nota", "isnt1", "is1", "Voids", "whiles", "orx", "exports", "noops", "Bools", "main", "init",
          "exit", "printf", "memcpy", "malloc", "pow", "strcmp", "environ", "p", "self", "entry", "i64", "void", "int", "end", "start", "shim", "errno", "x86", "e", "E",
          "Infinity1", "NaNs", "Inf", "nan", "breaks", "elsee", "elifs", "ands", "xors", "namespaces", "imports", "unreachables"]
CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"


def pool(d):
    """Names chosen to be easy to mix up: equal sums of characters, shared prefixes and suffixes, cases, long ones."""
    out = []
    n = d.range(4, 30)
    kind = d.below(6)
    for _ in range(n):
        k = d.below(8) if kind == 5 else kind
        if k == 0:
            # only the first character differs
            name = d.pick("abcdefghijklmnopqrstuvwxyzABCXYZ") + d.pick(["", "1", "_a", "longer", "zz"])
        elif k == 1:
            name = "".join(d.pick("abAB") for _ in range(d.range(1, 4)))
        elif k == 2:
            base = d.pick(["prefix", "x", "value_of_"])
            name = base + "".join(d.pick("01_a") for _ in range(d.range(0, 4)))
        elif k == 3:
            # equal multisets of characters
            chars = list(d.pick(["abc", "ab1_", "xyzw", "aab"]))
            name = ""
            while chars:
                name += chars.pop(d.below(len(chars)))
            if name[0] in "0123456789_":
                name = "n" + name
        elif k == 4:
            name = d.pick(ALMOST)
        elif k == 5:
            name = d.pick("abz") * d.range(1, 3) + d.pick(["", "é"][:1]) + "q" * d.pick([0, 1, 60, 200, 255, 256, 300])
        elif k == 6:
            name = d.pick(CHARS[:52]) + "".join(d.pick(CHARS) for _ in range(d.range(0, 12)))
        else:
            # the same weighted sum (the position times the character), other letters
            a = d.range(0, 8)
            name = "k" + chr(ord("a") + 2 * a) + chr(ord("z") - a) + d.pick(["", "m"])
        out.append(name)
    return [n for n in sorted(set(out), key=out.index) if n not in KEYWORDS] or ["a"]


class Faults(FaultTest):
    name = "name-faults"
    family = "name"
    weight = 2

    def generate(self, d):
        names = pool(d) if d.bool(0.4) else NAMES
        g = FaultGen(d, Opts(size=d.range(2, 18), depth=2, names=names), self.family, d.pick([0.5, 0.15, 0.05, 0.02]))
        stmts = g.build()
        d.label(g.fault["kind"])
        p = Pair(stmts, g.fault)
        if p.good == p.bad:
            raise Reject()
        return p


class Names(Test):
    name = "names"

    def generate(self, d):
        size = d.pick([8, 20, 40, 80])
        g = Gen(d, Opts(size=size, depth=1, names=pool(d), if_depth=4))
        stmts = g.program()
        it = Interp(max_steps=6000)
        out, code = it.run(stmts)
        return Prog(stmts, out=out, code=code)

    def check(self, case):
        c, r = self.box.build_and_run(case.src)
        compare_run(c, r, case.out, case.code)

    def describe(self, case):
        return case.src

    def nontrivial(self, case):
        st = stats_of(case.stmts)
        n = sum(st.get(k, 0) for k in ("def", "func", "ns", "alias"))
        return case.src if n >= 5 and len(case.out) >= 3 else None


class Imports(Test):
    """`import m` needs m.sk beside the file with the import, wherever the compiler is started and whatever else is there."""
    name = "imports"
    quick_cases = 2500

    def generate(self, d):
        g = Gen(d, Opts(size=d.range(1, 8), depth=1, top_return=False))
        stmts = g.program()
        names = [n for n in pool(d) if len(n) < 200 and n not in ("p", "d")] or ["other"]
        mods = [d.pick(names) for _ in range(d.range(1, 4))]
        parts = [render([x]) for x in stmts]
        for m in mods:
            i = d.range(0, len(parts))
            k = d.below(8)
            if k == 0:
                parts[i:i] = ["if true {\n\timport %s\n}\n" % m]
            elif k == 1:
                parts[i:i] = ["fn_%d() {\n\timport %s # {\n}\n" % (len(parts), m)]
            else:
                parts[i:i] = ["import %s\n" % m]
        where = d.pick(["p.sk", "./p.sk", "d/p.sk", "d/e.f/p.sk", "./d/p.sk", "d/../d/p.sk", "d.sk/p.sk"])
        # files beside the source, and decoys where nobody should look
        missing = d.pick([None, None] + mods)
        beside = [m for m in dict.fromkeys(mods) if m != missing] + [n for n in names if n not in mods and d.bool(0.2)]
        decoys = [f + m + e for m in mods for f, e in (("", ".sk"), ("d/", ".sk"), ("d/e.f/", ".sk"), ("", ""), ("sub/", ".sk"), ("", ".s"), ("", ".skx"), ("", ".sk.o"))
                  if d.bool(0.15)] + [n[:-1] + ".sk" for n in mods if len(n) > 1 and d.bool(0.15)] + [n + "_.sk" for n in mods if d.bool(0.15)]
        top = where.startswith(("p", "./p"))
        here = "" if top else "d.sk/" if where.startswith("d.sk") else "d/e.f/" if "e.f" in where else "d/"
        files = [here + m + ".sk" for m in beside]
        files += [x for x in decoys if x not in files and x not in ("d.sk", here + "p.sk")]
        have = set(files) | {here + "p.sk"}
        bad = [m for m in mods if here + m + ".sk" not in have]
        return Prog(stmts, "".join(parts), where=where, path=here + "p.sk", files=files, bad=bad, mods=mods, how=d.weighted([(6, ""), (2, "absolute"), (2, "root")]))

    def check(self, case):
        import os
        box = self.box
        box.fresh()
        for x in ("d/e.f", "sub", "d.sk"):
            os.makedirs(os.path.join(box.work, x))
        for f in case.files:
            box.put(f, "return 0\n")
        box.put(case.path, case.src)
        if case.how == "root":
            # as a file near the root of the file system, started in /d
            c = box.skull("/" + (case.where[2:] if case.where.startswith("./") else case.where), "-c", "-q", env=("ROOT=/d",))
            if c.code == 253:
                return      # no user namespaces here
        else:
            c = box.skull(os.path.join(box.work, case.where) if case.how else case.where, "-c", "-q")
        obj = case.path[:-4] + ".p.sk.o"
        if c.crashed:
            raise Failure("crash", "the compiler crashed: %s" % c.brief())
        if not case.bad:
            if not c.ok or not box.has(obj):
                raise Failure("import-rejected", "all imported modules are there, but: %s" % c.brief())
        else:
            if c.code == 0 or box.has(obj):
                raise Failure("import-accepted", "the module %s is not there, but the program is accepted" % case.bad[0])
            if b"Compilation error" not in c.err or not any(('"%s"' % m).encode() in c.err for m in case.bad):
                raise Failure("import-message", "the module %s is not there: %s" % (case.bad[0], c.brief()))

    def describe(self, case):
        return "# %s%s, files: %s\n# missing: %s\n%s" % (case.where, case.how and " (%s)" % case.how, " ".join(case.files), " ".join(case.bad) or "none", case.src)

    def nontrivial(self, case):
        return case.src if case.bad or len(case.files) > 2 else None


TESTS = [Faults, Names, Imports]
