"""Types: valid programs are accepted, one injected type fault is rejected."""
from .faults_common import *

ID = "C05"
BUDGET = 50
RULE = "each case is a valid program and the same program with one type fault at a random expression, declaration, call or condition; all are non trivial (distinct faulty sources are counted)"
ASSUMPTIONS = []


class Faults(FaultTest):
    name = "type-faults"
    family = "type"


COUNTS = [(6, 1), (6, 2), (4, 3), (3, 5), (2, 8), (2, 9), (2, 12), (2, 16), (2, 17), (1, 24), (2, 31), (2, 32), (2, 33), (1, 63), (1, 64), (1, 65), (1, 100), (1, 127),
          (1, 128), (1, 129), (1, 255), (1, 256), (1, 257), (1, 300), (4, 0)]
OTHERS = [1, -1, 2, -2, 8, 16, 32, 64, 128, -128, 255, 256, -256, 512, 257]


class Counts(Test):
    """Functions with any number of parameters: as many arguments, each of its type, or the call is rejected."""
    name = "counts"
    quick_cases = 1500

    def generate(self, d):
        n = d.weighted(COUNTS)
        fault = d.weighted([(4, "none"), (3, "count"), (4, "type"), (1, "return")])
        types = [d.pick(BASIC) for _ in range(1 + d.below(4))]
        params = [d.pick(types) for _ in range(n)]
        g = Gen(d, Opts(edge=0.05, unicode_text=False))
        given = list(params)
        if fault == "count":
            by = d.weighted([(6, d.pick(OTHERS)), (1, 65536), (1, 65536 - n)]) if n < 40 else d.pick(OTHERS)
            if n + by < 0 or by == 0:
                raise Reject()
            given = (params * (2 + abs(by) // max(n, 1)) if n else [d.pick(BASIC)] * by)[:n + by]
        at = None
        if fault == "type":
            if not n:
                raise Reject()
            at = d.weighted([(2, n - 1), (1, 0), (4, d.below(n))])
            given[at] = d.pick([t for t in BASIC if t != params[at]])
        few = [g.lit(t).text for t in BASIC for _ in range(2)]
        text = dict(zip(BASIC, [few[i:i + 2] for i in range(0, len(few), 2)]))
        args = ", ".join(text[t][i % 2] for i, t in enumerate(given))
        ps = ", ".join("p%d: %s" % (i, t) for i, t in enumerate(params))
        ret = d.pick(["", "Int"]) if fault != "return" else d.pick(BASIC)
        kind = d.pick(["external", "func", "export"])
        if kind == "external":
            decl = "external f(%s)%s\n" % (ps, ret and " " + ret)
        else:
            decl = "%sf(%s)%s {\n%s}\n" % ("export " if kind == "export" else "", ps, ret and " " + ret, "\treturn %s\n" % text[ret][0] if ret else "\tlocal := 1\n")
        if fault == "return":
            want = d.pick([t for t in BASIC if t != ret])
            src = decl + "a: %s = f(%s)\n" % (want, args)
        else:
            src = decl + (d.pick(["f(%s)\n", "if true {\n\tf(%s)\n}\n"]) if not ret else "a := f(%s)\n") % args
        if d.bool(0.5):
            src += "f(%s)\n" % ", ".join(text[t][0] for t in params) if not ret else "b: %s = f(%s)\n" % (ret, ", ".join(text[t][0] for t in params))
        return Prog(None, src, n=n, m=len(given), at=at, fault=None if fault == "none" else {"kind": "%s: %d parameters, %d arguments, the wrong one at %s" % (fault, n, len(given), at)})

    def check(self, case):
        if case.fault is None:
            must_compile(self.box, case.src)
        else:
            must_reject(self.box, case.src, case.fault)

    def describe(self, case):
        return "# %s\n%s" % (case.fault and case.fault["kind"] or "valid, %d parameters" % case.n, case.src)

    def nontrivial(self, case):
        return case.src if case.fault else None


class References(Test):
    """References of any depth, also by way of aliases: only the very type will do."""
    name = "references"
    quick_cases = 1500

    def generate(self, d):
        base = d.pick(BASIC)
        other = d.pick([t for t in BASIC if t != base])
        top = d.weighted([(4, 3), (3, 5), (2, 8), (1, 12), (1, 40)])
        g = Gen(d, Opts(edge=0.05, unicode_text=False))
        src, alias = "", {}
        for t, v in ((base, "v"), (other, "w")):
            src += "%s0 := %s\n" % (v, g.lit(t).text)
            for k in range(1, top + 1):
                src += "%s%d := &%s%d\n" % (v, k, v, k - 1)

        def spell(t, k):
            """The type as written, maybe with an alias for a part of it."""
            nonlocal src
            if d.bool(0.3):
                part = d.range(0, k)
                if (t, part) not in alias:
                    named = spell(t, part) if part < k else "&" * part + t
                    if not named.startswith("&&"):
                        # an alias of two or more & is a syntax error
                        name = "A%d" % src.count(":= ")
                        src += "%s := %s\n" % (name, named)
                        alias[t, part] = name
                if (t, part) in alias:
                    return "&" * (k - part) + alias[t, part]
            return "&" * k + t

        def value(t, k):
            v = "v" if t == base else "w"
            how = d.weighted([(4, "name"), (2, "ref"), (2, "deref")])
            if how == "ref" and k:
                return "&%s%d" % (v, k - 1)
            if how == "deref" and k < top:
                return "*%s%d" % (v, k + 1)
            return "%s%d" % (v, k)

        fault = None
        uses = d.range(1, 4)
        bad_at = d.below(uses) if d.bool(0.75) else None
        for n in range(uses):
            k = d.range(1, top)
            have = (base, k)
            if n == bad_at:
                have = d.weighted([(3, (base, k - 1)), (3, (base, min(k + 1, top))), (2, (base, d.range(0, top))), (2, (other, k))])
                if have == (base, k):
                    raise Reject()
                fault = {"kind": "%s of depth %d for %s of depth %d" % (have[0], have[1], base, k)}
            form = d.pick(["external", "func", "typed", "set", "return", "second"])
            want = spell(base, k)
            val = value(*have)
            if form == "external":
                src += "external x%d(p: %s)\nx%d(%s)\n" % (n, want, n, val)
            elif form == "second":
                src += "external x%d(o: Int, p: %s, q: %s)\nx%d(1, %s, %s)\n" % ((n, want, want, n) + d.pick([(val, value(base, k)), (value(base, k), val)]))
            elif form == "func":
                src += "f%d(p: %s) {\n\tq := p\n}\nf%d(%s)\n" % (n, want, n, val)
            elif form == "typed":
                mut = d.pick(["", "mut "])
                src += "%st%d: %s = %s\n" % (mut, n, want, val)
            elif form == "set":
                src += "mut m%d := %s\nm%d = %s\n" % (n, "v%d" % k, n, val)
                if val == "v%d" % k:
                    raise Reject()
            elif form == "return":
                got = spell(base, k)
                src += "external y%d() %s\nr%d(p: %s) %s {\n\treturn p\n}\nz%d: %s = r%d(y%d())\n" % (n, "&" * have[1] + have[0], n, want, want, n, got, n, n)
        return Prog(None, src, fault=fault, top=top)

    def check(self, case):
        if case.fault is None:
            must_compile(self.box, case.src)
        else:
            must_reject(self.box, case.src, case.fault)

    def describe(self, case):
        return "# %s\n%s" % (case.fault and case.fault["kind"] or "valid", case.src)

    def nontrivial(self, case):
        return case.src if case.fault else None


TESTS = [Faults, Counts, References]
