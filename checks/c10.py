"""Layout: white space, comments, line breaks and redundant parentheses do not change what is generated."""
from .common import *
from lib.layout import Style, lay_out
from lib.scale import Scale
from lib.aliasing import Aliases

ID = "C10"
BUDGET = 40
RULE = "the laid out source differs from the plain one, and the program has at least 5 lines (distinct laid out sources are counted)"
ASSUMPTIONS = ["comments are placed where statements may be; `-E` output stands for the generated code"]


def emit(box, src, flags=("-E",)):
    box.put("p.sk", src)
    return box.skull("p.sk", *flags)


class Layouts(Test):
    name = "layouts"

    def generate(self, d):
        g = Gen(d, Opts(size=d.range(1, 20), depth=2, parens=0.2))
        stmts = d.weighted([(22, g), (1, Scale(d)), (2, Aliases(d))]).program()
        plain = render(stmts)
        st = Style(d)
        Paren.strip = st.parens
        Call.commas = d.pick([None, True, False])
        try:
            laid = lay_out(d, stmts, st)
        finally:
            Paren.strip = False
            Call.commas = None
        return Prog(stmts, plain, laid=laid.text)

    def check(self, case):
        a = emit(self.box, case.src)
        if not a.ok:
            raise Failure("rejected", "a valid program is not accepted: %s" % a.brief())
        b = emit(self.box, case.laid)
        if not b.ok:
            raise Failure("layout-rejected", "the same program in another layout is not accepted: %s" % b.brief())
        if a.out != b.out:
            x, y = a.out.decode("utf-8", "replace").split("\n"), b.out.decode("utf-8", "replace").split("\n")
            for i in range(max(len(x), len(y))):
                u, v = x[i] if i < len(x) else "(end)", y[i] if i < len(y) else "(end)"
                if u != v:
                    raise Failure("layout-differs", "line %d of the generated code: %r with the plain layout, %r with the other" % (i + 1, u, v))

    def describe(self, case):
        return case.src + "\n---- other layout ----\n" + case.laid

    def nontrivial(self, case):
        return case.laid if case.laid != case.src and case.src.count("\n") >= 5 else None


TESTS = [Layouts]
