from .common import *
from lib.scale import Scale
from lib.aliasing import Aliases

ID = "C02"
BUDGET = 50
RULE = "the program runs at least 8 statements, and contains at least 2 different kinds of: if, while, function call, assignment, namespace, reference"
ASSUMPTIONS = []


class Programs(Test):
    name = "programs"

    def generate(self, d):
        size = d.range(3, 24)
        g = Gen(d, Opts(size=size, depth=2, poke=1))
        stmts = g.program()
        it = Interp()
        out, code = it.run(stmts)
        return Prog(stmts, out=out, code=code, steps=it.steps)

    def check(self, case):
        c, r = self.box.build_and_run(case.src)
        compare_run(c, r, case.out, case.code)

    def describe(self, case):
        return case.src

    def nontrivial(self, case):
        st = stats_of(case.stmts)
        kinds = sum(1 for k in ("if", "while", "call", "set", "ns", "ref") if st.get(k))
        return case.src if case.steps >= 8 and kinds >= 2 else None



class Large(Test):
    """Many, long and deep things."""
    name = "scale"
    quick_cases = 1500

    def generate(self, d):
        g = Scale(d)
        stmts = g.program()
        it = Interp(max_steps=600000, max_obs=3000, max_depth=400)
        out, code = it.run(stmts)
        return Prog(stmts, out=out, code=code, kinds=g.kinds)

    def check(self, case):
        c, r = self.box.build_and_run(case.src)
        compare_run(c, r, case.out, case.code)

    def describe(self, case):
        return case.src

    def nontrivial(self, case):
        return case.src if case.out else None


class Aliasing(Programs):
    """Variables with several names."""
    name = "aliases"

    def generate(self, d):
        stmts = Aliases(d).program()
        it = Interp()
        out, code = it.run(stmts)
        return Prog(stmts, out=out, code=code, steps=it.steps)

    def nontrivial(self, case):
        return case.src if case.steps >= 8 and len(case.out) >= 3 else None


TESTS = [Programs, Large, Aliasing]
