from .common import *
from lib.faults import FaultGen
from lib.lang import Alt


def render_bad(stmts):
    Alt.show_bad = True
    try:
        return render(stmts)
    finally:
        Alt.show_bad = False


class Pair:
    """One program, valid and with one fault."""

    def __init__(self, stmts, fault):
        self.stmts, self.fault = stmts, fault
        self.good = render(stmts)
        self.bad = render_bad(stmts)


OUTS = ("p", "out", ".p.sk.o", ".p.sk.s", ".p.sk.ll", ".p.sk.c")


def must_compile(box, src, flags=None):
    flags = flags or way_of(src)
    box.put("p.sk", src)
    box.drop(*OUTS)
    c = box.skull("p.sk", *flags)
    if not c.ok:
        raise Failure("rejected", "a valid program is not accepted with %s: %s" % (" ".join(flags), c.brief()))
    return c


def must_reject(box, src, fault, flags=None):
    flags = flags or way_of(src)
    box.put("p.sk", src)
    box.drop(*OUTS)
    c = box.skull("p.sk", *flags)
    if c.crashed:
        raise Failure("crash", "the compiler crashed: %s" % c.brief())
    if c.code == 0:
        raise Failure("accepted", "a program with a fault (%s) was accepted with %s" % (fault["kind"], " ".join(flags)))
    if b"Compilation error" not in c.err:
        raise Failure("no-message", "rejected without an error message: %s" % c.brief())
    if c.out:
        raise Failure("printed-output", "a failed compile printed %r" % c.out[:200])
    left = [o for o in OUTS if box.has(o)]
    if left:
        raise Failure("left-output", "a failed compile left %s behind" % left)
    return c


class FaultTest(Test):
    family = None

    def generate(self, d):
        g = FaultGen(d, Opts(size=d.range(2, 18), depth=2, ref_params=0.25 if self.family == "type" else 0.12), self.family, d.pick([0.5, 0.15, 0.05, 0.02]))
        stmts = g.build()
        d.label(g.fault["kind"].split(" ")[0])
        p = Pair(stmts, g.fault)
        if p.good == p.bad:
            raise Reject()
        return p

    def check(self, case):
        must_compile(self.box, case.good)
        must_reject(self.box, case.bad, case.fault)

    def describe(self, case):
        return "# fault: %s\n%s" % (case.fault["kind"], case.bad)

    def nontrivial(self, case):
        return case.bad
