"""Warnings: exactly the ones that are due, and what -q and --werror do with them."""
import re
from collections import Counter

from .common import *
from lib.layout import Style, lay_out
from lib.aliasing import Aliases

ID = "C14"
BUDGET = 45
RULE = "at least one warning is due (distinct sources are counted)"
ASSUMPTIONS = ["variables and functions declared in function bodies are not checked for use, as documented by the property",
               "warnings of one compile are compared as a multiset, with their positions",
               "`-E` output stands for the generated code"]

LINE = re.compile(r"^(?P<file>[^\n]*?): Warning: (?:line (?P<l>\d+) column (?P<c>\d+): )?(?P<m>.*)$")


def bare(e):
    while isinstance(e, Paren):
        e = e.e
    return e


class Facts:
    """What a program reads, assigns and calls, wherever it does."""

    def __init__(self, stmts):
        self.read, self.assigned, self.called = set(), set(), set()
        self.block(stmts)

    def ex(self, e):
        t = type(e)
        if t is Var:
            self.read.add(e.sym)
        elif t in (Ref, Deref):
            self.read.add(e.var.sym)
        elif t is Bin:
            self.ex(e.l)
            self.ex(e.r)
        elif t in (Un, Paren):
            self.ex(e.e)
        elif t is Call:
            self.called.add(e.sym)
            for a in e.args:
                self.ex(a)

    def block(self, stmts):
        for s in stmts:
            k = s[0]
            if k == "def":
                self.ex(s[2])
            elif k == "set":
                self.assigned.add(s[1].sym)
                self.ex(s[2])
            elif k == "if":
                for c, b in s[1]:
                    self.ex(c)
                    self.block(b)
                if s[2]:
                    self.block(s[2])
            elif k == "while":
                self.ex(s[1])
                self.block(s[2])
            elif k == "return" and s[1] is not None:
                self.ex(s[1])
            elif k == "call":
                self.ex(s[1])
            elif k == "func":
                self.block(s[1].body)
            elif k == "ns":
                self.block(s[2])


def due(stmts, laid):
    """Counter of (line, column, message)."""
    f = Facts(stmts)
    out = Counter()

    def tok(s, text_index):
        return laid.where[laid.stmt_line[id(s)]][text_index]

    def cond(e, n):
        b = bare(e)
        if type(b) is Lit:
            i = laid.lines[n].index(b.text)
            out[(*laid.where[n][i], "condition is always %s" % ("true" if b.value else "false"))] += 1

    # the lines of elif arms are found by walking the printed lines in order
    def walk(block, in_func):
        for s in block:
            k = s[0]
            if k == "def":
                sym = s[1]
                if s[3] and type(bare(s[2])) is Lit:
                    out[(0, 0, 'explicit type "%s" can be trivialy deduced' % sym.type)] += 1
                if in_func:
                    continue
                at = tok(s, bool(sym.export) + bool(sym.mut))
                if sym.mut and sym not in f.assigned:
                    out[(*at, 'variable "%s" should be constant' % sym.name)] += 1
                if sym not in f.read and not sym.export:
                    out[(*at, 'variable "%s" is unused' % sym.name)] += 1
            elif k in ("func", "ext"):
                sym = s[1]
                if not in_func and sym not in f.called and not sym.export:
                    out[(*tok(s, 1 if k == "ext" else 0), 'function "%s" is unused' % sym.name)] += 1
                if k == "func":
                    walk(sym.body, True)
            elif k == "if":
                n = laid.stmt_line[id(s)]
                for c, b in s[1]:
                    cond(c, n)
                    walk(b, in_func)
                    n = next_arm(laid, n)
                if s[2]:
                    walk(s[2], in_func)
            elif k == "while":
                cond(s[1], laid.stmt_line[id(s)])
                walk(s[2], in_func)
            elif k == "ns":
                walk(s[2], in_func)

    walk(stmts, False)
    return out


def next_arm(laid, n):
    """The printed line after the block that line n opens."""
    depth = 0
    while True:
        t = laid.lines[n]
        depth += t[-1] == "{"
        depth -= t == ["}"]
        n += 1
        if not depth:
            while n < len(laid.lines) and laid.lines[n] and laid.lines[n][0].startswith("#"):
                n += 1
            return n


def warnings_of(text, name):
    out = Counter()
    for line in text.split("\n")[:-1]:
        m = LINE.match(line)
        if not m or m.group("file") != name:
            raise Failure("other-message", "an unexpected message: %r" % text)
        out[(int(m.group("l") or 0), int(m.group("c") or 0), m.group("m"))] += 1
    return out


def show(c):
    return sorted("%d:%d %s%s" % (*k, " (x%d)" % n if n > 1 else "") for k, n in c.items()) or "none"


def sprinkle(d, stmts, depth=0):
    """Adds constant conditions, trivial types, unused and never assigned variables here and there."""
    n = [0]

    def name():
        n[0] += 1
        return "w_%d" % n[0]

    def extra(top, in_func):
        k = d.below(7)
        t = d.pick(BASIC)
        lit = {"Int": Lit("Int", d.range(0, 9)), "Float": Lit("Float", 0.5), "Bool": Lit("Bool", d.bool()), "Rune": Lit("Rune", 97), "Str": Lit("Str", "s")}[t]
        if d.bool(0.2):
            lit = Paren(lit)
        if k == 0:
            mut = d.bool(0.3)
            return [("def", Sym("var", name(), type=t, mut=mut, export=top and not mut and d.bool(0.3)), lit, t if d.bool() else None)]
        if k == 1:
            return [("if", [(cnd(), [("noop",)]) for _ in range(d.range(1, 3))], [("noop",)] if d.bool(0.3) else None)]
        if k == 2:
            return [("while", cnd(), [("break",)])]
        if k == 3:
            s = Sym("var", name(), type=t, mut=True)
            out = [("def", s, lit, None)]
            if d.bool():
                out.append(("set", Var(s), lit))
            if d.bool(0.3):
                out.append(("def", Sym("var", name(), type=t), Var(s), None))
            return out
        if k == 4:
            s = Sym("func", name(), params=[], ret="Void", body=[("noop",)], export=top and d.bool(0.3))
            if d.bool(0.3):
                s.body = extra(False, True)
            out = [("func", s)]
            if d.bool(0.3):
                out.append(("call", Call(s, [])))
            elif d.bool(0.2):
                s.body = s.body + [("call", Call(s, []))]
            return out
        if k == 5 and top:
            return [("ext", Sym("func", name(), params=[], ret=t, external=True))]
        s = Sym("var", name(), type=t)
        r = Sym("var", name(), type="&" + t)
        out = [("def", s, lit, None), ("def", r, Ref(Var(s)), None)]
        if d.bool():
            out.append(("def", Sym("var", name(), type=t), Deref(Var(r)), None))
        return out

    def cnd():
        b = Lit("Bool", d.bool())
        if d.bool(0.2):
            b = Paren(b)
        if d.bool(0.2):
            b = Un("not", b) if d.bool() else Bin("is", b, Lit("Bool", True), "Bool")
        return b

    def block(stmts, top, in_func, p):
        out = []
        prev = None
        for s in stmts:
            k = s[0]
            if d.bool(p) and prev not in ("return", "break", "continue", "unreachable"):
                out += extra(top, in_func)
            if k == "if":
                s = ("if", [(c, block(b, False, in_func, p)) for c, b in s[1]], block(s[2], False, in_func, p) if s[2] else s[2]) + s[3:]
            elif k == "while":
                s = ("while", s[1], block(s[2], False, in_func, p))
            elif k == "func":
                s[1].body = block(s[1].body, False, True, p)
            elif k == "ns":
                s = ("ns", s[1], block(s[2], False, in_func, p))
            prev = k if k not in ("noop", "comment") else prev
            out.append(s)
        return out

    return block(stmts, True, False, d.pick([0.1, 0.3, 0.02]))


class Due(Test):
    name = "due"
    weight = 4

    def generate(self, d):
        g = Gen(d, Opts(size=d.range(1, 16), depth=d.range(0, 2), parens=0.1, func_export=0.2, var_export=0.2))
        stmts = sprinkle(d, (Aliases(d) if d.bool(0.12) else g).program())
        st = Style(d)
        laid = lay_out(d, stmts, st)
        w = due(stmts, laid)
        text = laid.text
        if d.bool(0.04):
            text = "\ufeff" + text
            # the mark is not a column
            w[(0, 0, "BOM found")] += 1
        for k, n in w.items():
            d.label(re.sub('".*?"', "X", k[2]))
        return Prog(stmts, text, due=w, name=d.pick(["p.sk", "p.sk", "dir.d/longer_name.sk"]), colour=d.pick(COLOURS), how=d.weighted([(6, ("-E",)), (1, ("-E", "-g")), (1, ("-E", "-O2")), (1, ("-E", "--c-backend")), (1, ("-E", "--c-backend", "-g")), (1, ("-E", "--llvm-no-verify"))]))

    def check(self, case):
        box = self.box
        import os
        os.makedirs(os.path.join(box.work, "dir.d"), exist_ok=True)
        box.put(case.name, case.src)
        a = box.skull(case.name, *case.how)
        if not a.ok:
            raise Failure("rejected", "a valid program is not accepted: %s" % a.brief())
        got = warnings_of(a.text(), case.name)
        if got != case.due:
            raise Failure("warnings", "missing: %s; not due: %s" % (show(case.due - got), show(got - case.due)))
        same_in_colour(box, case.colour, a, case.name, *case.how)
        q = box.skull(case.name, *case.how, "-q")
        if not q.ok or q.err:
            raise Failure("quiet", "with -q: %s" % q.brief())
        if q.out != a.out:
            raise Failure("quiet-code", "-q changes the generated code")
        w = box.skull(case.name, *case.how, "--werror")
        if case.due:
            if w.kind != "e" or w.code != 1 or w.out:
                raise Failure("werror", "warnings are due, but with --werror: %s" % w.brief())
            got = warnings_of(w.text(), case.name)
            if not got or got - case.due:
                raise Failure("werror-messages", "due: %s; with --werror: %s" % (show(case.due), show(got)))
        elif not w.ok or w.err or w.out != a.out:
            raise Failure("werror-clean", "no warning is due, but with --werror: %s" % w.brief())

    def describe(self, case):
        return "# %s, due: %s\n%s" % (" ".join(case.how), show(case.due), case.src)

    def nontrivial(self, case):
        return case.src if case.due else None


class Outputs(Due):
    """--werror and files: no artefact appears when a warning is due; -q and warnings do not change the artefact."""
    name = "outputs"
    weight = 1

    def generate(self, d):
        c = Due.generate(self, d)
        c.mode = d.pick([("-c", ".p.sk.o"), ("-S", ".p.sk.s"), ("--c-backend", ".p.sk.c"), (None, "p")])
        if c.mode[0] == "--c-backend":
            # the C backend supports a subset, and -E is the common ground
            c.mode = ("-S", ".p.sk.s")
        c.name = "p.sk"
        return c

    def check(self, case):
        box = self.box
        flag, made = case.mode
        args = ["p.sk"] + ([flag] if flag else ["--", "-no-pie", box.obs])
        extra = lambda f: args[:1] + [f] + args[1:]
        box.fresh()
        box.put("p.sk", case.src)
        undefined = "cc" if flag is None else None
        if undefined and any(s[0] == "ext" and s[1].name.startswith("w_") for s in case.stmts):
            raise Reject()
        w = box.skull(*extra("--werror"))
        if case.due:
            if w.kind != "e" or w.code != 1:
                raise Failure("werror", "warnings are due, but with --werror: %s" % w.brief())
            if box.has(made):
                raise Failure("werror-output", "%s was written although --werror made the compile fail" % made)
            got = warnings_of(w.text(), case.name)
            if not got or got - case.due:
                raise Failure("werror-messages", "due: %s; with --werror: %s" % (show(case.due), show(got)))
        elif not w.ok or w.err or not box.has(made):
            raise Failure("werror-clean", "no warning is due, but with --werror: %s" % w.brief())
        box.drop(made)
        a = box.skull(*args)
        x = box.get(made)
        if not a.ok or x is None:
            raise Failure("rejected", "a valid program is not accepted: %s" % a.brief())
        got = warnings_of(a.text(), "p.sk")
        if got != case.due:
            raise Failure("warnings", "missing: %s; not due: %s" % (show(case.due - got), show(got - case.due)))
        box.drop(made)
        q = box.skull(*extra("-q"))
        if not q.ok or q.err or box.get(made) is None:
            raise Failure("quiet", "with -q: %s" % q.brief())
        if flag and box.get(made) != x:
            raise Failure("quiet-code", "-q changes the generated code")


class Empty(Test):
    """Files with nothing in them."""
    name = "empty"
    quick_cases = 200

    def generate(self, d):
        return {"flags": [f for f in ("-q", "--werror") if d.bool()][:1], "mode": d.pick(["-E", "-c", "-S", None]), "name": d.pick(["p.sk", "e1.sk"])}

    def check(self, case):
        box = self.box
        box.fresh()
        box.put(case["name"], b"")
        r = box.skull(case["name"], *case["flags"], *([case["mode"]] if case["mode"] else []))
        want = 1 if "--werror" in case["flags"] else 0
        if r.kind != "e" or r.code != want or r.out:
            raise Failure("empty-code", "an empty file: %s" % r.brief())
        msg = "" if "-q" in case["flags"] else "%s: Warning: file is empty\n" % case["name"]
        if r.text() != msg:
            raise Failure("empty-message", "an empty file: %s, expected %r" % (r.brief(), msg))
        import os
        if os.listdir(box.work) != [case["name"]]:
            raise Failure("empty-output", "an empty file makes %r" % os.listdir(box.work))


TESTS = [Due, Outputs, Empty]
