"""Diagnostics: the position and the message of one injected fault."""
import re

from .faults_common import *
from lib.layout import Style, lay_out

ID = "C09"
BUDGET = 45
RULE = "the faulty token is on line 2 or later, or not at column 1 (distinct sources are counted)"
ASSUMPTIONS = ["columns count characters (code points) from 1, tabs count as one"]

ERROR = re.compile(r"^(?P<file>[^:\n]*): Compilation error: (?:line (?P<l>\d+) column (?P<c>\d+): )?(?P<m>.*)$", re.M | re.S)


# not tokens of any class: the parser reports what comes before them
UNREAD = ("literal-bad hex", "literal-bad binary", "literal-bad octal", "literal-bad rune", "literal-bad number", "literal-bad underscore")


def first_error(text, name="p.sk"):
    """The first error: (line, column, message). Messages may span lines."""
    pat = "%s: Compilation error: " % name
    at = text.find(pat) if text.startswith(pat) or ("\n" + pat) in text else -1
    if at < 0:
        return None
    rest = text[at + len(pat):]
    m = re.match(r"line (\d+) column (\d+): ", rest)
    if m:
        return int(m.group(1)), int(m.group(2)), rest[m.end():]
    return 0, 0, rest


class Placed(Test):
    """A faulty program in a random layout."""
    family = None

    def make(self, d):
        g = FaultGen(d, Opts(size=d.range(1, 14), depth=1), self.family, d.pick([0.5, 0.15, 0.05]), simple=True)
        return g.build(), g.fault

    def generate(self, d):
        stmts, fault = self.make(d)
        laid = lay_out(d, stmts, Style(d), bad=True)
        if "fault" not in laid.marks:
            raise Reject()
        if fault["kind"] in UNREAD:
            raise Reject()
        if fault["kind"].startswith("name-function") and any(t[0] == "mut" and t[i - 1] == ":=" for t in laid.lines for i, x in enumerate(t) if getattr(x, "mark", None)):
            raise Reject()   # when it is an alias, `mut` is at fault as well
        d.label(fault["kind"])
        return Prog(stmts, laid.text, fault=fault, at=laid.marks["fault"], colour=d.pick(COLOURS))

    def check(self, case):
        c = must_reject(self.box, case.src, case.fault)
        e = first_error(c.text())
        if e is None:
            raise Failure("no-error", "no error message: %s" % c.brief())
        if (e[0], e[1]) != case.at:
            raise Failure("position", "%s: reported at line %d column %d, the fault is at line %d column %d: %s" % (case.fault["kind"], e[0], e[1], *case.at, c.brief()))
        msg = case.fault["msg"]
        if msg and msg not in e[2]:
            raise Failure("message", "%s: the message %r does not contain %r" % (case.fault["kind"], e[2], msg))
        same_in_colour(self.box, case.colour, c, "p.sk", *way_of(case.src))

    def describe(self, case):
        return "# fault: %s at line %d column %d\n%s" % (case.fault["kind"], *case.at, case.src)

    def nontrivial(self, case):
        return case.src if case.at != (1, 1) else None


class Types(Placed):
    name = "types"
    family = "type"
    weight = 2


class Names(Placed):
    name = "names"
    family = "name"


class Struct(Placed):
    name = "structure"
    family = "struct"


class Literal(Placed):
    name = "literals"
    family = "literal"


# the compiler's own tests expect these messages without a position
NOWHERE = ("expected return value in function", "unexpected return from void function", "cannot use type", "could not load module")


def printed(stmts, bad):
    saved = Alt.show_bad
    Alt.show_bad = bad
    try:
        p = Printer()
        p.block(stmts, 0)
        return [t for _, t in p.lines]
    finally:
        Alt.show_bad = saved


class Within(Test):
    """A fault somewhere in an expression: the report points at the start of a token of the statement that holds it."""
    family = None

    def generate(self, d):
        g = FaultGen(d, Opts(size=d.range(1, 12), depth=d.range(1, 2)), self.family, d.pick([0.4, 0.15, 0.05]))
        stmts = g.build()
        good, bad = printed(stmts, False), printed(stmts, True)
        lines = [n for n in range(len(good)) if good[n] != bad[n]] if len(good) == len(bad) else []
        if len(lines) != 1 or g.fault["kind"] in UNREAD:
            raise Reject()
        laid = lay_out(d, stmts, Style(d), bad=True)
        at = set()
        for (line, col), t in zip(laid.where[lines[0]], laid.lines[lines[0]]):
            at |= {(line, col + i) for i, c in enumerate(t) if i == 0 or (t[i - 1] in " -" and t[0] == "-")}
        d.label(g.fault["kind"].split(" for ")[0])
        # what is never closed is reported at the token that comes instead
        end = laid.where[lines[0] + 1][0] if lines[0] + 1 < len(laid.where) else (10**9, 0)
        return Prog(stmts, laid.text, fault=g.fault, at=sorted(at), end=end if "unclosed" in g.fault["kind"] else None, colour=d.pick(COLOURS))

    def check(self, case):
        c = must_reject(self.box, case.src, case.fault)
        e = first_error(c.text())
        if e is None:
            raise Failure("no-error", "no error message: %s" % c.brief())
        if e[0] == 0 and e[2].startswith(NOWHERE):
            return
        if (e[0], e[1]) not in case.at and not (case.end and case.at[-1] < (e[0], e[1]) <= case.end):
            raise Failure("position", "%s: reported at line %d column %d, the statement's tokens are at %s: %s" % (case.fault["kind"], e[0], e[1], case.at, c.brief()))
        if case.fault["msg"] and case.fault["msg"] not in e[2]:
            raise Failure("message", "%s: the message %r does not contain %r" % (case.fault["kind"], e[2], case.fault["msg"]))
        same_in_colour(self.box, case.colour, c, "p.sk", *way_of(case.src))

    def describe(self, case):
        return "# fault: %s, tokens of the statement: %s\n%s" % (case.fault["kind"], case.at, case.src)

    def nontrivial(self, case):
        return case.src if case.at[0] != (1, 1) else None


class WithinTypes(Within):
    name = "types-in-expressions"
    family = "type"


class WithinExpr(Within):
    name = "syntax-in-expressions"
    family = "expr"


TAILS = [
    # (text, offset of the reported token, message)
    ('x_1 := "abc', 7, "expected closing quote"), ("x_1 := 'abc", 7, "expected closing quote"), ('obs_str("', 8, "expected closing quote"),
    ('x_1 := "\\"', 7, "expected closing quote"), ("#{ never closed", 0, 'expected closing "#}" for block comment'), ("noop #{ a # }", 5, 'expected closing "#}"'),
    ("#x", 0, "invalid start of comment"), ("noop #", 5, "invalid start of comment"), ("#\"", 0, "invalid start of comment"),
    ("}", 0, "missing opening bracket"), ("noop }", 5, "missing opening bracket"), ("if true { noop } }", 17, "missing opening bracket"),
    (")", 0, 'unexpected token: ")"'), ("noop ,", 5, 'unexpected token: ","'), ("== 1", 0, 'unexpected token: "=="'), ("é := 1", 0, 'unexpected token: "é"'),
    ("x_1 := 1 noop", 9, "expected a newline"), ("x_1: Int = 1 + 2 2", 17, "expected a newline"),
    ("x_1 := (1 + 2", 7, "missing closing parenthesis"), ("namespace 1 { noop }", 10, 'unexpected token: "1"'),
    ("import 1", 7, 'expected identifier after "import"'), ("if true { }", 10, "code block cannot be empty"),
    ("{ noop }", None, "unexpected code block"), ("x_1 := not not true", 11, "cannot use unary operator twice"),
    ("x_1 := 1 not 2", 9, "unexpected unary operator"), ("if true", 0, "if statement must be followed by code block"),
    ("while true", 0, "while statement must be followed by code block"), ("x_1(a: Int b: Int) { noop }", 11, "expected comma"),
    ("x_1(1 2)", 6, "expected comma"), ("x_1(,)", 4, "unexpected comma"), ("x_1: Int", 0, "variable is missing an assignment"),
    ("mut x_1 := Int", None, "type alias cannot be mutable"), ("x_1 := &5", 8, "cannot take reference of non-identifier"),
]


class Tail(Test):
    name = "at-the-end"

    def generate(self, d):
        stmts = Gen(d, Opts(size=d.range(0, 8), depth=1, top_return=False)).program()
        text = lay_out(d, stmts, Style(d)).text
        if text and not text.endswith("\n"):
            text += "\n"
        tail, at, msg = d.pick(TAILS)
        if at is None:
            raise Reject()
        lead = d.pick(["", "\t", "  ", "#{ é😀 #} ", "#{\n\n#}", "#{\n#} \t", "noop ", "\n\n", "noop # \"\n"])
        head = text + lead
        col = len(head) - (head.rfind("\n") + 1) + 1 + at
        return Prog(stmts, head + tail + d.pick(["", "\n", "\n\n"]), at=(head.count("\n") + 1, col), fault={"kind": "tail: " + tail, "msg": msg}, colour=d.pick(COLOURS))

    check = Placed.check
    describe = Placed.describe
    nontrivial = Placed.nontrivial


TESTS = [Tail, Types, Names, Struct, Literal, WithinTypes, WithinExpr]
