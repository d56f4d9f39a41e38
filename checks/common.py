"""Shared pieces of the checks."""
import zlib
import re

from lib.engine import Failure, Reject
from lib.gen import NAMES, Gen, Opts, stats_of
from lib.lang import *
from lib.runner import Test


class Prog:
    """A generated program and what it must do."""

    def __init__(self, stmts, src=None, **kw):
        self.stmts = stmts
        self.src = src if src is not None else render(stmts)
        self.__dict__.update(kw)


def expect(stmts, **kw):
    return Interp(**kw).run(stmts)


ENDS = ("return", "unreachable", "break", "continue")
CTYPE = {"Int": "SkullInt", "Float": "SkullFloat", "Bool": "unsigned char", "Rune": "SkullRune", "Str": "SkullStr", "Void": "void"}


def ctype(t):
    return ctype(t[1:]) + "*" if t.startswith("&") else CTYPE[t]


def add_callbacks(g, stmts):
    """Appends calls of external C functions which call back exported functions of the program; returns these externals."""
    back = []
    for i, f in enumerate([s[1] for s in stmts if s[0] == "func" and s[1].export]):
        x = Sym("func", "via_c%d" % i, external=True, ret=f.ret, params=[Sym("var", p.name, type=p.type) for p in f.params],
                callback=f, pure=f.pure)
        try:
            c = g.full_call(x, x.name)
        except Reject:
            continue
        g.externals[x.name] = x
        back.append(x)
        stmt = ("call", c if f.ret == "Void" else Call(g.ext("obs_" + f.ret.lower()), [c]))
        stmts.insert(len(stmts) - (stmts[-1][0] in ENDS), stmt)
    if back:
        have = {id(s[1]) for s in stmts if s[0] == "ext"}
        stmts[:0] = [("ext", s) for s in g.externals.values() if id(s) not in have]
    return back


def c_callback(sym):
    """The C function which calls back the exported function of module p."""
    f = sym.callback
    types = ", ".join(ctype(p.type) for p in f.params) or "void"
    return "%s back_%s(%s) __asm__(\"p.%s\");\n%s %s(%s) {\n\t%sback_%s(%s);\n}\n" % (
        ctype(f.ret), f.name, types, f.name, ctype(f.ret), sym.name, ", ".join("%s a%d" % (ctype(p.type), j) for j, p in enumerate(f.params)) or "void",
        "" if f.ret == "Void" else "return ", f.name, ", ".join("a%d" % j for j in range(len(f.params))))


def compare_run(c, r, out, code, what="native binary"):
    """Compares a compile result and a run with the reference."""
    if c.kind == "t":
        raise Failure("compile-timeout", "the compiler did not finish: %s" % c.brief())
    if c.crashed:
        raise Failure("compile-crash", "the compiler crashed: %s" % c.brief())
    if not c.ok:
        raise Failure("rejected", "a valid program was rejected: %s" % c.brief())
    if r is None:
        raise Failure("no-binary", "no binary was produced: %s" % c.brief())
    got = r.out.decode("utf-8", "replace").split("\n")[:-1]
    if r.kind != "e":
        raise Failure("run-" + r.kind, "%s: %s, expected output %r and exit code %d" % (what, r.brief(), out, code))
    if got != out:
        for i in range(max(len(got), len(out))):
            g = got[i] if i < len(got) else "(end)"
            w = out[i] if i < len(out) else "(end)"
            if g != w:
                raise Failure("output", "%s: observation %d is %r, expected %r (exit code %d, expected %d)" % (what, i, g, w, r.code, code))
    if r.code != code:
        raise Failure("exit-code", "%s: exit code %d, expected %d" % (what, r.code, code))


SGR = re.compile(rb"\033\[[0-9;]*m")


def same_in_colour(box, how, plain, *args):
    """`--color` and COLOR=1 add colour to the messages of a run and change nothing else; other values of COLOR add none."""
    if how is None or b"\033" in plain.err:
        return
    flags, env = how
    r = box.skull(*args, *flags, env=env)
    on = bool(flags) or env == ("COLOR=1",)
    if (r.kind, r.code) != (plain.kind, plain.code) or r.out != plain.out:
        raise Failure("colour-run", "with %s %s: %s, without: %s" % (" ".join(flags), " ".join(env), r.brief(), plain.brief()))
    if SGR.sub(b"", r.err) != plain.err:
        raise Failure("colour-text", "with %s %s the messages are %r, without %r" % (" ".join(flags), " ".join(env), r.err, plain.err))
    if plain.err and on != (r.err != plain.err):
        raise Failure("colour", "with %s %s the messages are %scoloured: %r" % (" ".join(flags), " ".join(env), "not " if on else "", r.err))


COLOURS = [None, None, None, (("--color",), ()), ((), ("COLOR=1",)), ((), ("COLOR=0",)), ((), ("COLOR=",))]


# ways to compile which share everything up to code generation
WAYS = [("-E",), ("-S",), ("-c", "-g"), ("-c", "-O2"), ("-c", "-O3", "-g"), ("-c", "-q"), ("-E", "--llvm-no-verify"), ("--c-backend", "-E"), ("--c-backend",), ("--c-backend", "-g", "-q"), ("-c", "-o", "out")]


def way_of(src):
    """Flags for a compile of `src`: mostly -c. Which ones depends on the text only, so that a replay uses the same."""
    n = zlib.crc32(src if isinstance(src, bytes) else src.encode("utf-8", "surrogateescape"))
    return WAYS[n // 8 % len(WAYS)] if n % 8 < 3 else ("-c",)
