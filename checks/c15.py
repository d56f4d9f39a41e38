"""Determinism and independence of history: sequences of compiles vs single compiles in fresh processes."""
import os, shutil

from .faults_common import *
from .common import *
from lib.layout import Style, lay_out
from lib.scale import Scale
from lib.aliasing import Aliases

ID = "C15"
BUDGET = 45
RULE = "a history of at least 3 compiles of at least 2 files, or a program of at least 5 lines compiled under changed surroundings (distinct cases are counted)"
ASSUMPTIONS = ["histories in one process call the real `main` again with the option record reset, as separate command lines would",
               "artefacts are compared byte for byte; the linker is deterministic"]

MODES = [("-E",), ("-c",), ("-S",), ("-E", "-g"), ("-c", "-g"), ("--c-backend", "-E"), ("--c-backend", "-E", "-g"), ("-E", "-q"), ("-E", "--werror"), ("-c", "-O1"),
         ("-E", "-o", "out.txt"), ("-c", "-o", "x.o"), ("-S", "-g"), ("-c", "-q"), ("-E", "--color"), ("-S", "-O2"), ()]


def gen_source(d):
    """A file: valid, with warnings, with a fault, or odd."""
    k = d.weighted([(6, "valid"), (4, "fault"), (1, "empty"), (1, "odd"), (1, "blank")])
    if k == "valid":
        if d.bool(0.5):
            # small programs over few names and types: what one leaves behind could fit the next
            g = Gen(d, Opts(size=d.range(1, 8), depth=1, names=["a", "b", "f", "x"], refs=True))
        else:
            g = Gen(d, Opts(size=d.range(1, 14), depth=2))
        stmts = d.weighted([(17, g), (1, Scale(d)), (2, Aliases(d))]).program()
        text = lay_out(d, stmts, Style(d)).text if d.bool(0.3) else render(stmts)
        return ("\ufeff" if d.bool(0.05) else "") + text
    if k == "fault":
        g = FaultGen(d, Opts(size=d.range(1, 10), depth=1), d.pick(["type", "name", "struct", "literal"]), d.pick([0.5, 0.15]))
        return render_bad(g.build())
    if k == "empty":
        return ""
    if k == "blank":
        return d.pick(["\n", " ", "\n\n", "# c\n", "#{ #}\n"])
    return d.pick(["}", "{", "\"", "#{", "x := 'ab'\n", "x := \"\\q\"\n", "f(", "f(a: Int, ", "if true {\n", "return return\n", "namespace n {\nx := 1\n", "\x01", "import zz\n",
                   "namespace n {\n\tmut x := 1\n\tf() { noop }\n}\nn.x = 2\nn.f()\n", "T := Int\nx: T = 1\n", "T := &Str\n", "a := 1\nr := &a\nq := &r\n"])


class Case:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def snapshot(top):
    out = {}
    for root, dirs, files in os.walk(top):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, top)] = h.read()
    return out


def place(top, files):
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    for n, text in files.items():
        p = os.path.join(top, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))


def op_args(box, name, mode):
    if mode == ():
        return [name, "-q", "--", "-no-pie", box.obs]
    return [name, *mode]


class History(Test):
    """Several compiles in one process and directory."""
    name = "one-process"
    weight = 3

    def generate(self, d):
        names = d.pick([["a.sk", "b.sk"], ["a.sk", "b.sk", "c.sk"], ["a.sk", "d/a.sk", "b.sk"], ["a.sk"]])
        files = {n: gen_source(d) for n in names}
        ops = [(d.pick(names), d.pick(MODES) if d.bool(0.6) else ("-E",)) for _ in range(d.range(2, 6))]
        return Case(files=files, ops=ops)

    def check(self, case):
        box = self.box
        one, sep = os.path.join(box.work, "one"), os.path.join(box.work, "sep")
        # the same directory name, as it is part of debug information
        place(one, case.files)
        want = []
        for n, mode in case.ops:
            r = box.skull(*op_args(box, n, mode), cwd=one)
            if r.crashed:
                raise Failure("crash", "%s %s: %s" % (n, mode, r.brief()))
            want.append((r.code, r.out, r.err))
        want_files = snapshot(one)
        place(one, case.files)
        args = []
        for n, mode in case.ops:
            args += op_args(box, n, mode) + ["@@"]
        r = box.call(["history"] + args[:-1], cwd=one, timeout=20)
        if r.kind == "e" and r.code == 253:
            raise Reject()
        if r.kind != "e" or r.code:
            raise Failure("history-crash", "the history ends with: %s" % r.brief())
        outs, errs = split(r.out), split(r.err)
        if len(outs) != len(want):
            raise Failure("history-crash", "the history ends with: %s" % r.brief())
        for i, (n, mode) in enumerate(case.ops):
            (c1, o), (c2, e) = outs[i], errs[i]
            code, out, err = want[i]
            what = "compile %d (%s)" % (i + 1, " ".join([n, *mode]))
            if c1 != code:
                raise Failure("history-code", "%s exits with %d, alone with %d; messages %r" % (what, c1, code, e[:300]))
            if e != err:
                raise Failure("history-messages", "%s prints %r, alone %r" % (what, e[:300], err[:300]))
            if o != out:
                raise Failure("history-output", "%s: generated code differs from the one alone: %s" % (what, first_diff(o, out)))
        got = snapshot(one)
        if got != want_files:
            bad = sorted(k for k in set(got) | set(want_files) if got.get(k) != want_files.get(k))
            raise Failure("history-files", "files differ from those of separate processes: %s" % bad)

    def describe(self, case):
        s = "".join("---- %s ----\n%s\n" % kv for kv in case.files.items())
        return s + "---- history ----\n" + "\n".join("skull %s" % " ".join([n, *m]) for n, m in case.ops)

    def nontrivial(self, case):
        return self.describe(case) if len(case.ops) >= 3 and len({n for n, _ in case.ops}) >= 2 else None


class Sanitized(History):
    """The same with address and undefined behaviour sanitizers: what a compile frees is not used by the next."""
    name = "one-process-sanitized"
    flavor = "asan"
    weight = 1


def split(data):
    """[(code, output)] of a history."""
    out = []
    parts = data.split(b"\x01")
    cur = parts[0]
    for p in parts[1:]:
        line, nl, rest = p.partition(b"\n")
        if nl and line.isdigit() and len(line) <= 3:
            out.append((int(line), cur))
            cur = rest
        else:
            cur += b"\x01" + p
    return out


def first_diff(a, b):
    x, y = a.split(b"\n"), b.split(b"\n")
    for i in range(max(len(x), len(y))):
        u, v = x[i] if i < len(x) else b"(end)", y[i] if i < len(y) else b"(end)"
        if u != v:
            return "line %d: %r vs %r" % (i + 1, u[:200], v[:200])
    return "same"


STALE = ["a", ".a.sk.o", ".a.sk.s", ".a.sk.c", ".a.sk.ll", "out.txt", "x.o", "b.sk", "b", "a.o", "cc", "skull", ".b.sk.o", "Skull.h", "zz.c"]
ENVS = ["FOO=bar", "LANG=C.UTF-8", "TERM=xterm", "TERM=dumb", "USER=nobody", "EDITOR=vi", "SKULL=1", "DEBUG=1", "CFLAGS=-O3", "CC=false", "LC_TIME=C.UTF-8", "PWD=/", "HOME=/nonexistent", "COLUMNS=1",
        "SOURCE_DATE_EPOCH=1", "OUT=z", "V=1", "TZ=Asia/Tokyo"]


LOCALES = [["LC_ALL=C"], ["LC_ALL=POSIX"], ["LC_ALL="], ["LC_ALL=", "LANG=C"], ["LC_ALL=", "LANG="], ["LC_ALL=", "LC_CTYPE=C"], ["LC_ALL=", "LC_CTYPE=C.UTF-8", "LANG=C"],
           ["LC_ALL=xx_YY"], ["LC_ALL=", "LANG=nowhere"], ["LC_ALL=C.utf8"], ["LC_ALL=", "LC_NUMERIC=C", "LANG=POSIX"]]


class Surroundings(Test):
    """One compile in a clean directory, and again among stale files and other environment variables."""
    name = "surroundings"
    weight = 2

    def generate(self, d):
        src = gen_source(d)
        mode = d.pick(MODES)
        stale = {}
        for n in STALE:
            if d.bool(0.4):
                stale[n] = d.pick([b"", b"old", b"old\n" * d.range(1, 3000), b"\x7fELF", b"x := 1\n"])
        env = [e for e in ENVS if d.bool(0.3)]
        if mode != () and d.bool(0.4):
            # any locale (those which exist here): source files are always UTF-8
            env += d.pick(LOCALES)
            if d.bool():
                src = d.pick(["# é 😀\n", "mut text := \"€ß\"\n", "mut rune := '中'\n"]) + src
        return Case(files={"a.sk": src}, mode=mode, stale=stale, env=env, twice=d.bool(0.3))

    def check(self, case):
        box = self.box
        top = os.path.join(box.work, "one")
        place(top, case.files)
        args = op_args(box, "a.sk", case.mode)
        a = box.skull(*args, cwd=top)
        if a.crashed:
            raise Failure("crash", a.brief())
        clean = snapshot(top)
        place(top, {**case.stale, **case.files})
        for _ in range(1 + case.twice):
            b = box.skull(*args, cwd=top, env=case.env)
            if (a.kind, a.code, a.err) != (b.kind, b.code, b.err):
                raise Failure("surroundings-result", "in a clean directory: %s; among stale files: %s" % (a.brief(), b.brief()))
            if a.out != b.out:
                raise Failure("surroundings-output", "generated code differs: %s" % first_diff(b.out, a.out))
        got = snapshot(top)
        for n in clean:
            if got.get(n) != clean[n]:
                raise Failure("surroundings-files", "%s differs from the one made in a clean directory" % n)

    def describe(self, case):
        return "# %s; stale: %s; environment: %s\n%s" % (" ".join(case.mode) or "native", sorted((k, v[:20], len(v)) for k, v in case.stale.items()), case.env, case.files["a.sk"])

    def nontrivial(self, case):
        return self.describe(case) if case.files["a.sk"].count("\n") >= 5 else None


class Repeat(Test):
    """The compiler as a program of its own: other addresses, other contents of fresh memory, other directories."""
    name = "repeat"
    weight = 1

    def generate(self, d):
        return Case(files={"a.sk": gen_source(d)}, mode=d.pick(MODES), fill=[d.range(1, 255) for _ in range(3)], pad=d.below(2000))

    def check(self, case):
        box = self.box
        exe = os.path.join(box.top, "skull-plain")
        results = []
        debug = "-g" in case.mode
        for i, fill in enumerate([0, *case.fill]):
            top = os.path.join(box.work, "one" if debug else "rep%d" % i)
            place(top, case.files)
            env = ["@MALLOC_PERTURB_=%d" % fill, "@PADDING=" + "x" * (case.pad * i)] if i else []
            r = box.call([*env, exe, *op_args(box, "a.sk", case.mode)], cwd=top)
            if r.crashed:
                raise Failure("crash", r.brief())
            results.append((r.code, r.err, r.out, snapshot(top)))
            shutil.rmtree(top)
        for r in results[1:]:
            if r != results[0]:
                what = [n for n, x, y in zip(("exit code", "messages", "output", "files"), r, results[0]) if x != y]
                detail = first_diff(r[2], results[0][2]) if r[2] != results[0][2] else "%r vs %r" % (r[1][:300], results[0][1][:300])
                raise Failure("not-deterministic", "two runs differ in %s: %s" % (", ".join(what), detail))

    def describe(self, case):
        return "# %s\n%s" % (" ".join(case.mode) or "native", case.files["a.sk"])

    def nontrivial(self, case):
        return self.describe(case) if case.files["a.sk"].count("\n") >= 5 else None


TESTS = [History, Surroundings, Repeat, Sanitized]
