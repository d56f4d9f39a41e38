"""The command line: a model of the options, applied to random command lines and directory contents."""
import os

from .common import *

ID = "C13"
BUDGET = 45
RULE = ("distinct cases with at least two options, or a fault in the file, its name or the output place")
ASSUMPTIONS = ["one file name per command line",
               "a failed output is tried with a missing folder, a folder in its place, and a full device (through a link in the scratch folder)",
               "runs as root: permissions are not part of the model"]

WARN = "skull: "
NAMES13 = ["p", "prog", "a.b", "x.sk", "with space", "$(touch hacked)", "q'uote", "d\"q", "`touch hacked`", "é", "a&b", "a;b", "-", "0", "P_1", "*", "#x", "\\n"]
DIRS = ["", "./", "sub/", "./sub/", "sub/deep/", "my dir/", "ABS/", "sub/../", "a.sk/"]

VALID = "external op_int(v: Int) Int\n"
SOURCES = {
    # kind: (text, ok, has warnings)
    "valid": ("return 7\n", True, False),
    "calls": ("f(x: Int) Int {\n\treturn x + 1\n}\nreturn f(4)\n", True, False),
    "strings": ("x := \"a\"\nif x is \"a\" {\n\treturn 3\n}\n", True, False),
    "warns": ("x := 1\nreturn 9\n", True, True),
    "warns2": ("mut x := 1\nf() {\n\tnoop\n}\nif true {\n\treturn x\n}\n", True, True),
    "semantic": ("x := 1 + \"a\"\n", False, False),
    "undefined": ("return nope\n", False, False),
    "late": ("y := 5\nif y is 5 {\n\treturn 1\n}\nreturn 1.5\n", False, False),
    "warns-error": ("x := 1\nbreak\n", False, True),
    "syntax": ("if {\n", False, False),
    "quote": ("x := \"abc\n", False, False),
    "utf8": (b"x := \"\xff\xfe\"\n", False, False),
    "empty": ("", None, True),
    "import-missing": ("import other\nreturn 2\n", False, False),
    "import-found": ("import other\nreturn 2\n", True, False),
}
CODES = {"valid": 7, "calls": 5, "strings": 3, "warns": 9, "warns2": 1, "import-found": 2}
FLAGS = ["-c", "-S", "-E", "--c-backend", "-g", "-q", "--werror", "-O1", "-O2", "-O3", "--llvm-no-verify", "--color"]


class Bad(Exception):
    """The command line is rejected."""


class Info(Exception):
    """-h or -v."""


def parse(args, env):
    """What the command line means: dict, or raises Bad or Info."""
    f = {"flags": set(), "o": None, "file": None, "extra": None}
    if not args:
        raise Info("skull [")
    i = 0
    while i < len(args):
        a = args[i]
        if not a.startswith("-"):
            f["file"] = a
        elif a == "-h" or a == "--help":
            raise Info("skull [")
        elif a == "-v" or a == "--version":
            raise Info("Skull")
        elif a == "-o":
            if f["o"] is not None:
                raise Bad("duplicate")
            if i + 1 >= len(args):
                raise Bad("no name")
            i += 1
            f["o"] = args[i]
        elif a == "--":
            if i + 1 >= len(args):
                raise Bad("no arguments")
            f["extra"] = args[i + 1:]
            break
        elif a in FLAGS:
            if a == "--color" and "COLOR" in env:
                raise Bad("color")
            if a in f["flags"]:
                raise Bad("duplicate")
            f["flags"].add(a)
        else:
            raise Bad("unknown option")
        i += 1
    fl = f["flags"]
    if len(fl & {"-O1", "-O2", "-O3"}) > 1:
        raise Bad("levels")
    if "--c-backend" in fl and "--llvm-no-verify" in fl:
        raise Bad("C and LLVM")
    if "-q" in fl and "--werror" in fl:
        raise Bad("-q and --werror")
    if "--c-backend" in fl and "-S" in fl:
        raise Bad("-S and C")
    if len(fl & {"-S", "-E", "-c"}) > 1:
        raise Bad("modes")
    if f["file"] is None:
        raise Bad("no file")
    if not f["file"].endswith(".sk") or f["file"].rsplit("/", 1)[-1] == ".sk":
        raise Bad("extension")
    return f


def mode_of(fl):
    if "--c-backend" in fl:
        return "C"
    for a, m in (("-E", "IR"), ("-S", "asm"), ("-c", "obj")):
        if a in fl:
            return m
    return "bin"


MAGIC = {"C": b"#include <stdint.h>\n", "IR": b"; ModuleID = ", "asm": b"\t.", "obj": b"\x7fELF", "bin": b"\x7fELF"}


def snapshot(top):
    """{relative path: content, or None for a folder, or ("link", target)}"""
    out = {}
    for root, dirs, files in os.walk(top):
        for n in dirs + files:
            p = os.path.join(root, n)
            rel = os.path.relpath(p, top)
            if os.path.islink(p):
                out[rel] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[rel] = None
            else:
                with open(p, "rb") as f:
                    out[rel] = f.read()
    return out


class CommandLines(Test):
    name = "command-lines"
    fast_link = False
    weight = 4

    def generate(self, d):
        case = Prog([], "")
        case.kind = d.pick(sorted(SOURCES)) if d.bool(0.6) else "valid"
        case.dir = d.pick(DIRS) if d.bool(0.5) else ""
        name = d.pick(NAMES13) if d.bool(0.4) else "p"
        if name.startswith("-"):
            name = "n" + name
        if name == "a.b" and case.dir:
            name = "p"
        case.name = name
        case.fault = None
        file = case.dir + name + ".sk"
        case.state = d.weighted([(12, "there"), (1, "missing"), (1, "folder"), (1, "no-extension"), (1, "only-extension"), (1, "middle"), (1, "binary-folder"), (1, "unreadable")])
        if case.state == "no-extension":
            file = case.dir + name
            if file.endswith(".sk"):
                raise Reject()
        elif case.state == "only-extension":
            file = case.dir + ".sk"
        elif case.state == "middle":
            file = case.dir + "p.sk" + d.pick(["x", ".txt", "/", " "])
        case.file = file
        case.env = d.pick([(), (), (), ("COLOR=1",), ("COLOR=0",), ("COLOR=",)])
        args = []
        # mostly one mode, then any other options
        if not d.bool(0.3):
            args += [d.pick(["-c", "-S", "-E", "--c-backend"])]
        if d.bool(0.25):
            for _ in range(d.weighted([(4, 0), (4, 1), (3, 2), (2, 3), (1, 6)])):
                args.append(d.pick(FLAGS))
        else:
            # no conflicts
            args += [a for a in ("-g", d.pick(["-O1", "-O2", "-O3"]), d.pick(["-q", "--werror"])) if d.bool(0.3)]
            if "--c-backend" not in args and d.bool(0.2):
                args.append("--llvm-no-verify")
            if not case.env and d.bool(0.2):
                args.append("--color")
            if "-E" in args and "--llvm-no-verify" not in args and d.bool(0.15):
                args.append("--c-backend")
        if d.bool(0.08):
            args.append(d.pick(["-z", "--nope", "-xy", "-O", "-O0", "-O4", "-O11", "-Os", "-h", "-v", "--help", "--version", "-", "--werrorx", "-cS", "--o", "---"]))
        case.out = None
        mode = mode_of(set(args))
        if d.bool(0.35):
            # the linker decides what it does with a device
            case.out = d.pick(["-", "out", "sub/out", "out.x", "nodir/out", "sub", "my out", "sub/$(touch hacked)", "a;b"] + (["full"] if mode != "bin" else []))
            args.append(("-o", case.out))
            if d.bool(0.03):
                args.append(("-o", "again"))
        if d.bool(0.95):
            args.append(("file", file))
        # any order
        order = []
        while args:
            a = args.pop(d.below(len(args)))
            order += [a[1]] if isinstance(a, tuple) and a[0] == "file" else list(a) if isinstance(a, tuple) else [a]
        if d.bool(0.02):
            order.append("-o")
        if d.bool(0.15 if mode != "bin" else 0.5):
            case.extra = d.pick([["-no-pie"], ["-no-pie", "-o", "alt"], ["side.c"], ["-no-pie", "side file.c"], ["nothere.c"], ["-Wl,--no-such-flag"], ["-DX=a b", "-no-pie"], []])
            order += ["--"] + case.extra
        elif d.bool(0.02):
            order.append("--")
        case.args = order
        case.stale = d.bool(0.4)
        return case

    def describe(self, case):
        return "%s skull %s\nsource: %s, %s; earlier output around: %s" % (" ".join(case.env), " ".join(map(repr, case.args)), case.kind, case.state, case.stale)

    def nontrivial(self, case):
        return self.describe(case) if len(case.args) >= 3 or case.state != "there" or case.kind != "valid" else None

    # ---- set up
    def lay(self, case, conf, stale):
        box = self.box
        box.fresh()
        w = box.work
        for sub in ("sub/deep", "my dir", "ABS", "a.sk"):
            os.makedirs(os.path.join(w, sub))
        os.symlink("/dev/full", os.path.join(w, "full"))
        box.put("side.c", "int side_value;\n")
        box.put("side file.c", "int side_value;\n")
        box.put("keep.txt", "keep")
        box.put("sub/keep", "keep")
        if conf is None:
            return
        file = os.path.join(w, conf["file"])
        base = os.path.dirname(file)
        if not os.path.isdir(base):
            return
        if case.state == "folder":
            os.makedirs(file, exist_ok=True)
        elif case.state == "unreadable":
            # the size of the one cannot be told, the other leads nowhere
            os.symlink("/dev/ptmx" if case.name[-1] < "n" or not case.dir else os.path.basename(file), file)
        elif case.state != "missing":
            text = SOURCES[case.kind][0]
            with open(file, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode())
        if case.state == "binary-folder" and not os.path.exists(file[:-3]):
            os.mkdir(file[:-3])
        if case.kind == "import-found":
            with open(os.path.join(base, "other.sk"), "w") as f:
                f.write("noop\n")
        if stale:
            for p in self.outputs(conf):
                if not os.path.exists(p):
                    with open(p, "w") as f:
                        f.write("stale")

    def outputs(self, conf):
        file = os.path.join(self.box.work, conf["file"])
        d, n = os.path.split(file)
        out = [os.path.join(d, "." + n + "." + e) for e in ("o", "s", "c")] + [file[:-3]]
        if conf["o"] and conf["o"] != "-" and conf["o"].split("/")[0] not in ("nodir", "full"):
            out.append(os.path.join(self.box.work, conf["o"]))
        return out

    # ---- the check
    def check(self, case):
        box = self.box
        args = [os.path.join(box.work, "ABS", a[4:]) if a.startswith("ABS/") else a for a in case.args]
        try:
            conf = parse(args, [e.split("=")[0] for e in case.env])
            outcome = "run"
        except Bad as b:
            conf, outcome = None, "bad"
        except Info as i:
            conf, outcome = None, str(i)
        if conf and conf["file"].startswith("-"):
            raise Reject()
        if conf is None:
            # the files are the same as for the plain command line; a misnamed source is there as well
            named = [a for a in args if a.endswith(".sk") and not a.startswith("-")]
            file = named[0] if named else case.file if case.file in args and case.file[-1] != "/" else "p.sk"
            self.lay(case, {"file": file, "o": None}, case.stale)
        else:
            self.lay(case, conf, case.stale)
        before = snapshot(box.work)
        r = box.skull(*args, env=case.env, timeout=30)
        after = snapshot(box.work)
        diff = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
        what = "%s -> %s; changed files: %s" % (" ".join(map(repr, args)), r.brief(), diff)
        if r.kind != "e" or r.code not in (0, 1):
            raise Failure("crash", what)
        if outcome == "bad":
            if r.code != 1 or not r.err:
                raise Failure("bad-accepted", "a command line that must be rejected: " + what)
            if diff or r.out:
                raise Failure("bad-output", "a rejected command line had an effect: " + what)
            return
        if outcome != "run":
            if r.code != 0 or outcome.encode() not in r.out or diff:
                raise Failure("info", "expected the usage or version only: " + what)
            return
        self.judge(case, conf, args, before, after, diff, r, what)

    def judge(self, case, conf, args, before, after, diff, r, what):
        box = self.box
        mode = mode_of(conf["flags"])
        text, ok, warns = SOURCES[case.kind]
        if case.state in ("missing", "folder", "unreadable"):
            ok, warns = False, False
        fails = ok is False
        if warns and "--werror" in conf["flags"]:
            fails = True
        rel = os.path.relpath(os.path.join(box.work, conf["file"]), box.work)
        if not os.path.isdir(os.path.dirname(os.path.join(box.work, conf["file"])) or "."):
            fails = True
        d, n = os.path.split(rel)
        binary = rel[:-3]
        temp = os.path.join(d, "." + n + ".o")
        target = None
        link_may_touch = set()
        if mode == "bin":
            target = binary
            if conf["o"] is not None and conf["o"] != "-":
                target = os.path.relpath(os.path.join(box.work, conf["o"]), box.work)
            if before.get(target, 0) is None and ok:
                fails = True
            extra = conf["extra"] or []
            if conf["o"] == "-" or "alt" in extra and conf["o"]:
                if "alt" in extra and conf["o"] != "-":
                    raise Reject()
                fails = fails or bool(ok)
            elif not fails and ok:
                if case.kind == "strings" and "-no-pie" not in extra:
                    raise Reject()      # documented: needed for string literals
                if "nothere.c" in extra or "-Wl,--no-such-flag" in extra or conf["o"] == "nodir/out":
                    fails = True
                    link_may_touch = {target, temp}
                elif "alt" in extra:
                    target = "alt"
        elif conf["o"] == "-":
            fails = fails or (mode == "obj" and bool(ok))
            target = "-"
        elif conf["o"] is not None:
            target = os.path.relpath(os.path.join(box.work, conf["o"]), box.work)
            if conf["o"] in ("nodir/out", "sub", "full") and ok:
                fails = True
        elif "-E" in conf["flags"]:
            target = "-"
        else:
            target = os.path.join(d, "." + n + "." + {"C": "c", "asm": "s", "obj": "o"}[mode])
        if before.get(target, 0) is None and target != "-" and ok:
            fails = True
        if fails:
            if r.code != 1:
                raise Failure("fault-accepted", "the compile must fail: " + what)
            if not r.err.strip():
                raise Failure("no-message", "a failure without a message: " + what)
            if set(diff) - link_may_touch:
                raise Failure("left-over", "a failed compile changed files: " + what)
            if any(k in after and k not in before for k in diff):
                raise Failure("left-over", "a failed compile made files: " + what)
            return
        if r.code != 0:
            raise Failure("rejected", "the compile must succeed: " + what)
        quiet = "-q" in conf["flags"] or not warns
        if quiet and r.err:
            raise Failure("noise", "nothing is due on stderr: " + what)
        if not quiet and not r.err:
            raise Failure("no-warning", "a warning is due: " + what)
        if ok is None:      # an empty file: nothing to write
            if diff or r.out:
                raise Failure("empty-output", "an empty file has no output: " + what)
            return
        allowed = {target}
        if mode == "bin":
            allowed.add(temp)
            if temp in after:
                raise Failure("temp", "the temporary object is left: " + what)
        if target == "-":
            content = r.out
        else:
            if r.out:
                raise Failure("stdout", "nothing is due on stdout: " + what)
            content = after.get(target)
        if set(diff) - allowed:
            raise Failure("other-files", "files other than %s changed: %s" % (target, what))
        if not content or content == b"stale":
            raise Failure("no-output", "no output in %s: %s" % (target, what))
        if not content.startswith(MAGIC[mode]):
            raise Failure("format", "%s is not %s: %r; %s" % (target, mode, content[:40], what))
        if mode == "bin":
            x = box.exe(target) if "/" not in target else box.call([os.path.join(box.work, target)])
            if x.kind != "e" or x.code != CODES[case.kind]:
                raise Failure("binary", "the binary: %s, expected exit code %d; %s" % (x.brief(), CODES[case.kind], what))
            return
        # the same options in the plain form, in a clean folder, give the same bytes
        self.lay(case, conf, False)
        plain = [conf["file"]] + sorted(conf["flags"])
        c = box.skull(*plain, timeout=30)
        if "-E" in conf["flags"]:
            want = c.out
        else:
            want = snapshot(box.work).get(os.path.join(d, "." + n + "." + {"C": "c", "asm": "s", "obj": "o"}[mode]))
        if not c.ok or want != content:
            raise Failure("differs", "the output is not that of %s: %r, %r; %s" % (plain, (want or b"")[:200], content[:200], what))


CC_FAULTS = {
    "missing": None,
    "fails": "echo broken >&2\nexit 3\n",
    "killed": "kill -9 $$\n",
    "aborts": "kill -6 $$\n",
    "fails-late": "/usr/bin/cc \"$@\" && echo then >&2 && exit 1\n",
    "no-output": "exit 1\n",
}


class CcFaults(Test):
    """The link step fails: so does the compile, and no object is left."""
    name = "cc-faults"
    fast_link = False

    def generate(self, d):
        return Prog([], "", fault=None, how=d.weighted([(2, d.pick(sorted(CC_FAULTS))), (2, "exit %d" % d.pick([d.range(1, 255), 1 << d.below(8)])), (1, "kill -%d $$; exit 1" % d.pick([1, 2, 3, 4, 6, 8, 9, 10, 11, 13, 14, 15]))]), kind=d.pick(["valid", "calls", "warns", "semantic", "empty"]),
                    args=[a for a in ("-g", "-O1", "-q", "--llvm-no-verify") if d.bool(0.3)] + d.pick([[], ["--", "-no-pie"]]),
                    mode=d.weighted([(3, None), (1, "-c"), (1, "-E"), (1, "-S"), (1, "--c-backend")]))

    def check(self, case):
        box = self.box
        box.fresh()
        text, ok, warns = SOURCES[case.kind]
        box.put("p.sk", text)
        bin = os.path.join(box.dir, "bin")
        os.makedirs(bin, exist_ok=True)
        for n in ("cc",):
            if os.path.lexists(os.path.join(bin, n)):
                os.unlink(os.path.join(bin, n))
        script = CC_FAULTS.get(case.how, case.how + "\n")
        if script:
            with open(os.path.join(bin, "cc"), "w") as f:
                f.write("#!/bin/sh\n" + script)
            os.chmod(os.path.join(bin, "cc"), 0o755)
        args = (["--llvm-no-verify"] if False else []) + [a for a in case.args if not (case.mode == "--c-backend" and a == "--llvm-no-verify")]
        r = box.skull("p.sk", *([case.mode] if case.mode else []), *args, env=("PATH=" + bin,), timeout=30)
        names = sorted(os.listdir(box.work))
        what = "cc %s: skull p.sk %s %s -> %s; files %s" % (case.how, case.mode or "", args, r.brief(), names)
        if r.kind != "e" or r.code not in (0, 1):
            raise Failure("crash", what)
        uses_cc = case.mode is None and ok
        want = 0 if ok is None or (ok and not uses_cc) else 1
        if r.code != want:
            raise Failure("cc-exit", "expected exit code %d: %s" % (want, what))
        if uses_cc and ".p.sk.o" in names:
            raise Failure("left-over", "the temporary object is left: " + what)
        if want == 1 and set(names) - {"p.sk"} - ({"p"} if case.how == "fails-late" and uses_cc else set()):
            raise Failure("left-over", "a failed compile left files: " + what)

    def describe(self, case):
        return "cc %s, source %s, %s %s" % (case.how, case.kind, case.mode, case.args)


class FullDisk(Test):
    """No file can grow beyond a limit: an output is complete or, with a failure, not there."""
    name = "full-disk"
    fast_link = False
    weight = 2

    def generate(self, d):
        mode = d.weighted([(2, "-c"), (2, "-S"), (2, "-E"), (3, "--c-backend"), (2, None)])
        many = d.pick([0, 1, 3, 10, 40, 120])
        kind = d.pick(["functions", "statements", "names"])
        if kind == "functions":
            text = "".join("export f%d(x: Int) Int {\n\treturn x + %d\n}\n" % (i, i) for i in range(many))
        elif kind == "statements":
            text = "mut x := 1\n" + "x = x + 1\n" * many
        else:
            text = "export f%s() Int {\n\treturn 1\n}\n" % ("x" * many * 10)
        return Prog([], "", fault=None, mode=mode, text=text + "return 3\n", stale=d.bool(0.4), part=d.range(0, 120), known=d.range(0, 3),
                    args=[a for a in ("-g", "-O1", "-q") if d.bool(0.25)],
                    out=d.pick([None, None, "out", "-"]) if mode not in (None, "-c") else d.pick([None, "out"]))

    def describe(self, case):
        return "skull p.sk %s %s -o %s, files up to %d%% of the output; earlier output: %s\n%s" % (case.mode, case.args, case.out, case.part, case.stale, case.text[:300])

    def nontrivial(self, case):
        return self.describe(case) + str(len(case.text))

    def check(self, case):
        box = self.box
        args = ["p.sk", *([case.mode] if case.mode else []), *case.args, *(["-o", case.out] if case.out else [])]
        target = case.out or {"--c-backend": ".p.sk.c", "-S": ".p.sk.s", "-c": ".p.sk.o", "-E": "-", None: "p"}[case.mode]
        box.fresh()
        box.put("p.sk", case.text)
        r = box.skull(*args, timeout=30)
        full = r.out if target == "-" else box.get(target)
        if not r.ok or not full:
            raise Failure("rejected", "%s -> %s" % (args, r.brief()))
        size = len(full)
        if case.mode is None:
            # what the linker does with its own output is not looked at, but it needs an object, much like that of -c
            box.skull("p.sk", "-c", *case.args, timeout=30)
            size = len(box.get(".p.sk.o")) // 2
        # nothing but the messages must fit
        limit = max(200, size * case.part // 100 if case.known else size - 1)
        box.fresh()
        box.put("p.sk", case.text)
        if case.stale and target != "-":
            box.put(target, "stale")
        before = snapshot(box.work)
        r = box.skull(*args, env=("RLIMIT_FSIZE=%d" % limit,), timeout=30)
        after = snapshot(box.work)
        got = r.out if target == "-" else after.get(target)
        what = "files of up to %d bytes, the output has %d: skull %s -> %s; files %s" % (limit, size, args, r.brief(), sorted(after))
        if r.kind != "e" or r.code not in (0, 1):
            raise Failure("crash", what)
        if size > limit and r.code == 0:
            raise Failure("fault-accepted", "the output cannot be complete: " + what)
        if size <= limit and r.code and case.mode:
            raise Failure("rejected", "the output fits: " + what)
        if r.code == 0 and case.mode and got != full:
            raise Failure("differs", "the output is incomplete: " + what)
        if r.code and not r.err.strip():
            raise Failure("no-message", "a failure without a message: " + what)
        if set(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)) - {target}:
            raise Failure("left-over", "other files changed: " + what)
        if r.code and case.mode and target in after:
            raise Failure("left-over", "an incomplete output is left: " + what)


TESTS = [CommandLines, CcFaults, FullDisk]
