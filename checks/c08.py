"""Robustness: any input ends in exit 0 or 1, with a diagnostic or an output, without memory errors."""
from .common import *
from lib.faults import FaultGen
from lib.layout import Style, lay_out
from lib.scale import Scale

ID = "C08"
BUDGET = 60
RULE = "the file has at least 3 non blank characters (distinct file contents are counted)"
ASSUMPTIONS = ["files of up to a few KB", "memory leaks are not errors", "the documented lack of closures (a nested function that uses a local of the function around it) may end in an LLVM verifier message"]

TOKENS = ["if", "elif", "else", "while", "break", "continue", "return", "noop", "unreachable", "namespace", "import", "external", "export", "mut", "not", "and", "or",
          "xor", "is", "isnt", "mod", "true", "false", "Int", "Float", "Bool", "Rune", "Str", "Void", "+", "-", "*", "/", "^", "<<", ">>", "<", ">", "<=", ">=", "=",
          ":=", "&", "(", ")", "{", "}", ",", "\n", "\n", "\n", "\n", "a", "b", "f", "g", "a:", "b:", "f(", "f()", "a.b", "n.x", "a.", ".a", ":", "::", "==", "1", "0", "-1", "2.5", "0x1F", "0b1", "0o7", "1_0",
          "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e5", "Infinity", "NaN", "-Infinity", "'a'", "'\\n'", "'\\x41'", "''", "'", "\"", "\"a\"", "\"\"",
          "\"\\x41\"", "\"\\", "# c\n", "#{ c #}", "#{", "#}", "#", "é", "😀", "\t", "\r\n", "\\", "$", "@", "%", "p", "obs_int", "_", "0x", "0b", "'\\", "\"\\x", "\ufeff"]
MODES = [("-E",), ("-c",), ("-S",), ("--c-backend",), ("--c-backend", "-E"), ("-E", "-g"), ("-c", "-O2"), ("-E", "-q"), ("-E", "--werror"), ("-E", "--color"), ("-c", "-g", "-O1"), ()]
OUT = {("-E",): None, ("-c",): ".p.sk.o", ("-S",): ".p.sk.s", ("--c-backend",): None, (): "p"}
CLOSURE = (b"error while verifying LLVM: Referring to an argument in another function!", b"error while verifying LLVM: Referring to an instruction in another function!")


class Source:
    def __init__(self, data, mode):
        self.data, self.mode = data, mode


def out_name(mode):
    if "-E" in mode:
        return None
    if "--c-backend" in mode:
        return None
    if "-c" in mode:
        return ".p.sk.o"
    if "-S" in mode:
        return ".p.sk.s"
    return "p"


class Fuzz(Test):
    flavor = "asan"

    def make(self, d):
        raise NotImplementedError

    def generate(self, d):
        mode = d.pick(MODES)
        return Source(self.make(d), mode)

    def check(self, case):
        box = self.box
        box.fresh()
        box.put("p.sk", case.data)
        if b"import" in case.data:
            box.put("m.sk", "x := 1\n")
        args = ["p.sk", *case.mode]
        if not case.mode:
            args += ["--", "-no-pie", box.obs]
        c = box.skull(*args, timeout=20.0)
        if c.kind == "t":
            raise Failure("hang", "the compiler does not end: %s" % c.brief())
        if c.kind == "s":
            raise Failure("signal", "the compiler was killed: %s" % c.brief())
        if b"AddressSanitizer" in c.err or b"runtime error:" in c.err or c.code == 99:
            raise Failure("sanitizer", "memory error or undefined behaviour: %s" % c.err[:1500].decode("utf-8", "replace"))
        if c.code not in (0, 1):
            raise Failure("exit-code", "exit code %d: %s" % (c.code, c.brief()))
        files = set(os.listdir(box.work)) - {"p.sk", "m.sk"}
        if c.code == 1:
            if any(x in c.err for x in CLOSURE):
                return
            if not case.mode and (b"undefined" in c.err or b"ld" in c.err) and b"Compilation error" not in c.err:
                return  # the program calls C functions which do not exist: the linker says so
            if b"verifying LLVM" in c.err:
                raise Failure("verifier", "invalid code was generated: %s" % c.brief())
            said = [l for l in c.err.split(b"\n") if b"Compilation error" in l or l.startswith(b"skull: ")]
            werror = "--werror" in case.mode and b"Warning: " in c.err
            if not said and not werror:
                raise Failure("silent", "the compile failed without saying why: %s" % c.brief())
            if files:
                raise Failure("left-output", "a failed compile left %s" % sorted(files))
            return
        if b"Compilation error" in c.err:
            raise Failure("error-ignored", "an error was printed, but the compile succeeded: %s" % c.brief())
        if b"file is empty" in c.err or not case.data:
            return  # a warning: nothing to compile
        want = out_name(case.mode)
        if want is not None and want not in files:
            raise Failure("no-output", "the compile succeeded without output %s: %s" % (want, c.brief()))
        if "-E" in case.mode and not c.out:
            raise Failure("no-output", "the compile succeeded without output: %s" % c.brief())

    def describe(self, case):
        return "skull p.sk %s\n%s" % (" ".join(case.mode), case.data.decode("utf-8", "backslashreplace"))

    def nontrivial(self, case):
        return repr(case.data) if len(case.data.split()) and len(case.data.strip()) >= 3 else None


class Bytes(Fuzz):
    name = "bytes"

    def make(self, d):
        n = d.pick([1, 2, 4, 8, 16, 64])
        out = bytearray()
        for _ in range(d.below(n) + 1):
            k = d.below(6)
            if k == 0:
                out.append(d.below(256))
            elif k == 1:
                out += d.pick(TOKENS).encode()
            elif k == 2:
                out += b" "
            elif k == 3:
                out += chr(d.pick([0x80, 0xa0, 0xe9, 0x7ff, 0x800, 0x20ac, 0xfeff, 0xffff, 0x1f600, 0x10ffff, 0x85, 0x2028, 0x3000, 0x1])).encode()
            elif k == 4:
                out += d.pick([b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xff", b"\xe2\x82", b"\xf0\x9f", b"\x00", b"\x7f", b"\x0c", b"\x0b"])
            else:
                out.append(d.pick(b"\"'#\\{}()&*,:=.-+0x_\n\r\t "))
        return bytes(out)


class Soup(Fuzz):
    name = "token-soup"
    weight = 2

    def make(self, d):
        out = ""
        for _ in range(d.range(1, d.pick([4, 8, 20, 60]))):
            out += d.pick(TOKENS) + d.pick([" ", " ", " ", "", "\n"])
        return out.encode()


# statements which are nearly right, glued at random
PIECES = ["a := 1", "mut a := 1", "a = 2", "mut b := 1.5", "b = b + 1.0", "f() { noop }", "f(a: Int) Int { return a }", "f(1)", "f()", "x := f()", "if true { noop }", "else { noop }",
          "elif true { noop }", "while true { break }", "while false { continue }", "if a is 1 { return 1 }", "return", "return 1", "return a", "namespace n { x := 1 }", "y := n.x", "n.x = 2",
          "T := Int", "t: T = 1", "r := &a", "q := *r", "s := &&a", "external puts(s: Str) Int", "puts(\"x\")", "external g(v: &Int)\n", "g(&a)", "export z := 1", "export h() Int { return 3 }",
          "unreachable", "noop", "break", "continue", "import m", "import m", "import p", "import nothing", "if true {", "}", "{", "f(a: Int) {", "f() Int {", "namespace n {", "while a < 3 {", "c := 'a'", "d := \"s\" is \"t\"",
          "e := 1 / 0", "e := 1 mod 0", "e := 2 ^ 63", "e := 1 << 64", "e := -9223372036854775808 / -1", "e := 0 - 1", "k := -1", "k := not true", "k := not 1", "v: Void = f()", "v := Void", "v: Int", "mut v",
          "V := &Int", "V := &Void", "w: &Void = f()", "a.b.c := 1", "a.b()", "n.f()", "Int := 1", "a: Int = a", "f(f: Int) { noop }", "f(a: Int, a: Int) { noop }", "f(a: Void) { noop }",
          "external puts(s: Str) Int", "# c", "#{ c #}", "x := (1)", "x := ((1 + 2) * 3)", "x := true and false or true", "x := f", "x := n", "x := T", "x := *a", "x := &1", "x := -\"s\""]


class Pieces(Fuzz):
    name = "statement-soup"
    weight = 2

    def make(self, d):
        out = ""
        for _ in range(d.range(1, d.pick([3, 6, 12, 25]))):
            out += d.pick(PIECES) + d.pick(["\n", "\n", "\n", " ", "\n\t"])
        if d.bool(0.3):
            out += "}\n" * d.below(3)
        return out.encode()


class Mutations(Fuzz):
    name = "mutations"
    weight = 3

    def make(self, d):
        k = d.below(13)
        o = Opts(size=d.range(1, 14), depth=2)
        if k < 9:
            stmts = Gen(d, o).program() if k else Scale(d).program()
            src = render(stmts) if d.bool() else lay_out(d, stmts, Style(d)).text
        else:
            g = FaultGen(d, o, d.pick(["type", "name", "struct", "expr", "literal"]), 0.2)
            stmts = g.program()
            src = lay_out(d, stmts, Style(d), bad=True).text
        data = bytearray(src.encode())
        for _ in range(d.below(5)):
            if not data:
                break
            m = d.below(8)
            i = d.below(len(data))
            j = min(len(data), i + 1 + d.below(d.pick([2, 8, 40])))
            if m == 0:
                del data[i:j]
            elif m == 1:
                data[i:i] = data[i:j]
            elif m == 2:
                data[i:i] = d.pick(TOKENS).encode()
            elif m == 3:
                data[i] = d.below(256)
            elif m == 4:
                del data[i:]
            elif m == 5:
                p = d.below(len(data))
                data[p:p] = data[i:j]
            elif m == 6:
                # replace a word
                words = src.split()
                w = d.pick(words).encode() if words else b"a"
                data[i:j] = b" " + w + b" "
            else:
                data[i:j] = b" " + d.pick(TOKENS).encode() + b" "
        return bytes(data)


class Deep(Fuzz):
    name = "deep"

    def make(self, d):
        n = d.pick([1, 10, 100, 500, 1000])
        a, b = d.pick([("(", ")"), ("f(", ")"), ("not (", ")"), ("if true {\n", "noop }\n"), ("namespace a%d {\n", "noop }\n"), ("f%d() {\n", "noop }\n"), ("1 + ", ""), ("- (", ")"), ("&", ""), ("*", ""),
                       ("while true {\n", "break }\n"), ("a := 1\n", ""), ("a%d := 1\n", ""), ("a.", ""), ("\"", ""), ("#{", ""), ("x", ""), ("9", ""), ("é", ""), ("if true { noop }\n", "")])
        mid = d.pick(["1", "", "a", "true", "noop\n"])
        left = "".join(a % i if "%d" in a else a for i in range(n))
        return (d.pick(["", "x := ", "obs_int("]) + left + mid + b * (n if d.bool(0.8) else n // 2) + "\n").encode()


class Long(Fuzz):
    """Long tokens, long lists, many names: every growing buffer, at lengths around powers of two."""
    name = "long"

    def make(self, d):
        n = max(1, d.pick([1, 4, 8, 16, 32, 64, 100, 128, 255, 256, 500, 512, 1000, 1024, 2048, 3000, 4096]) + d.range(-2, 2))
        ch = d.pick(["a", "1", " ", "é", "€", "😀", "\\n", "\\x41", "\\\\", "'", "#", "{", "\t", "\U0010ffff", "ß", "é😀", "a\n", "a\n", "\u0301", "中"])
        few = min(n, 600)
        k = d.below(16)
        obs = "external obs_str(s: Str)\nexternal obs_int(i: Int)\n"
        if k < 4:
            text = ch.replace('"', "") * n
            return (obs + d.pick(['x := "%s"\nobs_str(x)\n', 'obs_str("%s")\n', 'mut x := "a"\nx = "%s"\n', 'if "%s" is "a" { noop }\n', 'x := "%s\n', "x := '%s'\n", 'obs_int("%s")\n', 'x: Int = "%s"\n', 'export x := "%s"\n']).replace("%s", text)).encode()
        if k == 4:
            return (d.pick(["# %s\nx := 1\n", "#{ %s #}\nx := 1\n", "x := 1 # %s", "x := 1 #{ %s", "x := 1 #{ %s #}", "#%s"]) % (ch.replace("\n", " ") * n)).encode()
        if k == 5:
            name = d.pick(["a", "é", "aé", "a1", "a.", "A", "_"]) * n
            return (d.pick(["%s := 1\nobs_int(%s)\n", "mut %s := 1\n%s = 2\n", "%s() { noop }\n%s()\n", "namespace %s { x := 1 }\ny := %s.x\n", "y := %s\n#%s\n", "%s(%s\n", "%s: %s = 1\n", "%s := Int\nx: %s = 1\n",
                            "external %s(a: Int)\n%s(1)\n", "export %s := 1\n#%s\n", "import %s\n#%s\n"]).replace("%s", name)).encode()
        if k == 6:
            kind = d.pick(["Int", "Str", "Float", "&Int"])
            params = ", ".join("p%d: %s" % (i, kind) for i in range(few))
            args = ", ".join({"Int": "1", "Str": '"a"', "Float": "1.5", "&Int": "&g"}[kind] for _ in range(max(0, few - d.weighted([(4, 0), (1, 1)]))))
            return ("g := 1\n" + d.pick(["f(%s) { noop }\nf(%s)\n", "external f(%s)\nf(%s)\n", "f(%s) Int { return 1 }\nx := f(%s)\n"]) % (params, args)).encode()
        if k == 7:
            return (obs + "".join(d.pick(["x%d := %d\n"]) % (i, i) for i in range(few)) + "obs_int(x%d)\n" % d.below(few + 1)).encode()
        if k == 8:
            return ("".join("f%d(a: Int) Int { return a }\n" % i for i in range(few)) + "x := f%d(1)\n" % d.below(few + 1)).encode()
        if k == 9:
            return ("mut x := 1\nif x is 0 { noop }\n" + "".join("elif x is %d { noop }\n" % i for i in range(few)) + "else { noop }\n").encode()
        if k == 10:
            op = d.pick(["+", "-", "*", "<<", "is", "and", "^", "/", "xor"])
            v = "true" if op in ("and", "xor", "is") else d.pick(["1", "y", "2"])
            return ("y := 1\nx := " + (" %s " % op).join([v] * few) + "\n").encode()
        if k == 11:
            return ("x := " + d.pick(["%s", "-%s", "0x%s", "0b%s", "0o%s", "1.%s", "%s.5", "1_%s", "0.%s1"]) % (d.pick(["1", "0", "7", "_", "1_"]) * n) + "\n").encode()
        if k == 12:
            return ("\n" * n + d.pick(["x := \n", "x := 1\n", "if\n"])).encode()
        if k == 13:
            return (" " * n + d.pick(["x := y\n", "x := 1\n", "if\n", "\"a"])).encode()
        if k == 14:
            return ("namespace n {\n" + "".join("x%d := %d\n" % (i, i) for i in range(few)) + "}\ny := n.x%d\n" % d.below(few + 1)).encode()
        return ("".join('s%d := "text %d é"\n' % (i, i) for i in range(few)) + "".join("export e%d := %d\n" % (i, i) for i in range(few))).encode()


import os

TESTS = [Bytes, Soup, Pieces, Mutations, Deep, Long]
