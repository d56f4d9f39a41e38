"""Literals: every spelling has exactly its documented value, and what is no literal is rejected."""
import zlib
import re, struct
from decimal import Decimal, getcontext
from fractions import Fraction

from .common import *

ID = "C11"
BUDGET = 40
RULE = ("values: distinct batches of at least 5 literals; near misses: distinct mutated spellings that are not plain "
        "decimal numbers or one letter texts; short numbers: distinct batches")
ASSUMPTIONS = ["the value is what an external C function receives", "Python's decimal to double conversion is correctly rounded",
               "code points above 10FFFF and `0_1` are outside of the domain"]

HEX = "0123456789abcdefABCDEF"
EXT = "".join("external obs_%s(v: %s)\nexternal op_%s(v: %s) %s\n" % (t.lower(), t, t.lower(), t, t) for t in BASIC)


def underscore(d, digits):
    """Single underscores between digits; a lone leading zero is not followed by one."""
    out = digits[0]
    for i, c in enumerate(digits[1:]):
        if not (i == 0 and digits[0] == "0") and d.bool(0.3):
            out += "_"
        out += c
    return out


def int_lit(d):
    k = d.below(5)
    if k == 0:
        v = d.range(0, 1000)
    elif k == 1:
        v = d.pick([I64_MAX, I64_MIN, I64_MAX - d.below(5), I64_MIN + d.below(5), (1 << 32) + d.range(-2, 2), (1 << 31) + d.range(-2, 2), 0, -1])
    elif k == 2:
        v = (1 << d.below(63)) + d.range(-2, 2)
    elif k == 3:
        v = d.range(0, I64_MAX) >> d.below(63)
    else:
        v = -(d.range(0, I64_MAX) >> d.below(63))
    base = d.below(4)
    if base and v >= 0:
        digits = {1: "%x", 2: "%o", 3: None}[base]
        s = digits % v if digits else bin(v)[2:]
        if base == 1 and d.bool(0.5):
            s = "".join(c.upper() if d.bool() else c for c in s)
        if d.bool(0.3):
            s = "0" * d.range(1, 3) + s
        if d.bool(0.4):
            s = s[0] + "".join(("_" if d.bool(0.3) else "") + c for c in s[1:])
        return v, "0" + " xob"[base] + s
    s = str(abs(v))
    if d.bool(0.15):
        s = "0" * d.range(1, 3) + s
    if d.bool(0.4):
        s = underscore(d, s)
    return v, ("-" if v < 0 or (v == 0 and d.bool(0.2)) else "") + s


def finite(bits):
    return struct.unpack("<d", struct.pack("<Q", bits))[0]


def exact(v):
    """All digits of a double."""
    getcontext().prec = 1200
    s = format(Decimal(v), "f")
    return s if "." in s else s + ".0"


def float_lit(d):
    k = d.below(9)
    if k == 0:
        return d.pick([(math.inf, "Infinity"), (-math.inf, "-Infinity"), (math.nan, "NaN")])
    if k in (1, 2):
        s = "%d.%s" % (d.below(10 ** d.range(1, 18)), "".join(d.pick("0123456789") for _ in range(d.range(1, 20))))
    elif k in (7, 8):
        s = "%d.%d" % (d.below(10 ** d.range(1, 4)), d.below(100))
    elif k == 3:
        s = float_text(abs(finite(d.range(0, 0x7fefffffffffffff))))
    elif k == 4:
        s = exact(abs(finite(d.range(0x3000000000000000, 0x4fffffffffffffff))))
    elif k == 5:
        # between two doubles, exactly in the middle or next to it
        bits = d.range(0x3f00000000000000, 0x41ffffffffffffff)
        getcontext().prec = 1200
        m = (Decimal(finite(bits)) + Decimal(finite(bits + 1))) / 2
        s = format(m, "f")
        if "." not in s:
            s += ".0"
        s += d.pick(["", "0", "1", "00000000000000000000000000000001"])
        if d.bool(0.2):
            s = s[:-1]
    else:
        s = float_text(abs(finite(d.pick([0, 1, 2, 0xfffffffffffff, 0x10000000000000, 0x7fefffffffffffff, 0x3ff0000000000000, 0x0008000000000000]))))
    whole, frac = s.split(".")
    if d.bool(0.15):
        whole = "0" * d.range(1, 2) + whole
    if d.bool(0.3):
        whole = underscore(d, whole)
    if d.bool(0.2):
        frac += "0" * d.range(1, 5)
    if not frac:
        frac = "0"
    s = ("-" if d.bool(0.3) else "") + whole + "." + frac
    v = float(s.replace("_", ""))
    if v in (math.inf, -math.inf) or (v == 0 and s.strip("-0_.")):
        raise Reject()
    return v, s


def code_point(d):
    k = d.below(8)
    if k < 3:
        return 32 + d.below(95)
    if k == 3:
        return d.below(32)
    if k == 4:
        return d.range(0x7f, 0x7ff)
    if k == 5:
        return d.range(0x800, 0xd7ff)
    if k == 6:
        return d.pick([0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0xfeff, 0x2028, 0x85, 0xa0])
    return d.range(0xe000, 0x10ffff)


NAMED = {92: "\\\\", 34: "\\\"", 39: "\\'", 0: "\\0", 27: "\\e", 9: "\\t", 13: "\\r", 10: "\\n"}


def hex_escape(d, cp, width=None):
    s = "%x" % cp
    s = s.rjust(width if width is not None else d.pick([1, 2, 2, 4, 8]), "0")[-8:]
    return "\\x" + ("".join(c.upper() if d.bool() else c for c in s) if d.bool(0.3) else s)


def rune_lit(d):
    cp = code_point(d)
    raw_ok = cp >= 32 and cp not in (39, 92) and not 0x7f <= cp < 0xa0
    if raw_ok and not d.bool(0.4):
        return cp, "'%s'" % chr(cp)
    if cp in NAMED and not d.bool(0.3):
        return cp, "'%s'" % NAMED[cp]
    return cp, "'%s'" % hex_escape(d, cp)


def str_lit(d):
    n = d.weighted([(1, 0), (3, 1), (4, 3), (3, 8), (1, 30)])
    cps = [code_point(d) if not d.bool(0.3) else ord(d.pick("0123456789abcdefxABCDEF\\\"'#{}n")) for _ in range(n)]
    pieces = []
    for i, cp in enumerate(cps):
        raw_ok = cp not in (0, 34, 92)
        if raw_ok and not d.bool(0.3):
            pieces.append(chr(cp))
        elif cp in NAMED and not d.bool(0.3):
            pieces.append(NAMED[cp])
        else:
            pieces.append(None)
    # a shorter escape takes following hex digits with it
    for i in range(n - 1, -1, -1):
        if pieces[i] is None:
            nxt = pieces[i + 1][:1] if i + 1 < n else ""
            pieces[i] = hex_escape(d, cps[i], 8 if nxt and nxt in HEX else None)
    return "".join(map(chr, cps)), '"' + "".join(pieces) + '"'


def bool_lit(d):
    v = d.bool()
    return v, "true" if v else "false"


MAKE = {"Int": int_lit, "Float": float_lit, "Bool": bool_lit, "Rune": rune_lit, "Str": str_lit}
CONTEXTS = ["arg", "const", "typed", "mut", "set", "ret", "op", "local", "param", "ns", "is", "block", "export"]


def place(ctx, i, t, s):
    """(source lines, is the value compared with itself)"""
    o = "obs_" + t.lower()
    n = "v%d" % i
    if ctx == "arg":
        return "%s(%s)\n" % (o, s)
    if ctx == "const":
        return "%s := %s\n%s(%s)\n" % (n, s, o, n)
    if ctx == "export":
        return "export %s := %s\n%s(%s)\n" % (n, s, o, n)
    if ctx == "typed":
        return "%s: %s = %s\n%s(%s)\n" % (n, t, s, o, n)
    if ctx == "mut":
        return "mut %s := %s\n%s(%s)\n" % (n, s, o, n)
    if ctx == "set":
        zero = {"Int": "7", "Float": "7.5", "Bool": "true", "Rune": "'q'", "Str": "\"q\""}[t]
        return "mut %s := %s\n%s = %s\n%s(%s)\n" % (n, zero, n, s, o, n)
    if ctx == "ret":
        return "%s() %s {\n\treturn %s\n}\n%s(%s())\n" % (n, t, s, o, n)
    if ctx == "op":
        return "%s(op_%s(%s))\n" % (o, t.lower(), s)
    if ctx == "local":
        return "%s() {\n\tx := %s\n\tmut y := x\n\ty = x\n\t%s(y)\n}\n%s()\n" % (n, s, o, n)
    if ctx == "param":
        return "%s(x: %s) {\n\t%s(x)\n}\n%s(%s)\n" % (n, t, o, n, s)
    if ctx == "ns":
        return "namespace %s {\n\tx := %s\n}\n%s(%s.x)\n" % (n, s, o, n)
    if ctx == "is":
        return "if %s is op_%s(%s) {\n\t%s(%s)\n}\nelse {\n\t%s(%s)\nobs_int(5)\n}\n" % (s, t.lower(), s, o, s, o, s)
    if ctx == "block":
        return "if op_bool(true) {\n\tx := %s\n\t%s(x)\n}\n" % (s, o)
    raise AssertionError(ctx)


class Values(Test):
    name = "values"
    weight = 2

    def generate(self, d):
        items = []
        for i in range(d.weighted([(2, d.range(1, 4)), (3, d.range(5, 15)), (3, d.range(20, 60))])):
            t = d.pick(("Int", "Float", "Rune", "Str", "Int", "Float", "Rune", "Str", "Bool"))
            v, s = MAKE[t](d)
            ctx = d.pick(CONTEXTS)
            d.label(t)
            items.append((t, v, s, ctx))
        src, out = EXT, []
        for i, (t, v, s, ctx) in enumerate(items):
            src += place(ctx, i, t, s)
            out.append(show(t[0].lower(), t, v))
            if ctx == "is" and v != v:
                out.append("i 5")
        return Prog([], src, items=items, out=out)

    def check(self, case):
        c, r = self.box.build_and_run(case.src, flags=flags_of(case.src))
        compare_run(c, r, case.out, 0)

    def describe(self, case):
        return case.src[len(EXT):]

    def nontrivial(self, case):
        return case.src if len(case.items) >= 5 else None


# ---- an independent recogniser of literals

INT10 = re.compile(r"-?[0-9]+(_[0-9]+)*\Z")
INTP = re.compile(r"0(x[0-9a-fA-F]+(_[0-9a-fA-F]+)*|o[0-7]+(_[0-7]+)*|b[01]+(_[01]+)*)\Z")
FLOAT = re.compile(r"-?[0-9]+(_[0-9]+)*\.[0-9]+\Z")
ESC = re.compile(r"\\(?:([\\\"'0etrn])|x([0-9a-fA-F]{1,8}))")


def decode(s):
    """The text that `s` stands for, or None."""
    out, i = [], 0
    while i < len(s):
        if s[i] != "\\":
            out.append(ord(s[i]))
            i += 1
            continue
        m = ESC.match(s, i)
        if not m:
            return None
        out.append({"\\": 92, "\"": 34, "'": 39, "0": 0, "e": 27, "t": 9, "r": 13, "n": 10}[m.group(1)] if m.group(1) else int(m.group(2), 16))
        i = m.end()
    return out


def recognise(s):
    """(type, value), or None when `s` is no literal. Raises Reject when the answer is not documented."""
    if s in ("true", "false"):
        return "Bool", s == "true"
    if s in ("NaN", "Infinity", "-Infinity"):
        return "Float", float(s)
    if INTP.match(s):
        v = int(s[2:].replace("_", ""), {"x": 16, "o": 8, "b": 2}[s[1]])
        return ("Int", v) if v <= I64_MAX else None
    if INT10.match(s):
        if s.startswith("0_"):
            raise Reject()
        v = int(s.replace("_", ""))
        return ("Int", v) if I64_MIN <= v <= I64_MAX else None
    if FLOAT.match(s):
        v = float(s.replace("_", ""))
        if v in (math.inf, -math.inf) or (v == 0 and s.strip("-0_.")):
            return None
        return "Float", v
    if len(s) >= 2 and s[0] == s[-1] == "'":
        v = decode(s[1:-1])
        if v is None or len(v) != 1:
            return None
        if s[1] != "\\" and (v[0] < 32 or 0x7f <= v[0] < 0xa0):
            if v[0] < 32 or v[0] == 127:
                return None
            raise Reject()
        if v[0] > 0x10ffff:
            raise Reject()
        if 0xd800 <= v[0] <= 0xdfff:
            return None
        return "Rune", v[0]
    if len(s) >= 2 and s[0] == s[-1] == '"':
        v = decode(s[1:-1])
        if v is None:
            return None
        if any(c > 0x10ffff for c in v):
            raise Reject()
        if any(0xd800 <= c <= 0xdfff for c in v):
            # text after a NUL is not looked at
            if 0 in v:
                raise Reject()
            return None
        return "Str", "".join(map(chr, v))
    return None


NUM = "0123456789abcdefxobXOBgzE_.-+"


def single_token(s):
    """Is `s` read as one token, which is no name or operator?"""
    if s and s[0] in "\"'":
        q = s[0]
        i = 1
        while i < len(s):
            if s[i] == "\\" and s[i + 1:i + 2] in ("\\", q):
                i += 2
                continue
            if s[i] == q:
                return i == len(s) - 1
            i += 1
        return False
    return bool(s) and all(c in NUM for c in s) and s[0] in "0123456789-._+" and s not in ("-", "+")


def short_spelling(d):
    """A short number like text."""
    n = d.range(1, 7)
    return "".join(d.pick("0011234567899__..--xxbboaF") for _ in range(n))


class Short(Test):
    """Short spellings of numbers: the valid ones are in one program, each other one is in a program of its own."""
    name = "short-numbers"

    def generate(self, d):
        good, bad = [], []
        for _ in range(d.range(20, 120)):
            s = short_spelling(d)
            if not single_token(s) or s[0] in "._+" or any(x[1] == s for x in good) or s in bad:
                continue
            try:
                got = recognise(s)
            except Reject:
                continue
            if got:
                good.append((got, s))
            elif len(bad) < 6:
                bad.append(s)
        if not good:
            raise Reject()
        src, out = EXT, []
        for i, ((t, v), s) in enumerate(good):
            src += place(d.pick(CONTEXTS), i, t, s)
            out.append(show(t[0].lower(), t, v))
        d.label("short")
        return Prog([], src, out=out, bad=bad)

    def check(self, case):
        c, r = self.box.build_and_run(case.src, flags=flags_of(case.src))
        compare_run(c, r, case.out, 0)
        for s in case.bad:
            bad = "x := %s\n" % s
            self.box.put("p.sk", bad)
            c = self.box.skull("p.sk", *way_of(bad))
            if c.kind != "e" or c.code != 1 or not c.err:
                raise Failure("accepted", "%s is no literal, but: %s" % (s, c.brief()))

    def describe(self, case):
        return case.src[len(EXT):] + "\nno literals: %s" % case.bad

    def nontrivial(self, case):
        return case.src


def flags_of(src):
    """Mostly no flags of interest; the text decides."""
    return [("-q",), ("-q",), ("-q",), ("-q", "-O2"), ("-q", "-g"), ("-q", "-O3", "-g")][zlib.crc32(src.encode()) % 6]


class NearMisses(Test):
    name = "near-misses"

    def generate(self, d):
        t = d.pick(("Int", "Float", "Rune", "Str"))
        v, s = MAKE[t](d)
        if t == "Int" and d.bool(0.2):
            # around the limits
            v = d.pick([I64_MAX, I64_MIN, 1 << 64, -(1 << 64)]) + d.range(-3, 3)
            s = str(v) if v < 0 or not d.bool() else hex(v)
        if t == "Float" and d.bool(0.1):
            s = d.pick(["1", "9"]) + "".join(d.pick("0123456789") for _ in range(d.range(306, 311))) + ".0"
        if t == "Float" and d.bool(0.05):
            s = "0." + "0" * d.range(320, 330) + d.pick(["1", "24", "25", "4"])
        if t in ("Rune", "Str") and d.bool(0.12):
            # around the code points which are no characters
            c = d.pick([0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffe, 0x10ffff, d.range(0xd800, 0xdfff)])
            e = "\\x" + "0" * d.weighted([(3, 0), (1, d.range(1, 4))]) + d.pick(["%x", "%X"]) % c
            s = "'%s'" % e if t == "Rune" else s[:-1] + e + '"'
        for _ in range(d.weighted([(1, 0), (5, 1), (2, 2)])):
            alphabet = NUM if t in ("Int", "Float") else "\\x0123456789abcdefgnrteqzu'\"" + chr(code_point(d) or 1)
            lo, hi = (0, len(s)) if t in ("Int", "Float") else (1, len(s) - 1)
            if hi < lo:
                break
            at = d.range(lo, hi)
            op = d.below(3)
            c = d.pick(alphabet)
            if t in ("Int", "Float") and d.bool(0.1):
                op, c = 0, d.pick(["_", "__", "."])
            if t in ("Rune", "Str") and d.bool(0.15):
                # raw control characters
                op, c = d.pick([0, 2, 2]), chr(d.weighted([(6, d.range(1, 31)), (3, 127), (1, d.range(128, 160))]))
            if op == 0:
                s = s[:at] + c + s[at:]
            elif at < hi:
                s = s[:at] + ("" if op == 1 else c) + s[at + 1:]
        if not single_token(s) or "\0" in s:
            raise Reject()
        try:
            s.encode("utf-8")
        except UnicodeEncodeError:
            raise Reject()
        got = recognise(s)
        d.label(("%s " % got[0] if got else "no ") + "literal")
        if got:
            src = EXT + place(d.pick(CONTEXTS), 0, got[0], s)
        else:
            src = EXT + d.pick(["x := %s\n", "mut x := %s\n", "if %s is 1 {\n\tnoop\n}\n", "f() {\n\tx := %s\n}\n", "obs_%s(%%s)\n" % t.lower(), "x: %s = %%s\n" % t,
                                "return %s\n", "f() %s {\n\treturn %%s\n}\n" % t]) % s
        return Prog([], src, spelling=s, got=got, nan="is op_" in src and got and got[1] != got[1])

    def check(self, case):
        c, r = self.box.build_and_run(case.src, flags=flags_of(case.src))
        if case.got is None:
            way = way_of(case.src)
            w = self.box.skull("p.sk", *way)
            if w.kind != "e" or w.code != 1 or not w.err:
                raise Failure("accepted", "%s is no literal, but with %s: %s" % (case.spelling, " ".join(way), w.brief()))
            if c.kind != "e" or c.code != 1:
                raise Failure("accepted", "%s is no literal, but: %s%s" % (case.spelling, c.brief(), "; it ran: " + r.brief() if r else ""))
            if not c.err:
                raise Failure("no-message", "%s is rejected without a message" % case.spelling)
            return
        t, v = case.got
        compare_run(c, r, [show(t[0].lower(), t, v)] + (["i 5"] if case.nan else []), 0)

    def describe(self, case):
        return case.src[len(EXT):]

    def nontrivial(self, case):
        s = case.spelling
        return s if not re.match(r"-?[0-9]{1,3}\Z|'.'\Z|\".?\"\Z", s) else None


TESTS = [Values, NearMisses, Short]
