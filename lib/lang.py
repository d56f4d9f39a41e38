"""Reference model of the Skull language: syntax trees, printer, and interpreter.

Written from the documentation (docs/*.md, docs/sfx), independent of how the compiler is written.
"""
import ctypes, math, struct

from .engine import Reject

I64_MIN, I64_MAX = -(1 << 63), (1 << 63) - 1
BASIC = ("Int", "Float", "Bool", "Rune", "Str")

_libm = ctypes.CDLL("libm.so.6")
_libm.pow.restype = _libm.fmod.restype = ctypes.c_double
_libm.pow.argtypes = _libm.fmod.argtypes = [ctypes.c_double, ctypes.c_double]

# precedence, tightest first
PREC = {"^": 2, "*": 4, "/": 4, "mod": 4, "+": 5, "-": 5, "and": 6, "or": 6, "xor": 6, "<<": 6, ">>": 6,
        "is": 7, "isnt": 7, "<": 7, ">": 7, "<=": 7, ">=": 7}
UNARY_PREC = 3
MAX_PREC = 7


class Undefined(Reject):
    """The program does something the language leaves undefined (or the model leaves out)."""


class Sym:
    __slots__ = ("kind", "name", "type", "mut", "const_expr", "owner", "glob", "params", "ret", "external", "export", "ns",
                 "body", "depth", "used", "assigned", "line", "called", "init", "is_param", "alias_of", "quiet_external", "callback", "uid", "pure")
    count = 0

    def __init__(self, kind, name, **kw):
        for k in self.__slots__:
            setattr(self, k, None)
        self.kind, self.name = kind, name
        Sym.count += 1
        self.uid = Sym.count
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)


class Lit:
    __slots__ = ("type", "value", "text")

    def __init__(self, type, value, text=None):
        self.type, self.value = type, value
        self.text = text if text is not None else lit_text(type, value)


class Var:
    __slots__ = ("sym", "path", "type")

    def __init__(self, sym, path=None):
        self.sym, self.path, self.type = sym, path or sym.name, sym.type


class Bin:
    __slots__ = ("op", "l", "r", "type")

    def __init__(self, op, l, r, type):
        self.op, self.l, self.r, self.type = op, l, r, type


class Un:
    __slots__ = ("op", "e", "type")

    def __init__(self, op, e):
        self.op, self.e, self.type = op, e, e.type


class Ref:
    __slots__ = ("var", "type")

    def __init__(self, var):
        self.var, self.type = var, "&" + var.type


class Deref:
    __slots__ = ("var", "type", "gap")

    def __init__(self, var, gap=""):
        self.var, self.type, self.gap = var, var.type[1:], gap


class Call:
    __slots__ = ("sym", "path", "args", "type", "trailing")
    commas = None   # override: True, all calls have a trailing comma; False, none

    def __init__(self, sym, args, path=None, trailing=False):
        self.sym, self.args, self.path, self.type, self.trailing = sym, args, path or sym.name, sym.ret, trailing


class Alt:
    """Two renderings of one expression: the valid one, and one with a fault."""
    __slots__ = ("good", "bad", "type")
    show_bad = False

    def __init__(self, good, bad):
        self.good, self.bad, self.type = good, bad, good.type


class Raw:
    """Literal tokens."""
    __slots__ = ("tokens", "type")

    def __init__(self, tokens, type=None):
        self.tokens, self.type = tokens, type


class AltText(str):
    """A type written two ways."""
    bad = None


class Tok(str):
    """A token that the printer should record the position of."""
    mark = None


class CallTok(Tok):
    """The name in a call."""
    call = None


def mark(text, name="fault"):
    t = Tok(text)
    t.mark = name
    return t


class Paren:
    """Redundant parentheses."""
    __slots__ = ("e", "type")
    strip = False

    def __init__(self, e):
        self.e, self.type = e, e.type


def lit_text(type, v):
    if type == "Int":
        return str(v)
    if type == "Bool":
        return "true" if v else "false"
    if type == "Float":
        return float_text(v)
    if type == "Rune":
        return "'" + escape(v, "'") + "'"
    if type == "Str":
        return '"' + "".join(escape(ord(c), '"') for c in v) + '"'
    raise AssertionError(type)


def float_text(v):
    if v != v:
        return "NaN"
    if v in (math.inf, -math.inf):
        return "Infinity" if v > 0 else "-Infinity"
    from decimal import Decimal
    s = format(Decimal(repr(v)), "f")
    return s if "." in s else s + ".0"


def escape(cp, quote):
    c = chr(cp)
    if c == "\\":
        return "\\\\"
    if c == quote:
        return "\\" + quote
    if c == "\n":
        return "\\n"
    if c == "\t":
        return "\\t"
    if c == "\r":
        return "\\r"
    if cp == 0:
        return "\\0"
    if cp == 27:
        return "\\e"
    if cp < 32 or 127 <= cp < 160:
        return "\\x%08X" % cp if quote == "\"" else "\\x%02X" % cp
    return c


# ---- statements: plain tuples
# ("def", sym, expr, type_text or None)      variable definition
# ("set", Var, expr)
# ("if", [(cond, block)...], else_block or None)
# ("while", cond, block)
# ("break",) ("continue",) ("noop",) ("unreachable",)
# ("return", expr or None)
# ("call", Call)
# ("func", sym)                               sym.params: [Sym], sym.body
# ("ext", sym)
# ("ns", sym, block)
# ("alias", sym, type_text)
# ("comment", text)


def peel(e):
    while Paren.strip and type(e) is Paren:
        e = e.e
    return e


def expr_tokens(e, out, prec=MAX_PREC, open_unary=False):
    """Appends the tokens of `e`; parenthesised when it binds looser than `prec`."""
    e = peel(e)
    t = type(e)
    if t is Lit:
        out.append(e.text)
    elif t is Var:
        out.append(e.path)
    elif t is Ref:
        out.append("&")
        out.append(e.var.path)
    elif t is Alt:
        expr_tokens(e.bad if Alt.show_bad else e.good, out, prec, open_unary)
    elif t is Raw:
        out += e.tokens
    elif t is Deref:
        need = prec < UNARY_PREC and not open_unary
        if need:
            out.append("(")
        out.append("*")
        out.append(e.var.path)
        if need:
            out.append(")")
    elif t is Call:
        name = CallTok(e.path)
        name.mark = getattr(e.path, "mark", None)
        name.call = e
        out.append(name)
        out.append("(")
        for i, a in enumerate(e.args):
            if i:
                out.append(",")
            expr_tokens(a, out)
        if (e.trailing if Call.commas is None else Call.commas) and e.args:
            out.append(",")
        out.append(")")
    elif t is Paren:
        out.append("(")
        expr_tokens(e.e, out)
        out.append(")")
    elif t is Un:
        need = prec < UNARY_PREC and not open_unary
        if need:
            out.append("(")
        out.append(e.op)
        # no double unary operators
        expr_tokens(e.e, out, 2)
        if need:
            out.append(")")
    elif t is Bin:
        p = PREC[e.op]
        need = p > prec
        if need:
            out.append("(")
        # an unary operator may be the right side of ^ without parentheses, but then it takes a following ^ with it
        l = peel(e.l)
        glue = e.op == "^" and type(l) is Bin and type(peel(l.r)) in (Un, Deref) and l.op == "^"
        if glue:
            out.append("(")
        expr_tokens(e.l, out, MAX_PREC if glue else p)
        if glue:
            out.append(")")
        out.append(e.op)
        expr_tokens(e.r, out, p - 1, open_unary=True)
        if need:
            out.append(")")
    else:
        raise AssertionError(e)
    return out


DELIMS = set("{}(),&*\n")


def join_tokens(tokens):
    """Default layout of one line."""
    s = ""
    prev = None
    for t in tokens:
        if prev is None:
            pass
        elif prev in ("(", "&", "*") or t in (")", ",", "(") :
            if t == "(" and (prev in PREC or prev in ("not", "-", "return", "=", ":=", "if", "elif", "while", ",")):
                s += " "
            elif t == "(" and prev == "{":
                s += " "
            elif prev == "*" and False:
                s += " "
        else:
            s += " "
        s += t
        prev = t
    return s


class Printer:
    """Turns a program into lines of tokens: [(indent, [token...])]."""

    def __init__(self):
        self.lines = []
        self.stmt_line = {}  # id(stmt) -> index in lines
        self.raw_lines = set()

    def line(self, depth, tokens, stmt=None):
        if stmt is not None:
            self.stmt_line[id(stmt)] = len(self.lines)
        self.lines.append((depth, tokens))

    def block(self, stmts, depth):
        for s in stmts:
            self.stmt(s, depth)

    def stmt(self, s, d):
        k = s[0]
        if k == "alt":
            self.block(s[2] if Alt.show_bad else s[1], d)
        elif k == "def":
            sym = s[1]
            toks = []
            if sym.export:
                toks.append("export")
            if sym.mut:
                toks.append("mut")
            if s[3]:
                toks += [sym.name + ":"] + type_tokens(s[3]) + ["="]
            else:
                toks += [sym.name, ":="]
            expr_tokens(s[2], toks)
            self.line(d, toks, s)
        elif k == "set":
            self.line(d, expr_tokens(s[2], [s[1].path, "="]), s)
        elif k == "if":
            # s[3], if there: the comments before each elif and the else
            between = s[3] if len(s) > 3 else {}
            for i, (cond, block) in enumerate(s[1]):
                self.block(between.get(i, ()), d)
                self.line(d, expr_tokens(cond, ["if" if i == 0 else "elif"]) + ["{"], s if i == 0 else None)
                self.block(block, d + 1)
                self.line(d, ["}"])
            if s[2] is not None:
                self.block(between.get("else", ()), d)
                self.line(d, ["else", "{"])
                self.block(s[2], d + 1)
                self.line(d, ["}"])
        elif k == "while":
            self.line(d, expr_tokens(s[1], ["while"]) + ["{"], s)
            self.block(s[2], d + 1)
            self.line(d, ["}"])
        elif k in ("break", "continue", "noop", "unreachable"):
            self.line(d, [k], s)
        elif k == "return":
            self.line(d, expr_tokens(s[1], ["return"]) if s[1] is not None else ["return"], s)
        elif k == "call":
            self.line(d, expr_tokens(s[1], []), s)
        elif k in ("func", "ext"):
            sym = s[1]
            toks = []
            if k == "ext":
                toks.append("external")
            elif sym.export:
                toks.append("export")
            toks += [sym.name, "("]
            for i, p in enumerate(sym.params):
                if i:
                    toks.append(",")
                toks.append(p.name + ":")
                toks += type_tokens(p.init or p.type)
            toks.append(")")
            if sym.ret != "Void":
                toks += type_tokens(sym.init or sym.ret)
            elif sym.init == "Void":
                toks.append("Void")
            if k == "func":
                toks.append("{")
                self.line(d, toks, s)
                self.block(sym.body, d + 1)
                self.line(d, ["}"])
            else:
                self.line(d, toks, s)
        elif k == "ns":
            self.line(d, ["namespace", s[1].name, "{"], s)
            self.block(s[2], d + 1)
            self.line(d, ["}"])
        elif k == "alias":
            self.line(d, [s[1].name, ":="] + type_tokens(s[2]), s)
        elif k == "comment":
            self.line(d, [s[1]], s)
        elif k == "raw":
            self.raw_lines.add(len(self.lines))
            self.line(d, list(s[1]), s)
        else:
            raise AssertionError(k)


def type_tokens(text):
    out = []
    if Alt.show_bad and isinstance(text, AltText):
        text = text.bad
    while text.startswith("&"):
        out.append("&")
        text = text[1:]
    return out + [text]


def render(stmts):
    p = Printer()
    p.block(stmts, 0)
    return "".join("\t" * d + join_tokens(t) + "\n" for d, t in p.lines)


# ---- interpreter

class Cell:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


def hexu(v):
    return "%x" % (v & ((1 << 64) - 1))


def float_bits(v):
    if v != v:
        return 0x7ff8000000000000
    return struct.unpack("<Q", struct.pack("<d", v))[0]


def show(tag, type, v):
    if type == "Int":
        return "%s %s" % (tag, hexu(v))
    if type == "Float":
        return "%s %x" % (tag, float_bits(v))
    if type == "Bool":
        return "%s %d" % (tag, 1 if v else 0)
    if type == "Rune":
        return "%s %x" % (tag, v)
    if type == "Str":
        b = v.encode("utf-8")
        b = b.split(b"\0")[0]
        return "%s %s" % (tag, "".join("%x." % c for c in b))
    raise AssertionError(type)


def check_i64(v):
    if v < I64_MIN or v > I64_MAX:
        raise Undefined("int overflow")
    return v


def binop(op, t, a, b):
    """Value of `a op b`, both of type t."""
    if op == "is" or op == "isnt":
        if t == "Str":
            r = a.split("\0")[0] == b.split("\0")[0]
        else:
            r = a == b
        return r if op == "is" else not r
    if op == "and":
        return a and b
    if op == "or":
        return a or b
    if op == "xor":
        return a != b
    if op == "<":
        return a < b
    if op == ">":
        return a > b
    if op == "<=":
        return a <= b
    if op == ">=":
        return a >= b
    if t == "Int":
        if op == "+":
            return check_i64(a + b)
        if op == "-":
            return check_i64(a - b)
        if op == "*":
            return check_i64(a * b)
        if op == "/":
            if b == 0:
                raise Undefined("division by zero")
            q = abs(a) // abs(b)
            return check_i64(q if (a < 0) == (b < 0) else -q)
        if op == "mod":
            if b == 0:
                raise Undefined("division by zero")
            if b == -1 and a == I64_MIN:
                raise Undefined("overflow")
            r = abs(a) % abs(b)
            return r if a >= 0 else -r
        if op == "^":
            if b < 0 or b > 4000:
                raise Undefined("exponent")
            if abs(a) > 1 and b > 64:
                raise Undefined("int overflow")
            return check_i64(a ** b)
        if op == "<<":
            if b < 0 or b > 63:
                raise Undefined("shift")
            v = (a << b) & ((1 << 64) - 1)
            return v - (1 << 64) if v >> 63 else v
        if op == ">>":
            if b < 0 or b > 63:
                raise Undefined("shift")
            v = (a & ((1 << 64) - 1)) >> b
            return v - (1 << 64) if v >> 63 else v
    if t == "Float":
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if b == 0:
                if a == 0 or a != a:
                    return math.nan
                neg = math.copysign(1, a) * math.copysign(1, b) < 0
                return -math.inf if neg else math.inf
            return a / b
        if op == "mod":
            return _libm.fmod(a, b)
        if op == "^":
            return _libm.pow(a, b)
    raise AssertionError((op, t))


class Interp:
    def __init__(self, max_steps=4000, max_obs=400, max_depth=60):
        self.out = []
        self.globals = {}
        self.steps = 0
        self.max_steps, self.max_obs, self.max_depth = max_steps, max_obs, max_depth
        self.depth = 0
        self.stats = {}
        self.trace_expr = None

    def run(self, program):
        """Returns (lines observed, exit code)."""
        frame = self.globals
        try:
            self.block(program, frame)
            code = 0
        except _Return as r:
            code = r.v if r.v is not None else 0
        return self.out, code & 0xFF

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undefined("too many steps")

    def cell(self, sym, frame):
        c = frame.get(sym.uid)
        if c is None:
            c = self.globals.get(sym.uid)
        if c is None:
            # a variable which is used before its definition ran (function called early)
            raise Undefined("uninitialised")
        return c

    def block(self, stmts, frame):
        for s in stmts:
            self.stmt(s, frame)

    def stmt(self, s, f):
        self.tick()
        k = s[0]
        if k == "def":
            v = self.ev(s[2], f)
            # a fresh definition; references to an earlier iteration's variable are not kept by generated programs
            if s[1].uid in f:
                f[s[1].uid].v = v
            else:
                f[s[1].uid] = Cell(v)
        elif k == "set":
            v = self.ev(s[2], f)
            self.cell(s[1].sym, f).v = v
        elif k == "if":
            for cond, block in s[1]:
                if self.ev(cond, f):
                    self.block(block, f)
                    return
            if s[2] is not None:
                self.block(s[2], f)
        elif k == "while":
            while self.ev(s[1], f):
                self.tick()
                try:
                    self.block(s[2], f)
                except _Break:
                    break
                except _Continue:
                    continue
        elif k == "break":
            raise _Break()
        elif k == "continue":
            raise _Continue()
        elif k == "return":
            raise _Return(self.ev(s[1], f) if s[1] is not None else None)
        elif k == "call":
            self.ev(s[1], f)
        elif k == "ns":
            self.block(s[2], f)
        elif k == "alt":
            self.block(s[1], f)
        elif k == "unreachable":
            raise Undefined("unreachable")
        elif k in ("func", "ext", "alias", "comment", "noop"):
            pass
        else:
            raise AssertionError(k)

    def ev(self, e, f):
        t = type(e)
        if t is Lit:
            return e.value
        if t is Var:
            return self.cell(e.sym, f).v
        if t is Bin:
            a = self.ev(e.l, f)
            b = self.ev(e.r, f)
            return binop(e.op, e.l.type, a, b)
        if t is Un:
            v = self.ev(e.e, f)
            if e.op == "not":
                return not v
            return check_i64(-v) if e.type == "Int" else -v
        if t is Paren:
            return self.ev(e.e, f)
        if t is Alt:
            return self.ev(e.good, f)
        if t is Ref:
            return self.cell(e.var.sym, f)
        if t is Deref:
            return self.cell(e.var.sym, f).v.v
        if t is Call:
            args = [self.ev(a, f) for a in e.args]
            return self.call(e.sym, args)
        raise AssertionError(e)

    def call(self, sym, args):
        self.tick()
        if sym.callback is not None:
            return self.call(sym.callback, args)
        if sym.external:
            kind, _, ty = sym.name.partition("_")
            ty = ty.capitalize()
            if kind == "obs":
                self.emit(show(ty[0].lower(), ty, args[0]))
                return None
            if kind == "id":
                self.emit(show(ty[0], ty, args[0]))
                return args[0]
            if kind in ("op", "ref"):
                return args[0]
            if kind == "poke":
                args[0].v = args[1]
                return None
            raise AssertionError(sym.name)
        if self.depth >= self.max_depth:
            raise Undefined("recursion too deep")
        self.depth += 1
        frame = {}
        for p, a in zip(sym.params, args):
            frame[p.uid] = Cell(a)
        try:
            self.block(sym.body, frame)
            if sym.ret != "Void":
                raise Undefined("fell off the end")
            r = None
        except _Return as x:
            r = x.v
        finally:
            self.depth -= 1
        return r

    def emit(self, line):
        self.out.append(line)
        if len(self.out) > self.max_obs:
            raise Undefined("too much output")
