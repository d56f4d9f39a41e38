"""Debug information: positions and descriptions in the emitted IR vs what the printer knows."""
import os, re
from collections import Counter

from .c03 import CGen
from .common import *
from lib.layout import Style, lay_out
from lib.aliasing import Aliases

ID = "C16"
BUDGET = 45
RULE = "the program has at least 6 lines and a function, call or assignment (distinct sources are counted)"
ASSUMPTIONS = ["positions are read from the debug metadata in `-E -g` output, or the `#line` directives of the C backend",
               "which helper instructions carry a position is not fixed, only that those that do carry one of the right statement"]

SHAPES = {"Int": ("64", "DW_ATE_signed"), "Float": ("64", "DW_ATE_float")}
MANY = [(1, 0), (2, 3), (2, 6), (2, 7), (2, 9), (1, 13), (1, 20)]
LIST = re.compile(r"^!(\d+) = !\{(.*)\}$")
META = re.compile(r"^!(\d+) = (?:distinct )?!(\w+)\((.*)\)$")
FIELD = re.compile(r'(\w+): ("(?:[^"\\]|\\.)*"|!DIExpression\([^)]*\)|[^,]+)')
DBG = re.compile(r"!dbg !(\d+)\s*$|!dbg !(\d+) \{$")
CALL = re.compile(r'\bcall [^@]*?@("(?:[^"]|\\.)*"|[-\w.$]+)\(')
DEF = re.compile(r'^define [^@]*@("(?:[^"]|\\.)*"|[-\w.$]+)\(')


def unquote(s):
    if s.startswith('"'):
        s = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), s[1:-1])
    return s


def near(d):
    """A layout within the 16 bits that LLVM has for columns."""
    st = Style(d)
    st.wide = 9
    return st


class IR:
    def __init__(self, text):
        self.meta, self.funcs, self.globals, self.lists = {}, [], [], {}
        body = None
        for line in text.split("\n"):
            m = META.match(line)
            if m:
                f = {k: v.strip() for k, v in FIELD.findall(m.group(3))}
                f["kind"] = m.group(2)
                self.meta[m.group(1)] = f
                continue
            m = LIST.match(line)
            if m:
                self.lists[m.group(1)] = [x for x in m.group(2).split(", ") if x]
                continue
            m = DEF.match(line)
            if m:
                d = DBG.search(line)
                body = []
                self.funcs.append((unquote(m.group(1)), d and (d.group(1) or d.group(2)), body))
            elif line == "}":
                body = None
            elif body is not None:
                body.append(line)
            elif line.startswith("@") and "!dbg !" in line:
                self.globals.append(line.rsplit("!dbg !", 1)[1].strip())

    def get(self, ref):
        return self.meta.get(ref.lstrip("!")) if ref else None

    def type_name(self, ref):
        """The name of a type, with a note when its description does not fit."""
        t = self.get(ref)
        if not t or "name" not in t:
            return None
        name = unquote(t["name"])
        base = self.get(t.get("baseType"))
        if name.startswith("&") or name == "Str":
            inner = self.type_name(t.get("baseType")) if name != "Str" else None
            fits = t.get("tag") == "DW_TAG_pointer_type" and t.get("size") == "64" and base is not None and (name == "Str" or inner == name[1:])
        elif name in SHAPES:
            fits = t["kind"] == "DIBasicType" and (t.get("size"), t.get("encoding")) == SHAPES[name]
        else:
            fits = t["kind"] == "DIBasicType"
        return name if fits else "%s described as %s" % (name, sorted(t.items()))

    def signature(self, sub):
        """Names of the result and parameter types of a subprogram."""
        t = self.get(self.get(sub).get("type"))
        types = t and self.lists.get(t.get("types", "").lstrip("!"))
        return None if types is None else [self.type_name(r) if r != "null" else "Void" for r in types]

    def chain(self, ref):
        """Lines of the lexical blocks from the innermost out, and the subprogram."""
        lines = []
        while True:
            m = self.get(ref)
            if m is None or m["kind"] == "DISubprogram":
                return lines, ref and ref.lstrip("!")
            if m["kind"] == "DILexicalBlock":
                lines.append((int(m["line"]), int(m.get("column", 0))))
            ref = m.get("scope")


class Want:
    """What the debug information has to say."""

    def __init__(self, stmts, laid):
        self.laid = laid
        self.calls = {}      # id(call) -> function key
        self.pos = {}        # id(call) -> (line, column)
        self.funcs = []      # (name, line)
        self.globals, self.locals = Counter(), Counter()
        self.sets, self.rets, self.other, self.noops = {}, {}, {}, {}
        self.per_calls = {}
        where = {}
        for n, tokens in enumerate(laid.lines):
            for i, t in enumerate(tokens):
                if isinstance(t, CallTok):
                    where[id(t.call)] = laid.where[n][i]
        self.where = where
        self.main = (".p", 1)
        self.n = 0
        self.block(stmts, self.main, [])

    def line(self):
        """Positions of the tokens of the next printed line."""
        self.n += 1
        return self.laid.where[self.n - 1]

    def ex(self, e, fn):
        t = type(e)
        if t is Bin:
            self.ex(e.l, fn)
            self.ex(e.r, fn)
        elif t in (Un, Paren):
            self.ex(e.e, fn)
        elif t is Call:
            self.per_calls.setdefault(fn, Counter())[(e.sym.uid, *self.where[id(e)])] += 1
            for a in e.args:
                self.ex(a, fn)

    def block(self, stmts, fn, chain):
        # follows the order in which the printer prints
        ended = False
        for s in stmts:
            k = s[0]
            line = self.line()
            if k in ("return", "break", "continue", "unreachable"):
                ended = True
            if k == "def":
                sym = s[1]
                self.ex(s[2], fn)
                pos = line[bool(sym.export) + bool(sym.mut)]
                self.other.setdefault(fn, set()).add(pos)
                if fn == self.main:
                    self.globals[(sym.name, pos[0], sym.type)] += 1
                else:
                    self.locals[(fn, sym.name, pos[0], sym.type, 0, tuple(chain))] += 1
            elif k == "set":
                self.ex(s[2], fn)
                self.sets.setdefault(fn, Counter())[line[0]] += 1
            elif k == "if":
                between = s[3] if len(s) > 3 else {}
                for i, (c, b) in enumerate(s[1]):
                    if i:
                        self.block(between.get(i, ()), fn, chain)
                        line = self.line()
                    self.ex(c, fn)
                    self.block(b, fn, [line[0]] + chain)
                    self.line()
                if s[2] is not None:
                    self.block(between.get("else", ()), fn, chain)
                    line = self.line()
                    self.block(s[2], fn, [line[0]] + chain)
                    self.line()
            elif k == "while":
                self.ex(s[1], fn)
                self.block(s[2], fn, [line[0]] + chain)
                self.line()
            elif k == "return":
                if s[1] is not None:
                    self.ex(s[1], fn)
                self.rets.setdefault(fn, Counter())[line[0]] += 1
            elif k == "call":
                self.ex(s[1], fn)
            elif k == "noop":
                self.other.setdefault(fn, set()).add(line[0])
                if not ended:
                    self.noops.setdefault(fn, set()).add(line[0])
            elif k == "func":
                sym = s[1]
                pos = line[1 if sym.export else 0]
                key = (sym.name, pos[0])
                self.funcs.append((key, sym))
                for i, p in enumerate(sym.params):
                    self.locals[(key, p.name, pos[0], p.type, i + 1, ())] += 1
                self.block(sym.body, key, [])
                self.line()
            elif k == "ns":
                self.block(s[2], fn, [line[0]] + chain)
                self.line()


def diff(what, want, got):
    if want != got:
        raise Failure(what, "%s: missing %s; unexpected %s" % (what, sorted((want - got).elements(), key=repr)[:4], sorted((got - want).elements(), key=repr)[:4]))


class Positions(Test):
    name = "llvm"
    weight = 3

    def generate(self, d):
        g = Gen(d, Opts(size=d.range(1, 22), depth=d.range(0, 2), parens=0.1, types=d.pick([BASIC, BASIC, ("Int", "Bool")]), param_counts=MANY if d.bool(0.2) else None))
        stmts = (Aliases(d) if d.bool(0.1) else g).program()
        laid = lay_out(d, stmts, near(d))
        w = Want(stmts, laid)
        # two functions with one name and line cannot be told apart
        if len({k for k, _ in w.funcs}) != len(w.funcs):
            raise Reject()
        return Prog(stmts, laid.text, want=w, name=d.pick(["p.sk", "./p.sk", "d/p.sk"]), flags=d.pick([(), (), ("-q",)]))

    def check(self, case):
        box, w = self.box, case.want
        os.makedirs(os.path.join(box.work, "d"), exist_ok=True)
        box.put(case.name, case.src)
        r = box.skull(case.name, "-E", "-g", *case.flags)
        if not r.ok:
            raise Failure("rejected", "a valid program does not compile with -g: %s" % r.brief())
        ir = IR(r.out.decode("utf-8", "replace"))
        for f in ir.meta.values():
            if f["kind"] == "DIFile":
                if unquote(f["filename"]) != case.name or unquote(f["directory"]) != os.path.realpath(box.work):
                    raise Failure("file", "the file is %s in %s, not %s in %s" % (f["filename"], f["directory"], case.name, box.work))
        keys, syms = {}, {}
        for name, ref, body in ir.funcs:
            m = ir.get(ref)
            if m is None or m["kind"] != "DISubprogram":
                raise Failure("function", "function @%s has no debug information" % name)
            keys[name] = (unquote(m["name"]), int(m["line"]))
        want = Counter([k for k, _ in w.funcs] + [w.main])
        diff("functions", want, Counter(keys.values()))
        for name, ref, body in ir.funcs:
            sym = next((s for k, s in w.funcs if k == keys[name]), None)
            if sym is not None:
                types = [sym.ret] + [p.type for p in sym.params]
                if ir.signature(ref) != types:
                    raise Failure("signature", "the type of function %s is described as %s, it is %s" % (sym.name, ir.signature(ref), types))
        uid = {k: s.uid for k, s in w.funcs}
        ext = {s[1].name: s[1].uid for s in case.stmts if s[0] == "ext"}
        got_locals = Counter()
        for name, ref, body in ir.funcs:
            key = keys[name]
            calls, stores, rets, seen = Counter(), Counter(), Counter(), set()
            for line in body:
                if line.startswith("    #dbg_"):
                    m = re.match(r"    #dbg_(\w+)\((.*), !(\d+), !DIExpression\(\), !(\d+)\)$", line)
                    if not m:
                        raise Failure("record", "a debug record that is not understood: %s" % line)
                    v = ir.get(m.group(3))
                    chain, top = ir.chain(v["scope"])
                    if top != ref:
                        raise Failure("scope", "variable %s is described in another function" % v["name"])
                    at = (unquote(v["name"]), int(v["line"]), ir.type_name(v["type"]), int(v.get("arg", 0)), tuple(chain))
                    got_locals[(key, *at)] += 1
                    storage = re.match(r"ptr (%[-\w.$]+|%\"[^\"]*\")$", m.group(2))
                    stack = storage and any(x.startswith("  %s = alloca " % storage.group(1)) for x in body)
                    if bool(stack) != (m.group(1) == "declare") and not (stack and at[2].startswith("&")):
                        raise Failure("storage", "%s describes %s as a variable's %s" % (line.strip(), v["name"], "address" if m.group(1) == "declare" else "value"))
                    continue
                d = re.search(r", !dbg !(\d+)$", line)
                loc = ir.get(d.group(1)) if d else None
                pos = (int(loc["line"]), int(loc.get("column", 0))) if loc else None
                if loc:
                    seen.add(pos)
                    chain, top = ir.chain(loc["scope"])
                    if top != ref:
                        raise Failure("scope", "an instruction belongs to another function: %s" % line)
                m = CALL.search(line)
                if m:
                    callee = unquote(m.group(1))
                    u = uid.get(keys[callee]) if callee in keys else ext.get(callee)
                    if u is not None:
                        calls[(u, *(pos or (0, 0)))] += 1
                elif line.startswith("  store "):
                    if pos:
                        stores[pos] += 1
                elif line.startswith("  ret "):
                    rets[pos] += 1
            names = {s.uid: s.name for _, s in w.funcs}
            names.update({u: n for n, u in ext.items()})
            show = lambda c: Counter({(names[k[0]], *k[1:]): n for k, n in c.items()})
            if calls != w.per_calls.get(key, Counter()):
                diff("calls", show(w.per_calls.get(key, Counter())), show(calls))
            sets = w.sets.get(key, Counter())
            if sets - stores:
                raise Failure("assignments", "in %r no store has the position of the assignment at %s" % (key, sorted((sets - stores))))
            for pos in stores:
                if pos not in sets and pos not in w.other.get(key, ()):
                    raise Failure("stores", "in %r a store has the position %r where no assignment or definition is" % (key, pos))
            if w.noops.get(key, set()) - seen:
                raise Failure("noops", "in %r nothing has the position of the noop at %s" % (key, sorted(w.noops[key] - seen)))
            want = w.rets.get(key, Counter())
            if want - rets:
                raise Failure("returns", "in %r no return has the position %s" % (key, sorted(want - rets)))
            if sum(rets.values()) - sum(want.values()) > 1:
                raise Failure("returns", "in %r there are returns at %s, expected %s" % (key, sorted(rets.items(), key=repr), sorted(want)))
        diff("locals", w.locals, got_locals)
        got = Counter()
        for ref in ir.globals:
            e = ir.get(ref)
            v = ir.get(e["var"])
            got[(unquote(v["name"]), int(v["line"]), ir.type_name(v["type"]))] += 1
        diff("globals", w.globals, got)

    def describe(self, case):
        return "# %s\n%s" % (case.name, case.src)

    def nontrivial(self, case):
        w = case.want
        return case.src if case.src.count("\n") >= 6 and (w.funcs or w.per_calls or w.sets) else None


class Modes(Test):
    """-g compiles in every mode, whatever the optimisation."""
    name = "modes"

    def generate(self, d):
        stmts = Gen(d, Opts(size=d.range(1, 20), depth=2, param_counts=MANY if d.bool(0.2) else None)).program()
        laid = lay_out(d, stmts, near(d))
        return Prog(stmts, laid.text, flags=d.pick([("-c",), ("-S",), ("-c", "-O1"), ("-S", "-O2"), ("-c", "-O3"), ("-E", "-O2"), ("-E", "--", "x")][:6]))

    def check(self, case):
        self.box.put("p.sk", case.src)
        r = self.box.skull("p.sk", "-q", "-g", *case.flags)
        if not r.ok or r.err:
            raise Failure("rejected", "a valid program does not compile with -g %s: %s" % (" ".join(case.flags), r.brief()))

    def describe(self, case):
        return "# -g %s\n%s" % (" ".join(case.flags), case.src)

    def nontrivial(self, case):
        return self.describe(case) if case.src.count("\n") >= 6 else None


STRINGS = re.compile(r'"(?:[^"\\]|\\.)*"|' r"'(?:[^'\\]|\\.)*'")


class CLines(Test):
    """#line directives of the C backend: each call is on the line of its statement."""
    name = "c-backend"

    def generate(self, d):
        stmts = CGen(d, Opts(size=d.range(3, 20), depth=2, namespaces=False, nested_funcs=False, rshift_neg=False)).program()
        laid = lay_out(d, stmts, near(d))
        want = Counter()
        for n, tokens in enumerate(laid.lines):
            for t in tokens:
                if isinstance(t, CallTok):
                    want[(str(t), laid.where[n][0][0])] += 1
        defs = Counter()
        found(stmts, lambda s: defs.update([(s[1].name, laid.where[laid.stmt_line[id(s)]][0][0])]))
        return Prog(stmts, laid.text, want=want, defs=defs, names=set(k[0] for k in want) | set(k[0] for k in defs), name=d.pick(["p.sk", "d/p.sk"]))

    def check(self, case):
        box = self.box
        os.makedirs(os.path.join(box.work, "d"), exist_ok=True)
        box.put(case.name, case.src)
        r = box.skull(case.name, "--c-backend", "-g", "-q", "-E")
        if not r.ok:
            raise Failure("rejected", "a valid program does not compile with --c-backend -g: %s" % r.brief())
        if not case.names:
            return
        pat = re.compile(r"\b(%s)\(" % "|".join(sorted(case.names, key=len, reverse=True)))
        got, defs = Counter(), Counter()
        line, file = 0, None
        for text in r.out.decode("utf-8", "replace").split("\n"):
            m = re.match(r'#line (\d+) "(.*)"$', text)
            if m:
                line, file = int(m.group(1)), m.group(2)
                if file != case.name:
                    raise Failure("c-file", "#line names %r, the file is %r" % (file, case.name))
                continue
            bare = STRINGS.sub("''", text)
            calls = pat.findall(bare)
            if text[:1] == "\t":
                got.update((c, line) for c in calls)
            elif calls and bare.endswith("{"):
                defs.update((c, line) for c in calls)
            line += 1
        diff("c-calls", case.want, got)
        diff("c-functions", case.defs, defs)

    def describe(self, case):
        return "# %s\n%s" % (case.name, case.src)

    def nontrivial(self, case):
        return case.src if case.src.count("\n") >= 6 and case.want else None


def found(stmts, fn):
    for s in stmts:
        if s[0] == "func":
            fn(s)
            found(s[1].body, fn)
        elif s[0] == "if":
            for _, b in s[1]:
                found(b, fn)
            found(s[2] or [], fn)
        elif s[0] == "while":
            found(s[2], fn)
        elif s[0] == "ns":
            found(s[2], fn)


TESTS = [Positions, Modes, CLines]
