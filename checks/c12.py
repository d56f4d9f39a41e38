"""C interoperability: generated C on the other side of externals and exports, compiled by the real cc."""
import os

from .common import *

ID = "C12"
BUDGET = 45
RULE = ("externals: at least one call of a generated C function with 2 or more parameters; exports: at least 2 calls from C or exported "
        "constants read (distinct sources are counted)")
ASSUMPTIONS = ["the C side uses the types of Skull.h, and one byte that is 0 or 1 for Bool", "x86-64, the installed cc"]

LIBC = ["puts", "malloc", "free", "write", "exit", "printf", "abs", "main", "strlen", "pow", "fmod", "memcpy", "memset", "strcmp", "stdout", "environ",
        "read", "open", "init", "time", "start", "x", "y", "helper", "value", "obs", "f", "n", "a", "b", "count"]
PROTO = ("#include \"skull/Skull.h\"\nvoid obs_int(int64_t); void obs_float(double); void obs_rune(uint32_t); void obs_str(const char *);\n"
         "extern void exit(int);\n")


def c_lit(t, v):
    if t == "Int":
        return "(SkullInt)0x%xull" % (v & ((1 << 64) - 1))
    if t == "Float":
        if v != v:
            return "__builtin_nan(\"\")"
        if v in (math.inf, -math.inf):
            return ("-" if v < 0 else "") + "__builtin_inf()"
        return v.hex()
    if t == "Bool":
        return "1" if v else "0"
    if t == "Rune":
        return "0x%xu" % v
    return '(char[]){' + "".join("(char)%d," % b for b in v.encode("utf-8").split(b"\0")[0]) + "0}"


def c_obs(t, e):
    """C that observes `e`; a Bool as the byte that it is."""
    return "obs_%s(%s);" % ("int" if t == "Bool" else t.lower(), "(unsigned char)(%s)" % e if t == "Bool" else e)


def model_obs(t, v):
    return show("i", "Int", 1 if v else 0) if t == "Bool" else show(t[0].lower(), t, v)


class XInterp(Interp):
    def call(self, sym, args):
        if sym.callback is not None:
            self.stats["xcalls"] = self.stats.get("xcalls", 0) + 1
        if sym.external and sym.quiet_external is not None:
            self.tick()
            number, ret = sym.quiet_external
            self.emit("i %x" % number)
            for p, a in zip(sym.params, args):
                t = p.type
                while t.startswith("&"):
                    t, a = t[1:], a.v
                self.emit(model_obs(t, a))
            self.stats["xcalls"] = self.stats.get("xcalls", 0) + (len(args) >= 2)
            return args[ret] if isinstance(ret, int) else ret.value if ret is not None else None
        return Interp.call(self, sym, args)


class XGen(Gen):
    """Programs which call generated C functions."""

    def start(self):
        d = self.d
        self.xs = []
        for i in range(d.range(1, 4)):
            name = self.fresh()
            ret = d.pick(("Void",) + BASIC)
            sym = Sym("func", name, external=True, ret=ret, params=[])
            for j in range(d.weighted([(4, 0), (8, 1), (8, 2), (8, 4), (8, 7), (8, 10), (4, 14), (1, 24), (1, 40), (1, 70), (1, 135)])):
                t = d.pick(BASIC)
                if d.bool(0.08):
                    t = "&" + t
                sym.params.append(Sym("var", "p%d" % j, type=t))
            same = [j for j, p in enumerate(sym.params) if p.type == ret]
            sym.quiet_external = (i + 1000, None if ret == "Void" else d.pick(same) if same else self.lit(ret))
            self.externals[name] = sym
            self.xs.append(sym)

    def funcs(self, type):
        xs = [(s, s.name) for s in self.xs if s.ret == type]
        return xs * 3 if xs else Gen.funcs(self, type)

    def observe(self, t=None):
        if t is None and self.d.bool(0.6):
            s = self.d.pick(self.xs)
            try:
                return ("call", self.full_call(s, s.name))
            except Reject:
                pass
        return Gen.observe(self, t)


def c_function(sym):
    if sym.callback is not None:
        return c_callback(sym)
    number, ret = sym.quiet_external
    s = "%s %s(%s) {\n\tobs_int(%d);\n" % (ctype(sym.ret), sym.name, ", ".join("%s a%d" % (ctype(p.type), j) for j, p in enumerate(sym.params)) or "void", number)
    for j, p in enumerate(sym.params):
        t = p.type.lstrip("&")
        s += "\t" + c_obs(t, "*" * (len(p.type) - len(t)) + "a%d" % j) + "\n"
    if isinstance(ret, int):
        s += "\treturn a%d;\n" % ret
    elif ret is not None:
        lit = c_lit(ret.type, ret.value)
        if ret.type == "Str":
            s += "\tstatic char text[] = %s;\n\treturn text;\n" % lit.replace("(char[])", "")
        else:
            s += "\treturn %s;\n" % lit
    return s + "}\n"


FLAGS = [(), (), ("-O1",), ("-O2",), ("-O3",), ("-g",), ("-O2", "-g")]
CFLAGS = ["-O0", "-O0", "-O1", "-O2"]


def src_dir(box):
    return os.path.join(box.top, "src")


class Externals(Test):
    name = "externals"
    fast_link = False

    def generate(self, d):
        names = [n for n in NAMES if n not in ("n", "k")]
        exports = d.bool(0.4)
        g = XGen(d, Opts(size=d.range(6, 14) if exports else d.range(1, 10), depth=2, poke=2, names=names, func_export=0.9 if exports else 0, var_export=0, if_depth=2))
        g.start()
        stmts = g.program()
        back = add_callbacks(g, stmts)
        if stmts[-1][0] != "return":
            for x in g.xs:
                if d.bool(0.8):
                    try:
                        c = g.full_call(x, x.name)
                    except Reject:
                        continue
                    t = x.ret
                    stmts.append(("call", c if t == "Void" else Call(g.ext("obs_" + t.lower()), [c])))
            have = {id(s[1]) for s in stmts if s[0] == "ext"}
            stmts = [("ext", s) for s in g.externals.values() if id(s) not in have] + stmts
        it = XInterp()
        out, code = it.run(stmts)
        c = PROTO + "".join(c_function(s) for s in g.xs + back)
        return Prog(stmts, c=c, out=out, code=code, calls=it.stats.get("xcalls", 0), flags=d.pick(FLAGS), cflags=d.pick(CFLAGS))

    def check(self, case):
        box = self.box
        box.put("side.c", case.c)
        box.put("p.sk", case.src)
        box.drop("p")
        c = box.skull("p.sk", "-q", *case.flags, "--", "-w", "-no-pie", case.cflags, "-fno-builtin", "-I" + src_dir(box), "side.c", box.obs, timeout=30)
        r = box.exe("p") if c.ok and box.has("p") else None
        compare_run(c, r, case.out, case.code)

    def describe(self, case):
        return "flags %s, cc %s\n%s\n---- side.c ----\n%s" % (case.flags, case.cflags, case.src, case.c)

    def nontrivial(self, case):
        return case.src if case.calls else None


class Module:
    pass


def word(d, chars, lo, hi):
    return "".join(d.pick(chars) for _ in range(d.range(lo, hi)))


class Exports(Test):
    """Several modules, one C program that initialises them, calls their exported functions in some order and reads their constants."""
    name = "exports"
    fast_link = False

    def generate(self, d):
        mods = []
        names = d.pick([NAMES, LIBC])
        count = d.weighted([(3, 1), (2, 2), (1, 3)])
        for i in range(count):
            m = Module()
            # the name in C, the module, and the directory the file is in
            m.name = ["m", "other", "x1"][i]
            m.module = d.weighted([(5, m.name), (1, "zq" + word(d, "abcXYZ01_", 1, 3) + "%d" % i), (2, ".".join(word(d, "abcskxo", 1, 3) for _ in range(d.range(2, 3))) + "%d" % i),
                                   (1, "%s.%s" % (m.name, d.pick(["sk", "o", "c", "sk.sk"]))), (1, "zq" + word(d, "abcdefgh_", 30, 90) + "%d" % i)])
            m.dir = d.weighted([(3, ""), (1, "./"), (2, "sub/"), (1, "su.b/dir/"), (1, "sub/../")])
            g = Gen(d, Opts(size=d.range(5, 16), depth=2, if_depth=2, names=names, func_export=0.8, var_export=0.5, mut_ratio=0.3,
                            param_counts=[(3, 0), (9, 1), (9, 2), (6, 4), (6, 8), (3, 12), (1, 20), (1, 36), (1, 66)], early_return=False))
            m.stmts = g.program()
            m.src = render(m.stmts)
            m.funcs = [s[1] for s in m.stmts if s[0] == "func" and s[1].export and not any(p.type.startswith("&") for p in s[1].params)]
            m.vars = [s[1] for s in m.stmts if s[0] == "def" and s[1].export]
            m.it = Interp()
            m.it.max_steps = 8000
            mods.append(m)
        out, decl, body = [], "", ""
        events = 0
        for m in mods:
            base = len(m.it.out)
            _, code = m.it.run(m.stmts)
            out += m.it.out[base:]
            body += "\tobs_int(init_%s() & 255);\n" % m.name
            out.append("i %x" % code)
            # the macro of the header is the documented way; this is what it expands to
            decl += "int64_t init_%s(void) __asm__(\".%s\");\n" % (m.name, m.module)
            for f in m.funcs:
                decl += "extern %s %s_%s(%s) __asm__(\"%s.%s\");\n" % (ctype(f.ret), m.name, f.name, ", ".join(ctype(p.type) for p in f.params) or "void", m.module, f.name)
            for v in m.vars:
                decl += "extern %s %s_%s __asm__(\"%s.%s\");\n" % (ctype(v.type), m.name, v.name, m.module, v.name)
        macro = d.bool(0.5) and not any("." in m.module for m in mods)
        if macro:
            body, out = "", []
            for m in mods:
                m.it = Interp()
                body += "\t{ SKULL_INIT_MODULE(%s) }\n" % m.module
                m.it.run(m.stmts)
                out += m.it.out
        g = Gen(d, Opts())
        for _ in range(d.range(1, 8)):
            m = d.pick(mods)
            things = m.funcs + m.vars
            if not things:
                continue
            s = d.pick(things)
            events += 1
            if s.kind == "func":
                args = []
                for i, p in enumerate(s.params):
                    args.append(g.lit(p.type).value if not (i == 0 and s.pure == "rec") else d.range(0, 5))
                if any(isinstance(a, str) and "\0" in a for a in args):
                    raise Reject()
                base = len(m.it.out)
                v = m.it.call(s, args)
                out += m.it.out[base:]
                call = "%s_%s(%s)" % (m.name, s.name, ", ".join(c_lit(p.type, a) for p, a in zip(s.params, args)))
                if s.ret == "Void":
                    body += "\t%s;\n" % call
                else:
                    body += "\t" + c_obs(s.ret, call) + "\n"
                    out.append(model_obs(s.ret, v))
            else:
                body += "\t" + c_obs(s.type, "%s_%s" % (m.name, s.name)) + "\n"
                out.append(model_obs(s.type, m.it.cell(s, {}).v))
        # C functions which have the names of private things
        private = sorted({s[1].name for m in mods for s in m.stmts if s[0] in ("func", "def") and not s[1].export} - set(LIBC) - {"a", "b", "x", "y"})
        extra = "".join("int %s(void) { return 7; }\n" % n for n in private if d.bool(0.5))
        c = PROTO + decl + extra + "int main(void) {\n%s\treturn 0;\n}\n" % body
        return Prog(None, "", mods=mods, c=c, out=out, events=events, flags=[d.pick(FLAGS) for _ in mods], cflags=d.pick(CFLAGS))

    def check(self, case):
        box = self.box
        box.drop("prog")
        objs = []
        for m, fl in zip(case.mods, case.flags):
            os.makedirs(os.path.join(box.work, "sub"), exist_ok=True)
            os.makedirs(os.path.join(box.work, m.dir), exist_ok=True)
            file = m.dir + m.module + ".sk"
            box.put(file, m.src)
            obj = m.dir + ".%s.sk.o" % m.module
            box.drop(obj)
            c = box.skull(file, "-q", "-c", *fl)
            if not c.ok or not box.has(obj):
                raise Failure("rejected", "a valid module was not compiled: %s" % c.brief())
            objs.append(obj)
        box.put("driver.c", case.c)
        c = box.call(["/usr/bin/cc", "-w", case.cflags, "-fno-builtin", "-I" + src_dir(box), "driver.c", *objs, box.obs, "-no-pie", "-lm", "-o", "prog"], timeout=30)
        if not c.ok:
            raise Failure("link", "the modules do not link with the C program: %s" % c.brief())
        r = box.exe("prog")
        compare_run(c, r, case.out, 0, "program")

    def describe(self, case):
        return "".join("---- %s%s.sk %s\n%s" % (m.dir, m.module, f, m.src) for m, f in zip(case.mods, case.flags)) + "---- driver.c (cc %s)\n%s" % (case.cflags, case.c)

    def nontrivial(self, case):
        return self.describe(case) if case.events >= 2 else None


TESTS = [Externals, Exports]
