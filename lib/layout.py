"""Random layouts of a program: same tokens, other white space, comments and line breaks. Records where tokens end up."""
from .lang import Alt, Printer

DELIM = set("{}(),&*")
SOLO = ("noop", "break", "continue", "unreachable")
COMMENT_TEXT = ["x", "word", "é", "中文", "😀", "\"", "'", "it's", "{", "}", "(", ")", "if x {", "return 1", ":=", "\\", "\\\"", ",", "&", "*", "a := 1", "1", "==",
                "\t", "noop", "##", "#", "\u00a0", "}}", "\"open", "else {", "// c", "%s"]


WIDE = [200, 200, 200, 400, 900, 1000, 2000, 4000, 4096, 8100, 16300, 32700, 65500]


class Style:
    """How wild a layout is."""

    def __init__(self, d, plain=False):
        self.d = d
        on = (lambda p: d.bool(p)) if not plain else (lambda p: False)
        self.indent = d.pick(["\t", "    ", "", " \t", "\t\t "]) if not plain else "\t"
        self.spaces = on(0.5)
        self.blanks = on(0.5)
        self.comments = on(0.5)
        self.joins = on(0.4)
        self.crlf = on(0.1)
        self.final = not on(0.3)
        self.parens = on(0.3)
        self.far = on(0.08)
        self.wide = len(WIDE)


def comment_text(d, block):
    words = [d.pick(COMMENT_TEXT) for _ in range(d.below(5))]
    s = " ".join(words)
    if block:
        s = s.replace("#{", "# {").replace("#}", "# }")
        if d.bool(0.2):
            s = s.replace(" ", "\n")
            if "#\n" in s or "\n" in s:
                s = s.replace("#{", "").replace("#}", "")
    return s


def line_comment(d):
    return "#" + d.pick([" ", "\t", "  "]) + comment_text(d, False)


def block_comment(d):
    t = comment_text(d, True)
    return "#{" + d.pick([" ", "", "\n", "\t"]) + t + d.pick([" ", "", "\n"]) + "#}"


def space(d, need):
    if not d.bool(0.6):
        return " " if need else d.pick(["", " "])
    return d.pick([" ", "  ", "\t", " \t ", "    "]) if need else d.pick(["", "", " ", "  ", "\t"])


def needs_newline(tokens, raw):
    """Must a line break follow this line?"""
    if raw:
        return True
    if tokens[-1] == "{" or tokens == ["}"] or tokens[0] in SOLO:
        return False
    return True


def definition(tokens):
    return tokens[0] in ("external", "mut", "export") or ":=" in tokens or (tokens[0].endswith(":") and tokens[-1] != "{")


class Out:
    def __init__(self):
        self.parts = []
        self.line, self.col = 1, 1

    def put(self, s):
        self.parts.append(s)
        for c in s:
            if c == "\n":
                self.line += 1
                self.col = 1
            else:
                self.col += 1

    def pos(self):
        return self.line, self.col

    def text(self):
        return "".join(self.parts)


class Laid:
    def __init__(self, text, marks, starts, ends, stmt_line, where, lines):
        self.text, self.marks, self.starts, self.ends, self.stmt_line = text, marks, starts, ends, stmt_line
        self.where, self.lines = where, lines   # positions of the tokens of each printed line; the tokens

    def line_of(self, stmt):
        return self.starts[self.stmt_line[id(stmt)]][0]


def lay_out(d, stmts, style=None, bad=False):
    """Renders `stmts` in a random layout. Returns Laid: text, marks (name -> (line, column)), starts (index -> (line, column))."""
    saved = Alt.show_bad
    Alt.show_bad = bad
    try:
        p = Printer()
        p.block(stmts, 0)
    finally:
        Alt.show_bad = saved
    st = style or Style(d)
    out = Out()
    marks, starts, ends, where = {}, [], [], []
    nl = "\r\n" if st.crlf else "\n"
    joined = False
    if st.blanks and d.bool(0.3):
        out.put(nl * d.range(1, 3))
    if st.far:
        out.put(nl * d.pick([0, 0, 250, 300, 66000]))
    for n, (depth, tokens) in enumerate(p.lines):
        raw = n in p.raw_lines
        special = any(getattr(t, "mark", None) for t in tokens) or raw
        if not joined:
            if st.comments and d.bool(0.2):
                out.put(st.indent * d.below(3) + (line_comment(d) if d.bool(0.6) else block_comment(d)) + nl)
            if st.blanks and d.bool(0.2):
                out.put(d.pick(["", " ", "\t", "  "]) + nl)
            out.put(st.indent * (depth if not d.bool(0.05) else d.below(4)) if st.spaces else st.indent * depth)
        if st.comments and d.bool(0.08) and tokens[0] not in ("{",):
            out.put(block_comment(d) + d.pick([" ", "", "\t"]))
        if st.far and not joined and d.bool(0.3):
            out.put(d.pick([" ", "\t"]) * (d.pick(WIDE[:st.wide]) + d.range(0, 200)))
        prev = None
        for i, t in enumerate(tokens):
            if i:
                need = not (prev[-1] in DELIM or t[0] in DELIM)
                if prev[0] in "\"'" or t[0] in "\"'":
                    need = prev[-1] not in DELIM and t[0] not in DELIM
                if st.far and (need or st.spaces) and d.bool(0.05):
                    out.put(" " * (d.pick(WIDE[:st.wide]) + d.range(0, 200)))
                elif st.spaces:
                    out.put(space(d, need))
                elif need or default_space(prev, t):
                    out.put(" ")
            else:
                starts.append(out.pos())
                where.append([])
            where[-1].append(out.pos())
            m = getattr(t, "mark", None)
            if m:
                marks[m] = out.pos()
            if i == len(tokens) - 1:
                ends.append(out.pos())
            out.put(t)
            prev = t
        last = n == len(p.lines) - 1
        nxt = None if last else p.lines[n + 1][1]
        nxt_special = False if last else (n + 1 in p.raw_lines)
        # a comment at the end of the line
        tail_ok = not special and not definition(tokens) and not is_comment(tokens)
        if st.comments and tail_ok and d.bool(0.12):
            if d.bool() and not tokens[-1] == ")":
                out.put(" " + block_comment(d))
            else:
                out.put(d.pick([" ", "  ", "\t", ""]) + line_comment(d))
                out.put(nl)
                joined = False
                continue
        joined = False
        if last:
            if st.final or tokens[0] == "external" or special or is_comment(tokens):
                out.put(nl)
                if st.spaces and d.bool(0.2):
                    out.put(d.pick([" ", "\t", "  " + nl, nl + "\t"]))
            elif d.bool(0.3):
                out.put(d.pick([" ", "\t", "   "]))
        elif st.joins and not special and not nxt_special and not is_comment(tokens) and not is_comment(nxt) and d.bool(0.5) and (
                not needs_newline(tokens, raw) or (nxt == ["}"] and not definition(tokens))):
            out.put(" " if tokens[0] in SOLO and nxt[0][0] not in DELIM else d.pick([" ", "  ", ""]))
            joined = True
        else:
            if st.spaces and d.bool(0.1):
                out.put(d.pick([" ", "\t"]))
            out.put(nl)
    return Laid(out.text(), marks, starts, ends, p.stmt_line, where, [t for _, t in p.lines])


def is_comment(tokens):
    return tokens[0].startswith("#")


def default_space(prev, t):
    if prev in ("(", "&", "*") or t in (")", ",", "("):
        return False
    return True
