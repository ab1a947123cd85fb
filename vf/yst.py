"""YANG statements: a tiny AST, a renderer with varied layout and an
independent parser (RFC 7950 section 6), used as the reference."""

UNQ_BAD = set(" \t\r\n;{}'\"")


class S:
    __slots__ = ("kw", "arg", "subs", "parent", "cfgtrue")

    def __init__(self, kw, arg=None, *subs):
        self.kw = kw
        self.arg = arg
        self.subs = []
        self.parent = None
        for s in subs:
            self.add(s)

    def add(self, s):
        if s is None:
            return self
        if isinstance(s, (list, tuple)):
            for x in s:
                self.add(x)
            return self
        s.parent = self
        self.subs.append(s)
        return s

    def all(self, *kws):
        return [s for s in self.subs if s.kw in kws]

    def one(self, kw):
        for s in self.subs:
            if s.kw == kw:
                return s
        return None

    def val(self, kw, dflt=None):
        s = self.one(kw)
        return dflt if s is None else s.arg

    def copy(self):
        r = S(self.kw, self.arg)
        for s in self.subs:
            r.add(s.copy())
        return r

    def walk(self):
        yield self
        for s in self.subs:
            yield from s.walk()

    def tup(self):
        return (self.kw, self.arg, tuple(s.tup() for s in self.subs))

    def __repr__(self):
        return f"<{self.kw} {self.arg!r} {len(self.subs)}>"


def dq(arg):
    out = []
    for c in arg:
        if c == "\\":
            out.append("\\\\")
        elif c == '"':
            out.append('\\"')
        elif c == "\n":
            out.append("\\n")
        elif c == "\t":
            out.append("\\t")
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


def unquotable(arg):
    return bool(arg) and not (set(arg) & UNQ_BAD) and "//" not in arg \
        and "/*" not in arg and "*/" not in arg


def render_arg(arg, rng=None, indent=0):
    if rng is None:
        return arg if unquotable(arg) else dq(arg)
    r = rng.random()
    if r < 0.35 and unquotable(arg):
        return arg
    if r < 0.6 and "'" not in arg:
        return "'" + arg + "'"
    if r < 0.75 and len(arg) > 1:
        k = rng.randrange(0, len(arg) + 1)
        sep = rng.choice([" + ", "\n" + " " * indent + " + ", "+", " /*c*/ + // x\n "])

        def q(p):
            if "'" not in p and rng.random() < 0.5:
                return "'" + p + "'"
            return dq(p)
        return q(arg[:k]) + sep + q(arg[k:])
    return dq(arg)


def render(st, rng=None, ind=0):
    """YANG text of a statement; layout varies when rng is given."""
    out = []
    _render(st, rng, ind, out)
    return "".join(out)


def _render(st, rng, ind, out):
    pad = " " * ind
    out.append(pad + st.kw)
    if st.arg is not None:
        out.append(" " if rng is None or rng.random() < 0.9
                   else rng.choice(["\n" + pad + "  ", "\t", " /* c;{ */ ", " // c }\n  "]))
        out.append(render_arg(st.arg, rng, ind))
    if not st.subs:
        if rng is not None and rng.random() < 0.05:
            out.append(" { }\n")
        else:
            out.append(";\n" if rng is None or rng.random() < 0.95 else " ;\n\n")
        return
    out.append(" {\n" if rng is None or rng.random() < 0.9 else "{ ")
    for s in st.subs:
        if rng is not None and rng.random() < 0.04:
            out.append(rng.choice(["  // \"line\" comment '\n", "/* block ** \n comment // */",
                                   "\n", "\t"]))
        _render(s, rng, ind + 2, out)
    out.append(pad + "}\n")


class YSyntaxError(Exception):
    pass


def parse(text):
    """Independent YANG text parser; returns the top S statement."""
    toks = list(_tokens(text))
    st, i = _stmt(toks, 0)
    if i != len(toks):
        raise YSyntaxError("trailing input")
    return st


def _tokens(t):
    i, n = 0, len(t)
    while i < n:
        c = t[i]
        if c in " \t\r\n":
            i += 1
        elif t.startswith("//", i):
            j = t.find("\n", i)
            i = n if j < 0 else j + 1
        elif t.startswith("/*", i):
            j = t.find("*/", i + 2)
            if j < 0:
                raise YSyntaxError("unterminated comment")
            i = j + 2
        elif c in ";{}":
            yield (c, c)
            i += 1
        elif c == "'":
            j = t.find("'", i + 1)
            if j < 0:
                raise YSyntaxError("unterminated string")
            yield ("q", t[i + 1:j])
            i = j + 1
        elif c == '"':
            ls = t.rfind("\n", 0, i) + 1
            col = 0
            for ch in t[ls:i]:
                col = (col // 8 + 1) * 8 if ch == "\t" else col + 1
            buf = []
            i += 1
            while True:
                if i >= n:
                    raise YSyntaxError("unterminated string")
                ch = t[i]
                if ch == '"':
                    i += 1
                    break
                if ch == "\\":
                    if i + 1 >= n or t[i + 1] not in 'nt"\\':
                        raise YSyntaxError("bad escape")
                    buf.append(("e", {"n": "\n", "t": "\t"}.get(t[i + 1], t[i + 1])))
                    i += 2
                    continue
                buf.append(("c", ch))
                i += 1
            yield ("q", "".join(x for _, x in buf))
        else:
            j = i
            while j < n and t[j] not in " \t\r\n;{}\"'" and \
                    not t.startswith("//", j) and not t.startswith("/*", j):
                j += 1
            yield ("u", t[i:j])
            i = j


def _stmt(toks, i):
    if i >= len(toks) or toks[i][0] != "u":
        raise YSyntaxError("keyword expected")
    st = S(toks[i][1])
    i += 1
    if i < len(toks) and toks[i][0] in "uq":
        kind, arg = toks[i]
        i += 1
        while kind == "q" and i + 1 < len(toks) and toks[i] == ("u", "+") \
                and toks[i + 1][0] == "q":
            arg += toks[i + 1][1]
            i += 2
        st.arg = arg
    if i >= len(toks):
        raise YSyntaxError("unexpected end")
    if toks[i][0] == ";":
        return st, i + 1
    if toks[i][0] == "{":
        i += 1
        while i < len(toks) and toks[i][0] != "}":
            sub, i = _stmt(toks, i)
            st.add(sub)
        if i >= len(toks):
            raise YSyntaxError("missing }")
        return st, i + 1
    raise YSyntaxError("';' or '{' expected")
