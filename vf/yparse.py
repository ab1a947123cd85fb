"""Reference parser of the YANG syntax (RFC 7950, sections 6.1-6.3 and 14),
one character at a time.  It says where a text ceases to be the beginning of a
correct one, and leaves open what depends on the YANG version.
"""
import re

IDENT = re.compile("[A-Za-z_][A-Za-z0-9_.-]*")
SEP = " \t\r\n"


class Fault(Exception):
    """Text violating the grammar: the fault is between offsets lo and hi."""

    def __init__(self, kind, lo, hi):
        super().__init__(f"{kind} at {lo}..{hi}")
        self.kind, self.lo, self.hi = kind, lo, hi


class Open(Exception):
    """The RFC doesn't say, or it depends on the YANG version."""


class St:
    __slots__ = ("pref", "kw", "arg", "subs")

    def __init__(self, pref, kw, arg, subs):
        self.pref, self.kw, self.arg, self.subs = pref, kw, arg, subs

    def tup(self):
        return (self.pref, self.kw, self.arg, tuple(s.tup() for s in self.subs))


def bad_char(c):
    o = ord(c)
    return o < 32 and c not in "\t\r\n" or 0xd800 <= o < 0xe000 or 0xfdd0 <= o <= 0xfdef or o & 0xfffe == 0xfffe


class P:
    def __init__(self, text):
        self.t, self.i, self.n = text, 0, len(text)
        self.ev = {}

    def note(self, what):
        self.ev[what] = self.ev.get(what, 0) + 1

    def peek(self):
        return self.t[self.i] if self.i < self.n else ""

    def fault(self, lo, hi=None):
        hi = self.i if hi is None else hi
        raise Fault("end" if hi >= self.n else "unexpected", lo, hi)

    def sep(self):
        """Optional separator; returns its start."""
        start = self.i
        while self.i < self.n:
            c = self.t[self.i]
            if c in " \t\n":
                self.i += 1
            elif c == "\r":
                if not self.t.startswith("\n", self.i + 1):
                    self.fault(start, self.i + 1)
                self.i += 1
            elif self.t.startswith("//", self.i):
                self.note("line comments")
                j = self.t.find("\n", self.i)
                self.i = self.n if j < 0 else j + 1
            elif self.t.startswith("/*", self.i):
                self.note("block comments")
                j = self.t.find("*/", self.i + 2)
                if j < 0:
                    self.fault(start, self.n)
                self.i = j + 2
            elif c == "/" and self.i + 1 == self.n:
                self.fault(start, self.n)
            else:
                break
        return start

    def ident(self, lo):
        m = IDENT.match(self.t, self.i)
        if not m:
            self.fault(lo)
        self.i = m.end()
        return m.group()

    def module(self):
        lo = self.sep()
        start = self.i
        st = self.stmt(lo)
        if st.pref is not None or st.kw not in ("module", "submodule"):
            raise Fault("unexpected", lo, self.i)
        lo = self.sep()
        if self.i < self.n:
            self.fault(lo)
        return st

    def stmt(self, lo):
        pref, kw = None, self.ident(lo)
        if self.peek() == ":":
            self.i += 1
            pref, kw = kw, self.ident(lo)
            self.note("extension statements")
        lo = self.i
        self.sep()
        c = self.peek()
        arg = None
        if c not in (";", "{"):
            if self.i == lo or not c:
                self.fault(lo)
            arg = self.arg(lo)
            c = self.peek()
        self.i += 1
        subs = []
        if c == "{":
            while True:
                lo = self.sep()
                if self.peek() == "}":
                    self.i += 1
                    break
                subs.append(self.stmt(lo))
        return St(pref, kw, arg, subs)

    def arg(self, lo):
        c = self.peek()
        if c not in "'\"":
            return self.unquoted(lo)
        parts = []
        while True:
            parts.append(self.single() if self.peek() == "'" else self.double())
            lo = self.sep()
            c = self.peek()
            if c and c in ";{":
                if len(parts) > 1:
                    self.note("concatenations")
                return "".join(parts)
            if c != "+":
                self.fault(lo)
            self.i += 1
            lo = self.sep()
            c = self.peek()
            if not c or c not in "'\"":
                self.fault(lo)

    def unquoted(self, lo):
        start = self.i
        while self.i < self.n:
            c = self.t[self.i]
            if c in " \t\r\n;{}" or self.t.startswith(("//", "/*"), self.i):
                break
            if c in "'\"" or self.t.startswith("*/", self.i):
                raise Open("quote in an unquoted string")
            self.i += 1
        if self.i == start:
            self.fault(lo)
        res = self.t[start:self.i]
        self.note("unquoted strings")
        end = self.i
        lo = self.i
        self.sep()
        c = self.peek()
        if not c or c not in ";{":
            self.fault(lo)
        return res

    def single(self):
        start = self.i
        j = self.t.find("'", start + 1)
        if j < 0:
            self.fault(start, self.n)
        self.i = j + 1
        self.note("single-quoted strings")
        return self.t[start + 1:j]

    def double(self):
        """Double-quoted string: indentation, trailing spaces and escapes."""
        t, start = self.t, self.i
        self.note("double-quoted strings")
        j = start + 1
        bad = False
        while True:
            if j >= self.n:
                self.fault(start, self.n)
            if t[j] == '"':
                break
            if t[j] == "\\":
                if j + 1 < self.n and t[j + 1] not in 'nt"\\':
                    bad = True
                j += 1
            j += 1
        self.i = j + 1
        if bad:
            raise Fault("escape", start, j + 1)
        raw = t[start + 1:j]
        before = t[t.rfind("\n", 0, start) + 1:start]
        lines = raw.split("\n")
        if len(lines) > 1:
            self.note("multi-line strings")
            col = len(before) + 1       # up to and including the column of the quote
            for k in range(len(lines)):
                if k < len(lines) - 1:
                    cr = lines[k].endswith("\r")
                    ln = lines[k][:-1] if cr else lines[k]
                    s = ln.rstrip(" \t")
                    if s != ln:
                        self.note("trailing spaces removed")
                    lines[k] = s + ("\r" if cr else "")
            for k in range(1, len(lines)):
                ln = lines[k]
                ws = re.match("[ \t]*", ln).group()
                if ws and "\t" in before:
                    raise Open("tabs before a string with indentation")
                w = 0
                m = 0
                while m < len(ws) and w < col:
                    w += 8 if ws[m] == "\t" else 1
                    m += 1
                if m:
                    self.note("indentation removed")
                if "\t" in ws[:m]:
                    self.note("tabs in indentation")
                lines[k] = " " * max(0, w - col) + ln[m:]
        raw = "\n".join(lines)
        out = re.sub(r'\\(.)', lambda x: {"n": "\n", "t": "\t"}.get(x.group(1), x.group(1)), raw, flags=re.S)
        if "\\" in raw:
            self.note("strings with escapes")
        return out


def parse(text):
    """The statement tree of a text, and what was seen in it."""
    p = P(text)
    bad = any(bad_char(c) for c in text)
    try:
        st = p.module()
    except Fault as f:
        if bad:
            raise Open("characters")
        raise
    if bad:
        raise Open("characters")
    return st, p.ev
