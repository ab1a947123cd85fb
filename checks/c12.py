"""C12: the YANG parser reads every text as RFC 7950 prescribes."""
import glob
import os
import re
import sys
from vf import core, yparse
from vf.core import Group, safe_str

PROPERTY = "C12"
RULE = ("random statement trees rendered in random layouts (quoting styles, concatenation, comments, line ends, "
        "multi-line strings with indentation), and texts made from them and from the YANG modules of the repository "
        "by deleting, inserting, replacing, doubling, swapping and cutting off characters and tokens; "
        "yangson.statement.ModuleParser and an independent parser read each text; one evaluation = one "
        "text; non-trivial = text with at least one substatement or with a fault; distinct = distinct texts")
ASSUMPTIONS = ["vf/yparse.py expresses sections 6.1-6.3 and 14 of RFC 7950; texts whose meaning the RFC leaves open or "
               "makes dependent on the YANG version (quotes in unquoted strings, tabs before a multi-line string, "
               "characters outside the YANG character set) are observed for documented exceptions only",
               "statements are nested at most 200 levels deep"]

KWS = ["container", "leaf", "description", "revision", "revision", "module", "x", "_a", "a.b-c", "type", "must", "if-feature",
       "module", "submodule", "N9", "contact", "error-app-tag", "error-message"]
PREFS = ["p", "ext", "_p.q-r", "module", "X"]
WORDS = ["a", "abc", "p:q", "/x:y/z", "../a = 'b'", 'say "hi"', "\\", "\\n", "\\\\", "tail ", " head", "\t", "\n", "\n  in", "\n\n",
         "x\ny", "x \ny", "x\t\n\tz", "\r\n", "a\r\nb", "//", "/*", "*/", "/", "*", "+", "' + '", ";", "{", "}", "1..max", "é", "ž",
         "\U0001f600", "\u2028", "\u00a0", "\ufeff", "0", "-", "[0-9]+", "\\d{2}", "true", "\x85", " ", "   ", "'", '"', "\u202e",
         "\U0010fffd", "e\u0301", "urn:x", "2020-01-01"]


def gen_arg(rng):
    r = rng.random()
    if r < 0.12:
        return None
    if r < 0.4:
        return rng.choice(["a", "b1", "foo:bar", "2001-01-01", "1..10", "/a/b", "é", "a+b", "+", "-1", "x/y", "*", "a*b/", "\\n", "a\\"])
    if r < 0.45:
        return ""
    return "".join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 2, 3, 5, 9])))


def gen_tree(rng, depth, width):
    subs = []
    if depth > 0:
        subs = [gen_tree(rng, depth - 1, width) for _ in range(rng.randrange(width + 1))]
    pref = rng.choice(PREFS) if rng.random() < 0.2 else None
    return (pref, rng.choice(KWS), gen_arg(rng), tuple(subs))


class Out:
    """Text being written, with the column of its end."""

    def __init__(self, rng, style):
        self.rng, self.style, self.parts, self.line = rng, style, [], ""

    def put(self, s):
        self.parts.append(s)
        i = s.rfind("\n")
        self.line = s[i + 1:] if i >= 0 else self.line + s

    def text(self):
        return "".join(self.parts)

    def sep(self, need):
        rng = self.rng
        if self.style == "plain":
            self.put(rng.choice([" ", "\n", "  "]) if need or rng.random() < 0.3 else "")
            return
        n = rng.choice([0, 0, 1, 1, 2, 4]) if not need else rng.choice([1, 1, 1, 2, 4])
        for _ in range(n):
            self.put(rng.choice([" ", "  ", "\n", "\n    ", "\r\n", "\t", "//\n", "// x ; { \" '\n", "/**/", "/***/", "/* * / // */",
                                 "/* ' \" } */", "/*\n*\n*/", "//*\n", "/*/ */", "// é\r\n", "/* \U0001f600 **/", "    ", "\n\n"]))


def render(out, t, rng):
    pref, kw, arg, subs = t
    out.put((pref + ":" if pref else "") + kw)
    if arg is None:
        out.sep(False)
    else:
        out.sep(True)
        render_arg(out, arg, rng)
        out.sep(False)
    if subs or rng.random() < 0.2:
        out.put("{")
        out.sep(False)
        for s in subs:
            render(out, s, rng)
            out.sep(False)
        out.put("}")
    else:
        out.put(";")


UNQ_BAD = re.compile(r"[\s;{}'\"]|//|/\*|\*/")


def render_arg(out, arg, rng):
    plain = arg and not any(c in " \t\r\n;{}'\"" for c in arg) and "//" not in arg and "/*" not in arg and "*/" not in arg
    if plain and rng.random() < 0.5:
        out.put(arg)
        return
    n = rng.choice([1, 1, 1, 2, 3, 6])
    cuts = sorted(rng.randrange(len(arg) + 1) for _ in range(n - 1))
    pieces = [arg[a:b] for a, b in zip([0] + cuts, cuts + [len(arg)])]
    for i, p in enumerate(pieces):
        if i:
            out.sep(False)
            out.put("+")
            out.sep(False)
        if "'" not in p and rng.random() < 0.4:
            out.put("'" + p + "'")
        else:
            dquoted(out, p, rng)


def dquoted(out, p, rng):
    before = out.line
    out.put('"')
    col = len(before) + 1
    if "\t" in before:
        col = None
    res = []
    i = 0
    while i < len(p):
        c = p[i]
        if c in '"\\':
            res.append("\\" + c)
        elif c == "\t" and rng.random() < 0.5:
            res.append("\\t")
        elif c == "\n":
            prev = p[i - 1] if i else ""
            nxt = p[i + 1] if i + 1 < len(p) else ""
            crlf = prev == "\r" and i > 1 and p[i - 2] in " \t"
            if col is None or crlf or prev in (" ", "\t") and res[-1] != "\\t" or rng.random() < 0.4:
                res.append("\\n")
            else:
                if prev != "\r" and rng.random() < 0.3:
                    res.append(rng.choice([" ", "\t", "   ", " \t "]))
                res.append("\n")
                if nxt in (" ", "\t") and nxt:
                    res.append(indent(rng, col))
                else:
                    res.append(indent(rng, rng.randrange(col + 1)) if rng.random() < 0.7 else indent(rng, col))
        else:
            res.append(c)
        i += 1
    out.put("".join(res))
    out.put('"')


def indent(rng, n):
    """White space n columns wide."""
    if n >= 8 and rng.random() < 0.3:
        k = rng.randrange(1, n // 8 + 1)
        return "\t" * k + " " * (n - 8 * k)
    return " " * n


def real(text, rev):
    from yangson.statement import ModuleParser
    return ModuleParser(text, None, rev).parse()


def same(ctx, st, ref, sup, path="/"):
    ok = ((st.prefix, st.keyword, st.argument, len(st.substatements)) == (ref.pref, ref.kw, ref.arg, len(ref.subs)))
    if not ok:
        return (f"at {path}: parser {(st.prefix, st.keyword, st.argument, len(st.substatements))!r}, "
                f"expected {(ref.pref, ref.kw, ref.arg, len(ref.subs))!r}")
    if st.superstmt is not sup:
        return f"at {path}: superstatement is {safe_str(st.superstmt)}, not {safe_str(sup)}"
    for i, (s, r) in enumerate(zip(st.substatements, ref.subs)):
        d = same(ctx, s, r, st, f"{path}{i}:{r.kw}/")
        if d:
            return d
    return None


def judge(ctx, text, what, want=None):
    from yangson import exceptions as ye
    try:
        ref, ev = yparse.parse(text)
        fault = None
    except yparse.Fault as f:
        ref, fault = None, f
    except yparse.Open:
        ctx.ev("texts left open")
        try:
            real(text, "")
        except (ye.EndOfInput, ye.UnexpectedInput, ye.InvalidArgument, ye.ModuleRevisionMismatch) as e:
            str(e)
        return
    if fault is None:
        for k, n in ev.items():
            ctx.ev(k, n)
        if want is not None and ref.tup() != want:
            raise core.Inconclusive(f"reference reads {ref.tup()!r} instead of {want!r} from {text!r}")
        ctx.case(text, bool(ref.subs), what + ": " + text[:500])
        ctx.ev("texts accepted")
        rev = max([s.arg or "" for s in ref.subs if s.kw == "revision" and s.pref is None], default="")
        try:
            st = real(text, rev)
        except ye.YangsonException as e:
            ctx.fail("rejected:" + type(e).__name__, f"{what}: conforming text rejected: {safe_str(e)[-300:]}", text=text)
            return
        d = same(ctx, st, ref, None)
        ctx.check(d is None, "tree", f"{what}: {d}", text=text)
        find(ctx, st, ref, text)
        return
    ctx.case(text, True, what + ": " + text[:500])
    ctx.ev("texts rejected: " + fault.kind)
    rev = ""
    for _ in range(2):
        try:
            st = real(text, rev)
            ctx.fail("accepted", f"{what}: text with a fault ({fault}) accepted", text=text)
        except ye.ModuleRevisionMismatch as e:
            rev = e.found
            continue
        except (ye.EndOfInput, ye.UnexpectedInput) as e:
            msg = str(e)
            p = e.parser
            if fault.kind == "escape":
                ctx.fail("escape", f"{what}: {type(e).__name__} {msg[-200:]} instead of InvalidArgument", text=text)
                return
            ctx.check(fault.lo <= p.offset <= fault.hi and p.input == text, "position",
                      f"{what}: {type(e).__name__} at {p.offset}, {fault}", text=text)
            line = text.count("\n", 0, p.offset) + 1
            col = p.offset - (text.rfind("\n", 0, p.offset) + 1)
            ctx.check(p.line_column() == (line, col), "line-column",
                      f"{what}: offset {p.offset}: {p.line_column()}, not {(line, col)}", text=text)
            if "\n" in text:
                ctx.check(msg.startswith(f"line {line}, column {col}"), "message",
                          f"{what}: message {msg[:100]!r} for line {line}, column {col}", text=text)
            else:
                ctx.check(msg.startswith(text[:p.offset] + "§" + text[p.offset:]), "message",
                          f"{what}: message {msg[:100]!r} for offset {p.offset}", text=text)
            if isinstance(e, ye.EndOfInput):
                ctx.check(fault.kind == "end", "end-of-input", f"{what}: EndOfInput at {p.offset}, {fault}", text=text)
            ctx.ev("positions compared")
        except ye.InvalidArgument as e:
            str(e)
            ctx.check(fault.kind == "escape", "escape", f"{what}: InvalidArgument, {fault}", text=text)
        return
    ctx.fail("revision", f"{what}: two different revisions reported", text=text)


def find(ctx, st, ref, text):
    """Statement.find1 and find_all against the reference."""
    for r in ref.subs[:6]:
        ctx.ev("lookups of substatements")
        want = [i for i, x in enumerate(ref.subs) if (x.pref, x.kw) == (r.pref, r.kw)]
        got = st.find_all(r.kw, r.pref)
        ctx.check(len(got) == len(want) and all(g is st.substatements[i] for g, i in zip(got, want)), "find_all",
                  f"find_all({r.kw!r}, {r.pref!r})", text=text)
        ctx.check(st.find1(r.kw, pref=r.pref) is st.substatements[want[0]], "find1", f"find1({r.kw!r}, {r.pref!r})", text=text)
        if r.arg is not None:
            w = next(i for i in want if ref.subs[i].arg == r.arg)
            ctx.check(st.find1(r.kw, r.arg, r.pref) is st.substatements[w], "find1",
                      f"find1({r.kw!r}, {r.arg!r}, {r.pref!r})", text=text)


TOK = re.compile(r"\"(?:\\.|[^\"\\])*\"|'[^']*'|//[^\n]*|/\*.*?\*/|\s+|[;{}+]|[^\s;{}'\"]+|.", re.S)
INS = list(";{}+'\"\\/*: \n\t\ra0-_.é") + ["//", "/*", "*/", "\r", "\r\n", '"a"', "'b'", " + ", "\\x", "x:y ", "module x;", "};",
                                           "\x00", "\ufffe", "x:"]


def mutate(text, rng):
    for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
        r = rng.random()
        if not text:
            return rng.choice(INS)
        i = rng.randrange(len(text))
        if r < 0.2:
            text = text[:i] + text[i + 1:]
        elif r < 0.4:
            text = text[:i] + rng.choice(INS) + text[i:]
        elif r < 0.5:
            text = text[:i] + rng.choice(INS) + text[i + 1:]
        elif r < 0.56:
            text = text[:i]
        elif r < 0.6:
            text = text + rng.choice(INS)
        elif r < 0.64:
            text = text[i:]
        else:
            ts = TOK.findall(text)
            k = rng.randrange(len(ts))
            q = rng.random()
            if q < 0.4:
                ts[k] = ""
            elif q < 0.6:
                ts[k] = rng.choice(INS)
            elif q < 0.8:
                ts.insert(k, ts[rng.randrange(len(ts))])
            else:
                j = rng.randrange(len(ts))
                ts[k], ts[j] = ts[j], ts[k]
            text = "".join(ts)
    return text


def gen_text(rng, depth=None):
    t = gen_tree(rng, rng.choice([0, 1, 2, 3, 3]) if depth is None else depth, rng.choice([1, 2, 4]))
    t = (None, rng.choice(["module", "submodule"]), "m" if rng.random() < 0.8 else gen_arg(rng), t[3])
    out = Out(rng, rng.choice(["plain", "wild", "wild"]))
    out.sep(False)
    render(out, t, rng)
    out.sep(False)
    return out.text() + rng.choice(["", "", "\n", "// end", "/* end */"]), t


def trees(ctx, rng):
    for _ in range(10):
        text, t = gen_text(rng)
        judge(ctx, text, "generated", t)


def faults(ctx, rng):
    for _ in range(6):
        text, _ = gen_text(rng)
        for _ in range(5):
            judge(ctx, mutate(text, rng), "changed")


FILES = []


def library(ctx, rng):
    if not FILES:
        for f in sorted(glob.glob(os.path.join(core.REPO, "**", "*.yang"), recursive=True)):
            with open(f, encoding="utf-8") as s:
                FILES.append(s.read())
        if not FILES:
            raise core.Inconclusive("no YANG modules")
    text = rng.choice(FILES)
    judge(ctx, text, "file")
    if rng.random() < 0.5:
        text = text.replace("\n", "\r\n")
        judge(ctx, text, "file with CRLF")
    for _ in range(4):
        judge(ctx, mutate(text, rng), "changed file")


def soup(ctx, rng):
    """Short texts made of tokens."""
    toks = ["module", "m", "x", "p:", ":", "{", "}", ";", "+", '"a"', "'b'", '""', "''", '"a\n  b"', " ", " ", "\n", "//c\n", "/*c*/", "//", "/",
            '"', "'", "\\", "\r", "\r\n", "submodule", "*", "é", '"\\n"', '"\\q"', "a+b"]
    for _ in range(25):
        head = rng.choice(["", "module m {", "module m{x ", "module ", "module m;"])
        text = head + "".join(rng.choice(toks) for _ in range(rng.randrange(1, 9)))
        if rng.random() < 0.5:
            text += rng.choice([";}", "}", ";"])
        judge(ctx, text, "tokens")


def big(ctx, rng):
    """Long texts: deep nesting, many parts, many escapes."""
    k = rng.randrange(4)
    out = Out(rng, "wild")
    if k == 0:
        t = (None, "x", gen_arg(rng), ())
        for _ in range(rng.randrange(50, 190)):
            t = (None, rng.choice(KWS), gen_arg(rng), (t,))
        t = (None, "module", "m", (t,))
    elif k == 1:
        t = (None, "module", "m", ((None, "x", "".join(rng.choice('"\\\n\tab') for _ in range(rng.randrange(2000, 6000))), ()),))
    elif k == 2:
        n = rng.randrange(1200, 3000)
        text = "module m { x " + (rng.choice([" + ", "+", "\n+\n"])).join(rng.choice(['"a"', "'b'", '""', '"\\n"']) for _ in range(n)) + "; }"
        ctx.ev("long concatenations")
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(1000)         # the default
        try:
            judge(ctx, text, "many parts")
            judge(ctx, text.replace("+", ",", 1), "many parts")
        finally:
            sys.setrecursionlimit(old)
        return
    else:
        t = (None, "module", "m", tuple(gen_tree(rng, 0, 0) for _ in range(rng.randrange(300, 900))))
    render(out, t, rng)
    judge(ctx, out.text(), "big", t)
    judge(ctx, mutate(out.text(), rng), "big, changed")


GROUPS = [Group("trees", trees, 1500, 30000), Group("faults", faults, 1600, 30000), Group("soup", soup, 1200, 20000),
          Group("library", library, 120, 2000), Group("big", big, 100, 1500)]
REQUIRE = {"texts accepted": 5000, "texts rejected: unexpected": 3500, "texts rejected: end": 1000, "texts rejected: escape": 30,
           "multi-line strings": 1000, "indentation removed": 800, "trailing spaces removed": 200, "tabs in indentation": 50,
           "concatenations": 2000, "strings with escapes": 1500, "line comments": 3000, "block comments": 3000,
           "extension statements": 2000, "lookups of substatements": 8000, "long concatenations": 5}
