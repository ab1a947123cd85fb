"""Reference XPath 1.0 evaluator with the YANG 1.1 functions.

Works on any node type offering: .xp_parent(), .xp_children(), .xp_qn() (ns,
local) or None for the root, .xp_string(), .xp_rank() (document order key).
Values: float, str, bool, list (node set, document order).
"""
import math
import re

NAME = r"[A-Za-z_][A-Za-z0-9_.\-]*"
TOK = re.compile(
    r"[ \t\r\n]*(?:(?P<num>[0-9]+(?:\.[0-9]*)?|\.[0-9]+)|(?P<lit>\"[^\"]*\"|'[^']*')|"
    r"(?P<op>::|//|\.\.|!=|<=|>=|[()\[\].@,/|+\-=<>*$])|"
    r"(?P<name>" + NAME + r"(?::(?!:)(?:" + NAME + r"|\*))?))")
AXES = {"ancestor", "ancestor-or-self", "child", "descendant",
        "descendant-or-self", "following-sibling", "parent",
        "preceding-sibling", "self"}


class XErr(Exception):
    """Type error (or, as XSyn, syntax error)."""


class XSyn(XErr):
    pass


class XSkip(XErr):
    """The value is not prescribed."""


ARITY = {"position": (0, 0), "last": (0, 0), "count": (1, 1), "true": (0, 0),
         "false": (0, 0), "not": (1, 1), "boolean": (1, 1), "string": (0, 1),
         "number": (0, 1), "concat": (2, 99), "starts-with": (2, 2),
         "contains": (2, 2), "substring-before": (2, 2),
         "substring-after": (2, 2), "substring": (2, 3),
         "string-length": (0, 1), "normalize-space": (0, 1),
         "translate": (3, 3), "sum": (1, 1), "floor": (1, 1),
         "ceiling": (1, 1), "round": (1, 1), "local-name": (0, 1),
         "name": (0, 1), "current": (0, 0), "deref": (1, 1),
         "derived-from": (2, 2), "derived-from-or-self": (2, 2),
         "enum-value": (1, 1), "bit-is-set": (2, 2), "re-match": (2, 2)}


def tokenize(s):
    out = []
    i = 0
    s = s.rstrip(" \t\r\n")
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise XSyn("token at " + s[i:])
        i = m.end()
        k = m.lastgroup
        v = m.group(k)
        if k == "name" or (k == "op" and v == "*"):
            prev = out[-1] if out else None
            opctx = prev is not None and not (
                prev[0] == "oper" or (prev[0] == "op" and prev[1] in
                                      ("::", "@", "(", "[", ",", "/", "//", "|",
                                       "+", "-", "=", "!=", "<", "<=", ">", ">=")))
            if opctx:
                if v in ("and", "or", "div", "mod", "*"):
                    out.append(("oper", v))
                    continue
                raise XSyn("operator expected: " + s)
        out.append((k, v))
    return out


class P:
    def __init__(self, text):
        self.t = tokenize(text)
        self.i = 0

    def pk(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def op(self, *vs):
        k, v = self.pk()
        if k in ("op", "oper") and v in vs:
            self.i += 1
            return v
        return None

    def need(self, v):
        if self.op(v) is None:
            raise XSyn(f"expected {v} got {self.pk()}")

    def parse(self):
        e = self.orx()
        if self.i != len(self.t):
            raise XSyn("trailing tokens")
        return e

    def binl(self, sub, ops, kind):
        e = sub()
        while True:
            o = self.op(*ops)
            if o is None:
                return e
            e = (kind, o, e, sub())

    def orx(self):
        return self.binl(self.andx, ("or",), "bool")

    def andx(self):
        return self.binl(self.eqx, ("and",), "bool")

    def eqx(self):
        return self.binl(self.relx, ("=", "!="), "cmp")

    def relx(self):
        return self.binl(self.addx, ("<", "<=", ">", ">="), "cmp")

    def addx(self):
        return self.binl(self.mulx, ("+", "-"), "arith")

    def mulx(self):
        e = self.unary()
        while True:
            k, v = self.pk()
            if k == "oper" and v in ("*", "div", "mod"):
                self.i += 1
                e = ("arith", v, e, self.unary())
            else:
                return e

    def unary(self):
        n = 0
        while self.op("-"):
            n += 1
        e = self.union()
        for _ in range(n):
            e = ("neg", e)
        return e

    def union(self):
        return self.binl(self.pathx, ("|",), "union")

    def pathx(self):
        k, v = self.pk()
        if k in ("num", "lit") or (k == "op" and v == "(") or \
                (k == "name" and self.pk(1) == ("op", "(") and
                 v not in ("node", "text", "comment", "processing-instruction")):
            e = self.filt()
            while True:
                o = self.op("/", "//")
                if o is None:
                    return e
                steps = []
                if o == "//":
                    steps.append(("descendant-or-self", None, []))
                steps.append(self.step())
                e = ("path", e, steps)
        return self.loc()

    def filt(self):
        k, v = self.pk()
        self.i += 1
        if k == "num":
            e = ("num", float(v))
        elif k == "lit":
            e = ("lit", v[1:-1])
        elif v == "(":
            e = self.orx()
            self.need(")")
            e = ("paren", e)
        else:
            self.need("(")
            args = []
            if not self.op(")"):
                args.append(self.orx())
                while self.op(","):
                    args.append(self.orx())
                self.need(")")
            lo, hi = ARITY.get(v, (0, -1))
            if not lo <= len(args) <= hi:
                raise XSyn("function " + v)
            e = ("call", v, args)
        preds = self.preds()
        if e[0] in ("num", "lit") and (preds or self.pk()[1] in ("/", "//")):
            self.odd = True       # can only be a type error
        if preds:
            e = ("filter", e, preds)
        return e

    odd = False

    def preds(self):
        r = []
        while self.op("["):
            r.append(self.orx())
            self.need("]")
        return r

    def loc(self):
        steps = []
        start = ("ctx",)
        if self.op("/"):
            start = ("root",)
            k, v = self.pk()
            if not (k == "name" or (k in ("op", "oper") and v in (".", "..", "@", "*"))):
                return ("path", start, [])
        elif self.op("//"):
            start = ("root",)
            steps.append(("descendant-or-self", None, []))
        steps.append(self.step())
        while True:
            o = self.op("/", "//")
            if o is None:
                break
            if o == "//":
                steps.append(("descendant-or-self", None, []))
            steps.append(self.step())
        return ("path", start, steps)

    def step(self):
        if self.op("."):
            return ("self", None, [])
        if self.op(".."):
            return ("parent", None, [])
        axis = "child"
        k, v = self.pk()
        if k == "name" and self.pk(1) == ("op", "::"):
            if v not in AXES:
                raise XSyn("axis " + v)
            axis = v
            self.i += 2
            k, v = self.pk()
        if k in ("op", "oper") and v == "*":
            self.i += 1
            test = ("*",)
        elif k == "name":
            self.i += 1
            if v in ("node", "text") and self.op("("):
                self.need(")")
                test = None if v == "node" else ("text",)
            else:
                p, s, n = v.partition(":")
                test = ("name", p if s else None, n if s else p)
        else:
            raise XSyn("step")
        return (axis, test, self.preds())


_cache = {}


def compile_(text):
    e = _cache.get(text)
    if e is None:
        e = _cache[text] = P(text).parse()
    return e


# -- conversions -----------------------------------------------------------

def num2str(f):
    if f != f:
        return "NaN"
    if f in (math.inf, -math.inf):
        return "Infinity" if f > 0 else "-Infinity"
    if f == int(f) and abs(f) < 1e300:
        return str(int(f))
    from decimal import Decimal
    s = format(Decimal(repr(f)), "f")
    return s


def to_str(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        return num2str(v)
    if isinstance(v, str):
        return v
    return v[0].xp_string() if v else ""


def str2num(s):
    s = s.strip(" \t\r\n")
    if re.fullmatch(r"-?([0-9]+(\.[0-9]*)?|\.[0-9]+)", s):
        return float(s)
    return math.nan


def to_num(v):
    if isinstance(v, bool):
        return 1.0 if v else 0.0
    if isinstance(v, float):
        return v
    if isinstance(v, list):
        return node_num(v[0]) if v else math.nan
    return str2num(v)


def to_bool(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, float):
        return not (v == 0 or v != v)
    return len(v) > 0


def compare(op, a, b):
    la, lb = isinstance(a, list), isinstance(b, list)
    if la and lb:
        if op in ("=", "!="):
            f = lambda n: n.xp_string()
        else:
            f = node_num
        ys = [f(y) for y in b]
        return any(_cmp(op, f(x), y) for x in a for y in ys)
    if la or lb:
        ns, o = (a, b) if la else (b, a)
        if isinstance(o, bool):
            x, y = to_bool(ns), o
            return _cmp(op, x, y) if la else _cmp(op, y, x)
        for n in ns:
            s = node_num(n) if isinstance(o, float) or op not in ("=", "!=") \
                else n.xp_string()
            if (_cmp(op, s, o) if la else _cmp(op, o, s)):
                return True
        return False
    return _cmp(op, a, b)


def _cmp(op, a, b):
    if op in ("=", "!="):
        if isinstance(a, bool) or isinstance(b, bool):
            a, b = to_bool(a), to_bool(b)
        elif isinstance(a, float) or isinstance(b, float):
            a, b = to_num(a), to_num(b)
        return (a == b) if op == "=" else (a != b)
    a, b = to_num(a), to_num(b)
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


def xround(f):
    if f != f or f in (math.inf, -math.inf):
        return f
    lo = math.floor(f)
    return math.copysign(lo if f - lo < 0.5 else lo + 1, f)


def node_num(n):
    """Number of a node; a boolean leaf counts as 1 or 0."""
    v = getattr(n, "val", None)
    if v and v[0][0] == "bool":
        return float(v[0][1])
    return str2num(n.xp_string())


def nset(v):
    if not isinstance(v, list):
        raise XErr("node set expected")
    return v


class Env:
    """Static context: prefix -> ns map, default ns, current node, hooks."""

    def __init__(self, prefixes, dflt, hooks=None):
        self.prefixes = prefixes
        self.dflt = dflt
        self.hooks = hooks or {}
        self.stats = {}
        self.visits = 0
        self.patterns = {}
        self.log = None          # nodes selected by steps


def evaluate(expr, node, env):
    ast = compile_(expr) if isinstance(expr, str) else expr
    return ev(ast, (node, 1, 1), env, node)


def docorder(nodes):
    seen = set()
    out = []
    for n in nodes:
        if id(n) not in seen:
            seen.add(id(n))
            out.append(n)
    if len(out) > 1:
        out.sort(key=lambda n: n.xp_rank())
    return out


def axis_nodes(n, axis):
    if axis == "child":
        return list(n.xp_children())
    if axis == "self":
        return [n]
    if axis == "parent":
        p = n.xp_parent()
        return [] if p is None else [p]
    if axis in ("ancestor", "ancestor-or-self"):
        r = [n] if axis == "ancestor-or-self" else []
        p = n.xp_parent()
        while p is not None:
            r.append(p)
            p = p.xp_parent()
        return r
    if axis in ("descendant", "descendant-or-self"):
        r = [n] if axis == "descendant-or-self" else []

        def rec(x):
            for c in x.xp_children():
                r.append(c)
                rec(c)
        rec(n)
        return r
    if axis in ("following-sibling", "preceding-sibling"):
        p = n.xp_parent()
        if p is None:
            return []
        # members have no order, entries of one list have
        if getattr(n, "key", None) is None:
            return []
        sib = [x for x in p.xp_children() if x.node is n.node]
        k = [i for i, s in enumerate(sib) if s is n][0]
        return sib[k + 1:] if axis == "following-sibling" else sib[:k][::-1]
    raise XErr(axis)


def ntest(n, test, env, axis="child"):
    if test is None:
        return True
    qn = n.xp_qn()
    if test[0] == "text":
        return False
    if qn is None:
        return test[0] == "*" and axis == "descendant-or-self"   # as the tests fix
    if test[0] == "*":
        return True
    ns = env.dflt if test[1] is None else env.prefixes[test[1]]
    if test[2] == "*":
        return qn[0] == ns
    return qn == (ns, test[2])


def note(n, axis, test, cand, env):
    """Schema nodes that a step may look at."""
    env.log.extend(c.node for c in cand)
    if axis == "child":
        env.log.extend(c for c in n.node.dchildren() if ntest(_Sch(c), test, env, axis))
    elif axis.startswith("descendant"):
        for c in n.node.walk():
            if c is not n.node:
                env.log.append(c)


class _Sch:
    def __init__(self, c):
        self.c = c

    def xp_qn(self):
        return self.c.ns, self.c.name


def do_steps(nodes, steps, env, cur):
    for axis, test, preds in steps:
        out = []
        for n in nodes:
            cand = [x for x in axis_nodes(n, axis) if ntest(x, test, env, axis)]
            for p in preds:
                cand = do_pred(cand, p, env, cur)
            out.extend(cand)
            env.visits += len(cand) + 1
            if env.log is not None:
                note(n, axis, test, cand, env)
        nodes = docorder(out)
    return nodes


def do_pred(cand, p, env, cur):
    r = []
    size = len(cand)
    for i, x in enumerate(cand):
        v = ev(p, (x, i + 1, size), env, cur)
        if isinstance(v, float):
            ok = v == i + 1
        else:
            ok = to_bool(v)
        if ok:
            r.append(x)
    return r


def ev(e, c, env, cur):
    k = e[0]
    env.stats[k] = env.stats.get(k, 0) + 1
    if k == "num" or k == "lit":
        return e[1]
    if k == "paren":
        return ev(e[1], c, env, cur)
    if k == "bool":
        a = to_bool(ev(e[2], c, env, cur))
        if e[1] == "and":
            return a and to_bool(ev(e[3], c, env, cur))
        return a or to_bool(ev(e[3], c, env, cur))
    if k == "cmp":
        return compare(e[1], ev(e[2], c, env, cur), ev(e[3], c, env, cur))
    if k == "neg":
        return -to_num(ev(e[1], c, env, cur))
    if k == "arith":
        a = to_num(ev(e[2], c, env, cur))
        b = to_num(ev(e[3], c, env, cur))
        o = e[1]
        if o == "+":
            return a + b
        if o == "-":
            return a - b
        if o == "*":
            return a * b
        if o == "div":
            if b == 0:
                if a == 0 or a != a:
                    return math.nan
                neg = (a < 0) != (math.copysign(1, b) < 0)
                return -math.inf if neg else math.inf
            return a / b
        if b == 0 or a in (math.inf, -math.inf) or a != a or b != b:
            return math.nan
        if b in (math.inf, -math.inf):
            return a
        return math.fmod(a, b)
    if k == "union":
        a, b = ev(e[2], c, env, cur), ev(e[3], c, env, cur)
        if not (isinstance(a, list) and isinstance(b, list)):
            raise XErr("union of non node sets")
        return docorder(a + b)
    if k == "path":
        st = e[1]
        if st[0] == "ctx":
            nodes = [c[0]]
        elif st[0] == "root":
            n = c[0]
            while n.xp_parent() is not None:
                n = n.xp_parent()
            nodes = [n]
        else:
            nodes = ev(st, c, env, cur)
            if not isinstance(nodes, list):
                raise XErr("path on non node set")
        return do_steps(nodes, e[2], env, cur)
    if k == "filter":
        nodes = ev(e[1], c, env, cur)
        if not isinstance(nodes, list):
            raise XErr("predicate on non node set")
        for p in e[2]:
            nodes = do_pred(nodes, p, env, cur)
        return nodes
    if k == "call":
        env.stats["fn:" + e[1]] = env.stats.get("fn:" + e[1], 0) + 1
        return call(e[1], e[2], c, env, cur)
    raise XErr(k)


def call(f, args, c, env, cur):
    def a(i):
        v = ev(args[i], c, env, cur)
        if env.log is not None and f in env.hooks and isinstance(v, list):
            env.log.extend(x.node for x in v)
        return v

    def s(i):
        return to_str(a(i))

    def ctxs():
        return [c[0]]
    n = len(args)
    if f == "position":
        return float(c[1])
    if f == "last":
        return float(c[2])
    if f == "count":
        return float(len(nset(a(0))))
    if f == "true":
        return True
    if f == "false":
        return False
    if f == "not":
        return not to_bool(a(0))
    if f == "boolean":
        return to_bool(a(0))
    if f == "string":
        return to_str(a(0) if n else ctxs())
    if f == "number":
        return to_num(a(0) if n else ctxs())
    if f == "concat":
        return "".join(s(i) for i in range(n))
    if f == "starts-with":
        return s(0).startswith(s(1))
    if f == "contains":
        return s(1) in s(0)
    if f == "substring-before":
        x, y = s(0), s(1)
        return x[:x.find(y)] if y in x else ""
    if f == "substring-after":
        x, y = s(0), s(1)
        return x[x.find(y) + len(y):] if y in x else ""
    if f == "substring":
        x = s(0)
        st = xround(to_num(a(1)))
        ln = xround(to_num(a(2))) if n > 2 else None
        out = []
        for i, ch in enumerate(x):
            p = i + 1
            if p >= st and (ln is None or p < st + ln):
                out.append(ch)
        return "".join(out)
    if f == "string-length":
        return float(len(s(0) if n else to_str(ctxs())))
    if f == "normalize-space":
        return " ".join(re.findall(r"[^ \t\r\n]+", s(0) if n else to_str(ctxs())))
    if f == "translate":
        x, fr, to = s(0), s(1), s(2)
        m = {}
        for i, ch in enumerate(fr):
            if ch not in m:
                m[ch] = to[i] if i < len(to) else ""
        return "".join(m.get(ch, ch) for ch in x)
    if f == "sum":
        return float(sum(node_num(x) for x in nset(a(0))))
    if f in ("floor", "ceiling"):
        v = to_num(a(0))
        if v != v or v in (math.inf, -math.inf):
            return v
        return math.copysign(math.floor(v) if f == "floor" else math.ceil(v), v)
    if f == "round":
        return xround(to_num(a(0)))
    if f in ("local-name", "name"):
        ns = nset(a(0)) if n else ctxs()
        if not ns or ns[0].xp_qn() is None:
            return ""
        return ns[0].node.iname() if f == "name" else ns[0].xp_qn()[1]
    if f == "current":
        return [cur]
    h = env.hooks.get(f)
    if h is None:
        raise XErr("function " + f)
    v = [a(i) for i in range(n)]
    if f != "re-match":
        nset(v[0])
    return h(v, c, env)
