"""C07: XPath expressions evaluate as XPath 1.0 prescribes."""
import math
import random
import re
from vf import dgen, rdata, rxpath, util, xgen
from vf.core import Group, safe_str
from vf.gen import Profile

PROPERTY = "C07"
RULE = ("random YANG models with valid documents; grammar-generated XPath expressions of all "
        "axes, operators, predicates and functions, guided by the nodes of the document and "
        "evaluated in random context nodes (also rest on default values); one evaluation = one "
        "expression in one context, compared with an independent XPath evaluator over the data "
        "tree with all in-use defaults; non-trivial unless the result is an empty node set or "
        "string; plus damaged expressions that the reference grammar rejects")
ASSUMPTIONS = ["members of an object have no order: expressions whose value depends on it are "
               "recognised by evaluating the reference on permuted trees, and left out",
               "a boolean leaf counts as 1 or 0 where a number is wanted, sibling axes contain "
               "only entries of the same list, name() gives the instance name and "
               "descendant-or-self::* from the root contains the root, as the tests fix"]


class XN:
    """Node of the reference tree (all in-use defaults are explicit)."""

    def __init__(self, ri, parent):
        self.node, self.val, self.key = ri.node, ri.val, ri.key
        self.parent = parent
        self.kids = [XN(k, self) for k in ri.kids]
        self._path = ri.path() if parent is None else None
        self.rank = 0
        self._s = None

    def xp_parent(self):
        return self.parent

    def xp_children(self):
        return self.kids

    def xp_qn(self):
        return None if self.parent is None else (self.node.ns, self.node.name)

    def xp_string(self):
        if self._s is None:
            self._s = rdata.canon(*self.val) if self.val is not None else \
                "".join(k.xp_string() for k in self.kids)
        return self._s

    def xp_rank(self):
        return self.rank

    def path(self):
        r = []
        n = self
        while n.parent is not None:
            if n.key is not None:
                r.append(n.key)
            r.append(n.node.iname())
            n = n.parent
        return tuple(r[::-1])

    def number(self):
        c = [0]

        def rec(n):
            n.rank = c[0]
            n._s = None
            c[0] += 1
            for k in n.kids:
                rec(k)
        rec(self)

    def permute(self, rng):
        g = {}
        for k in self.kids:
            g.setdefault(id(k.node), []).append(k)
        gs = list(g.values())
        if rng is None:
            gs = gs[1:] + gs[:1]
        else:
            rng.shuffle(gs)
        self.kids = [k for x in gs for k in x]
        for k in self.kids:
            k.permute(rng)

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


def env_of(tm, ns, lib, lib_hooks=None):
    return rdata.env_for(tm, ns, lib)


def norm(v):
    if isinstance(v, list):
        return ("nodes", frozenset(n.path() for n in v))
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, float):
        return ("num", "NaN" if v != v else v)
    return ("str", v)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "num" and isinstance(a[1], float) and isinstance(b[1], float) and \
            math.isfinite(a[1]) and math.isfinite(b[1]):
        return abs(a[1] - b[1]) <= 1e-12 * max(abs(a[1]), abs(b[1]))
    return a[1] == b[1]


def ynorm(v):
    from yangson.nodeset import NodeSet
    if isinstance(v, NodeSet):
        ps = [tuple(n.path) for n in v]
        if len(set(ps)) != len(ps):
            return ("duplicates", tuple(ps))
        return ("nodes", frozenset(ps))
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, float):
        return ("num", "NaN" if v != v else v)
    if isinstance(v, str):
        return ("str", v)
    return ("other", repr(v))


def at(inst, path):
    for s in path:
        inst = inst[s]
    return inst


class Setting:
    """A model, a document and its reference trees."""

    def __init__(self, ctx, rng, prof=None, ndoc=1, **kw):
        self.m, self.dm = util.model(ctx, rng, prof or Profile(
            depth=rng.choice([2, 3]), width=rng.choice([3, 4]), anydata=0, default=0.45,
            leafref=0.12, must=0, when=0.08, statusp=0.0, unique=0.05, **kw))
        self.lib = self.m.lib

    def document(self, ctx, rng):
        lib = self.lib
        dg = dgen.DG(lib, rng, state=True, density=rng.choice([0.4, 0.6, 0.8]), anydata=False)
        r = dg.valid("all")
        if r is None:
            ctx.ev("no valid document found")
            return False
        self.raw = r[0]
        ri = rdata.decode(lib.root, self.raw, lib)
        self.full = rdata.with_defaults(ri)
        self.real = {n.path() for n in ri.walk()}
        fri = rdata.decode(lib.root, self.full, lib)
        self.trees = []
        for i in range(3):
            t = XN(fri, None)
            if i:
                t.permute(rng if i > 1 else None)
            t.number()
            self.trees.append((t, {n.path(): n for n in t.walk()}))
        self.inst = self.dm.from_raw(self.raw)
        self.winst = None
        return True

    def static(self, rng):
        """Random static context."""
        lib = self.lib
        texts = [t for m in lib.mods for t in m.texts()]
        used = [t for t in texts if t.mainmod.implement] or texts
        tm = rng.choice(used)
        ns = tm.main if rng.random() < 0.6 else rng.choice(
            [m.name for m in lib.mods if m.implement])
        return tm, ns

    def sctx(self, tm, ns):
        from yangson.schemadata import SchemaContext
        return SchemaContext(self.dm.schema_data, ns, (tm.name, tm.rev or ""))

    def yinst(self, rng, path):
        """Context node in the instance without or with explicit defaults."""
        if path in self.real and rng.random() < 0.8:
            return at(self.inst, path)
        if self.winst is None:
            self.winst = self.inst.add_defaults()
        return at(self.winst, path)


def ref_eval(st, ast, env, path, cpath=None):
    """Results over all permutations: value, 'order' or 'type error'."""
    out = []
    for t, idx in st.trees:
        env.visits = 0
        try:
            v = norm(rxpath.ev(ast, (idx[path], 1, 1), env, idx[path]))
        except rxpath.XSkip as e:
            return ("skip", str(e))
        except rxpath.XErr:
            v = ("error", "type")
        out.append(v)
        if env.visits > 4000:
            return ("skip", "work")
    if not all(same(o, out[0]) for o in out[1:]):
        return ("skip", "order")
    return out[0]


def ordered(st, ast, env, path, want):
    """Does the value depend on the order of members after all?"""
    rng = random.Random(1)
    for i in range(40):
        t, idx = st.trees[2]
        t.permute(rng)
        t.number()
        if i % 2:       # the order of members isn't the same in all of its uses
            t.permute(rng)
        if not same(ref_eval(st, ast, env, path), want):
            return True
    return False


def parse(text, sctx):
    from yangson.xpathparser import XPathParser
    return XPathParser(text, sctx).parse()


def yeval(expr, inst):
    from yangson.exceptions import XPathTypeError
    try:
        return ynorm(expr.evaluate(inst))
    except XPathTypeError:
        return ("error", "type")


def idents(lib, tm):
    out = []
    for (m, n) in lib.identities:
        for p, mm in tm.prefixes.items():
            if mm.name == m:
                out.append(f"{p}:{n}")
        if m == tm.main:
            out.append(n)
    return out


def gen(st, rng, depth=None):
    """(tokens, text module, namespace, env, context path)"""
    tm, ns = st.static(rng)
    env = rdata.env_for(tm, ns, st.lib)
    t, idx = st.trees[0]
    path = rng.choice(list(idx)) if rng.random() < 0.85 else ()
    cur = idx[path]
    g = xgen.XG(rng, env, cur, idents(st.lib, tm), st.lib)
    d = rng.choice([0, 1, 2, 2, 3]) if depth is None else depth
    toks = g.any(cur, d)
    return toks, tm, ns, env, path


def count(ctx, ast):
    if isinstance(ast, tuple):
        if ast and ast[0] == "call":
            ctx.ev("fn " + ast[1])
        elif ast and ast[0] == "path":
            for ax, test, preds in ast[2]:
                ctx.ev("axis " + ax)
                if preds:
                    ctx.ev("predicates", len(preds))
        elif ast and ast[0] in ("arith", "cmp", "bool", "union", "neg"):
            ctx.ev("op " + (ast[1] if isinstance(ast[1], str) else ast[0]))
    if isinstance(ast, (tuple, list)):
        for x in ast:
            count(ctx, x)


def case(ctx, rng, nexpr=60, ndoc=2):
    st = Setting(ctx, rng)
    for _ in range(ndoc):
        if st.document(ctx, rng):
            for _ in range(nexpr):
                one(ctx, rng, st)


def one(ctx, rng, st):
    toks, tm, ns, env, path = gen(st, rng)
    if len(toks) > 150:
        return
    text = xgen.glue(toks, rng)
    ast = rxpath.P(text).parse()
    want = ref_eval(st, ast, env, path)
    if want[0] == "skip":
        ctx.ev("left out: " + want[1])
        return
    count(ctx, ast)
    det = {"expression": text, "context": "/".join(map(str, path)), "module": tm.name,
           "default namespace": ns, "prefixes": env.prefixes, "document": st.raw,
           "with defaults": st.full, "model": util.model_text(st.lib)}
    expr = parse(text, st.sctx(tm, ns))
    inst = st.yinst(rng, path)
    got = yeval(expr, inst)
    nt = want not in (("nodes", frozenset()), ("str", ""), ("error", "type"))
    ctx.case([text, path, st.raw], nt, {"expression": text, "context": det["context"],
                                        "result": repr(want)[:200]})
    ctx.ev("result " + want[0])
    if want[0] == "nodes":
        ctx.ev("nodes selected", len(want[1]))
        if want[1] - st.real:
            ctx.ev("node sets with default nodes")
    if not same(want, got):
        if ordered(st, ast, env, path, want):
            ctx.ev("left out: order")
        else:
            ctx.fail("wrong-" + want[0], f"{text!r} at /{det['context']}: expected {show(want)}, "
                     f"got {show(got)}", **det)
        return
    if rng.random() < 0.1:
        # the same expression as a boolean condition
        if want[0] in ("nodes", "str"):
            b = bool(want[1])
        elif want[0] == "num":
            b = want[1] not in ("NaN", 0.0)
        else:
            b = want[1]
        if want[0] != "error":
            t2 = "boolean(" + text + ")"
            got2 = yeval(parse(t2, st.sctx(tm, ns)), inst)
            ctx.check(got2 == ("bool", b), "wrong-boolean",
                      lambda: f"{t2!r}: expected {b}, got {got2}", **det)


def show(v):
    if v[0] == "nodes":
        return "{" + ", ".join(sorted("/".join(map(str, p)) for p in v[1])[:12]) + "}"
    return f"{v[0]} {v[1]!r}"


UNSUP = re.compile(r"\b(id|lang|namespace-uri|text|comment|processing-instruction|attribute|"
                   r"following|preceding|namespace)\b|@|\$|:\s*\*|\.\s*\[")


def broken(ctx, rng, nexpr=150):
    from yangson.exceptions import ParserException, UnknownPrefix, YangsonException
    st = Setting(ctx, rng)
    if not st.document(ctx, rng):
        return
    for _ in range(nexpr):
        toks, tm, ns, env, path = gen(st, rng, rng.choice([0, 1, 1, 2]))
        if len(toks) > 60:
            continue
        toks = xgen.mutate(toks, rng)
        text = xgen.glue(toks, rng)
        if rng.random() < 0.15:
            i = rng.randrange(len(text) + 1)
            text = text[:i] + rng.choice(["", " ", ")", "\\", "é", "\u0662", "\u00a0", "\x0c", "\u0301", "!", "\x00", ";", "'", "."]) + \
                text[i + rng.choice([0, 0, 1]):]
        if UNSUP.search(text):
            continue
        try:
            rp = rxpath.P(text)
            ast = rp.parse()
        except rxpath.XSyn as e:
            ast = None
            why = str(e)
        except RecursionError:
            continue
        det = {"expression": text, "module": tm.name, "default namespace": ns,
               "prefixes": env.prefixes, "document": st.raw, "model": util.model_text(st.lib)}
        pfs = set(re.findall(r"([A-Za-z_][\w.-]*):(?=[A-Za-z_])",
                             re.sub(r"'[^']*'|\"[^\"]*\"", "''", text)))
        if ast is None:
            try:
                e = parse(text, st.sctx(tm, ns))
            except (ParserException, UnknownPrefix) as x:
                ctx.ev("rejected with " + type(x).__name__)
                ctx.case([text], True, {"rejected": text})
                continue
            ctx.case([text], True)
            ctx.fail("accepted", f"{text!r} is not an XPath expression ({why}), read as {e}", **det)
            continue
        if pfs - set(env.prefixes):
            try:
                parse(text, st.sctx(tm, ns))
            except YangsonException as x:
                ctx.ev("unknown prefix")
                ctx.case([text], True)
                continue
            ctx.fail("unknown-prefix", f"{text!r} has an unknown prefix", **det)
            continue
        want = ref_eval(st, ast, env, path)
        if want[0] == "skip":
            continue
        try:
            expr = parse(text, st.sctx(tm, ns))
        except YangsonException as x:
            if rp.odd:
                continue        # a literal or number followed by steps or predicates
            ctx.fail("refused", f"{text!r} refused: {safe_str(x)}", **det)
            continue
        ctx.case([text, path, st.raw], True)
        ctx.ev("still an expression")
        got = yeval(expr, st.yinst(rng, path))
        if not same(want, got) and not ordered(st, ast, env, path, want):
            ctx.fail("wrong-" + want[0], f"{text!r} at /{'/'.join(map(str, path))}: "
                     f"expected {show(want)}, got {show(got)}", **det)


GROUPS = [Group("eval", case, 1600, 12000), Group("broken", broken, 300, 3000)]
REQUIRE = {"result nodes": 12000, "result bool": 6000, "result num": 6000, "result str": 4000}
