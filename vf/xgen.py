"""Generator of XPath expressions, as token lists, guided by the data.

While an expression is put together, the reference evaluator follows the node
sets, so that names, positions and literals are those of nodes that exist.
"""
import re
from . import rxpath, xre
from .rxpath import axis_nodes, do_pred, docorder, ntest

NAMECH = re.compile(r"[A-Za-z0-9_.\-]")
AX = ["child"] * 8 + ["parent", "ancestor", "ancestor-or-self", "descendant",
                      "descendant-or-self", "self", "following-sibling",
                      "preceding-sibling"]
STRINGS = ["", " ", "a", "abc", "true", "false", "0", "1", "-1", "1.0", " 12 ",
           "1e3", "0x10", "1_000", "NaN", "Infinity", "-", ".5", "5.", "+1",
           "-.5", "12abc", "a b  c", "\t x\n y ", "\u00a0x", "áéí", "ab'c", 'q"q',
           "x&y<z>", "or", "div", "\u2003a", "--1", "\u0661", "1\u0662", "\u00a01", "1\u2003", "\x0b1", "\uff11.5"]
NUMS = ["0", "1", "2", "3", "4", "10", "1.5", "2.5", ".5", "5.", "0.0", "100",
        "1000000000000000000000", "0.1", "3.14159", "0.0000001", "12345678.9",
        "0.49999999999999994", "9007199254740993", "2.50"]
FULL = ["child", "parent", "self", "ancestor", "ancestor-or-self", "descendant",
        "descendant-or-self", "following-sibling", "preceding-sibling"]


def glue(toks, rng=None, tight=False):
    """Join tokens; whitespace at random, where it is needed in any case."""
    out = [toks[0]]
    for a, b in zip(toks, toks[1:]):
        need = NAMECH.match(a[-1]) and NAMECH.match(b[0]) and \
            a[0] not in "'\"" and b[0] not in "'\""
        if need:
            out.append(rng.choice([" ", " ", "  ", "\n", "\t"]) if rng else " ")
        elif not tight and rng is not None and rng.random() < 0.25:
            out.append(rng.choice([" ", " ", "\n  ", "\t", "\r\n"]))
        elif rng is None:
            out.append("")
        out.append(b)
    return "".join(out)


def lit(s):
    if "'" in s and '"' in s:
        s = s.replace("'", "")
    return '"' + s + '"' if "'" in s else "'" + s + "'"


class XG:
    def __init__(self, rng, env, cur, idents=(), lib=None):
        self.rng = rng
        self.env = env
        self.cur = cur
        self.idents = idents       # prefixed identity names
        self.pf = {}
        for p, m in env.prefixes.items():
            self.pf.setdefault(m, []).append(p)
        self.budget = 25

    def ch(self, p):
        return self.rng.random() < p

    # -- names ---------------------------------------------------------------
    def name(self, qn):
        ns, n = qn
        ps = self.pf.get(ns, [])
        if ns == self.env.dflt and (not ps or self.ch(0.7)):
            return n
        if not ps:
            return None
        return self.rng.choice(ps) + ":" + n

    # -- node sets -------------------------------------------------------------
    def step(self, nodes, d, first=False):
        """(tokens, resulting nodes) of one step taken from nodes."""
        r = self.rng
        x = r.random()
        if x < 0.06:
            return ["."], list(nodes)
        if x < (0.3 if first else 0.16):
            return [".."], docorder([p for n in nodes for p in axis_nodes(n, "parent")])
        axis = r.choice(AX)
        cand = docorder([c for n in nodes for c in axis_nodes(n, axis)])
        if not cand and self.ch(0.85):
            axis = "parent" if self.ch(0.5) else "ancestor"
            cand = docorder([c for n in nodes for c in axis_nodes(n, axis)])
        test, tt = None, None
        x = r.random()
        if x < 0.72 and cand:
            qn = r.choice(cand).xp_qn()
            if qn is not None:
                t = self.name(qn)
                if t:
                    tt = [t]
        elif x < 0.8:
            t = self.name((self.env.dflt, r.choice(["nope", "or", "div", "n1", "text", "count"])))
            tt = [t] if t else None
        if tt is None:
            tt = ["*"] if self.ch(0.6) else ["node", "(", ")"]
        toks = ([axis, "::"] if axis != "child" or self.ch(0.08) else []) + tt
        preds = []
        test = rxpath.P(" ".join(["child", "::"] + tt)).step()[1]
        groups = [[c for c in axis_nodes(n, axis) if ntest(c, test, self.env, axis)]
                  for n in nodes]
        while d > 0 and len(preds) < 4 and self.ch(
                0.3 if not preds else 0.45 if max(map(len, groups), default=0) > 1 else 0.2):
            g = [x for x in groups if x]
            big = max(map(len, g), default=0)
            if preds and self.ch(0.15):
                pt = list(preds[-1])              # the same predicate again
            elif big > 1 and self.ch(0.35 if preds else 0.12):
                # predicates that depend on what the others left over
                pt = r.choice([["last", "(", ")"], ["position", "(", ")", "=", "last", "(", ")"],
                               ["position", "(", ")", ">", "1"], ["position", "(", ")", "!=", "2"],
                               ["last", "(", ")", "=", str(big)], ["last", "(", ")", "-", "1"],
                               ["position", "(", ")", "<", "last", "(", ")"]])
            else:
                pt = self.pred(r.choice(g) if g else [], d - 1)
            past = rxpath.P(glue(pt)).parse()
            try:
                groups = [do_pred(x, past, self.env, self.cur) for x in groups]
            except rxpath.XErr:
                pass
            preds.append(pt)
            toks += ["["] + pt + ["]"]
        return toks, docorder([x for g in groups for x in g])

    def steps(self, nodes, d, n, first=True):
        toks, nodes = self.step(nodes, d, first)
        for _ in range(n - 1):
            if self.ch(0.1) and len(nodes) < 6:
                toks.append("//")
                nodes = docorder([c for x in nodes for c in axis_nodes(x, "descendant-or-self")])
            else:
                toks.append("/")
            t, nodes = self.step(nodes, d)
            toks += t
        return toks, nodes

    def nodeset(self, c, d):
        r = self.rng
        self.budget -= 1
        x = r.random()
        if d > 0 and self.budget > 0:
            if x < 0.1:
                a, na = self.nodeset(c, d - 1)
                b, nb = self.nodeset(c, d - 1)
                return a + ["|"] + b, docorder(na + nb)
            if x < 0.2:
                a, na = self.nodeset(c, d - 1)
                t = ["("] + a + [")"]
                if self.ch(0.6):
                    p = self.pred(na, d - 1)
                    try:
                        na = do_pred(na, rxpath.P(glue(p)).parse(), self.env, self.cur)
                    except rxpath.XErr:
                        na = []
                    t += ["["] + p + ["]"]
                if self.ch(0.5):
                    deep = self.ch(0.4)
                    if deep:
                        na = docorder([y for z in na for y in axis_nodes(z, "descendant-or-self")])
                    b, na = self.steps(na, d - 1, r.choice([1, 1, 2]), False)
                    t += ["//" if deep else "/"] + b
                return t, na
            if x < 0.25:
                a, na = self.nodeset(c, d - 1)
                lr = [y for y in self.everything() if y.val and y.node.type is not None and
                      y.node.type.base == "leafref"]
                if lr and self.ch(0.7):
                    y = r.choice(lr)
                    t = self.name(y.xp_qn())
                    if t:
                        a, na = ["//", t], None
                h = self.env.hooks["deref"]
                t = ["deref", "("] + a + [")"]
                try:
                    na = rxpath.evaluate(rxpath.P(glue(t)).parse(), c, self.env)
                except rxpath.XErr:
                    na = []
                if self.ch(0.5):
                    b, na = self.steps(na, d - 1, 1, False)
                    t += ["/"] + b
                return t, na
        x = r.random()
        n = r.choice([1, 1, 1, 2, 2, 3, 4])
        if x < 0.5:
            return self.steps([c], d, n)
        top = c
        while top.xp_parent() is not None:
            top = top.xp_parent()
        if x < 0.53:
            return ["/"], [top]
        if x < 0.72:
            t, nodes = self.steps([top], d, n, False)
            return ["/"] + t, nodes
        if x < 0.82:
            t, nodes = self.steps(docorder(axis_nodes(top, "descendant-or-self")), d,
                                  r.choice([1, 1, 2]), False)
            return ["//"] + t, nodes
        if x < 0.9:
            t = ["current", "(", ")"]
            if self.ch(0.4):
                return t, [self.cur]
            b, nodes = self.steps([self.cur], d, n)
            return t + ["/"] + b, nodes
        return ["."], [c]

    def everything(self):
        n = self.cur
        while n.xp_parent() is not None:
            n = n.xp_parent()
        return axis_nodes(n, "descendant")

    # -- predicates --------------------------------------------------------------
    def pred(self, cand, d):
        r = self.rng
        x = r.random()
        self.budget -= 1
        k = max(1, len(cand))
        if x < 0.16:
            return [str(r.randint(1, min(k + 1, 4)))]
        if x < 0.24:
            return ["last", "(", ")"] + r.choice([[], ["-", "1"], ["-", "1"], ["div", "2"]])
        if x < 0.34:
            return ["position", "(", ")", r.choice(["=", "!=", "<", ">", "<=", ">="]),
                    str(r.randint(1, k + 1))]
        if x < 0.38:
            return ["position", "(", ")", "mod", "2", "=", r.choice("01")]
        if not cand:
            return [r.choice(["1", "2.5", "0"])]
        n = r.choice(cand)
        kids = [y for y in axis_nodes(n, "child") if y.val is not None]
        if x < 0.62 and kids:
            y = r.choice(kids)
            t = self.name(y.xp_qn())
            if t:
                return [t] + self.cmpval(y)
        if x < 0.7 and n.val is not None:
            return ["."] + self.cmpval(n)
        if x < 0.82:
            return self.nodeset(n, min(d, 1))[0]
        return self.any(n, min(d, 1))

    def cmpval(self, y):
        r = self.rng
        op = r.choice(["=", "=", "=", "!=", "<", ">", "<=", ">="])
        s = y.xp_string()
        f = rxpath.str2num(s)
        if f == f and self.ch(0.5) and abs(f) < 1e12:
            if self.ch(0.4):
                f += r.choice([-1, 1, 0.5])
            t = rxpath.num2str(f)
            return [op] + (["-", t[1:]] if t[0] == "-" else [t])
        return [op, lit(s if self.ch(0.85) else r.choice(STRINGS))]

    # -- scalars -------------------------------------------------------------------
    def num(self, c, d):
        r = self.rng
        self.budget -= 1
        x = r.random()
        if d <= 0 or self.budget <= 0 or x < 0.2:
            return [r.choice(NUMS)]
        if x < 0.3:
            return ["count", "("] + self.nodeset(c, d - 1)[0] + [")"]
        if x < 0.36:
            return ["sum", "("] + self.nodeset(c, d - 1)[0] + [")"]
        if x < 0.44:
            t = self.any(c, d - 1)
            return ["number", "("] + (t if self.ch(0.85) else []) + [")"]
        if x < 0.49:
            return ["string-length", "("] + (self.str(c, d - 1) if self.ch(0.8) else []) + [")"]
        if x < 0.63:
            return [r.choice(["floor", "ceiling", "round"]), "("] + self.num(c, d - 1) + [")"]
        if x < 0.66:
            return [r.choice(["position", "last"]), "(", ")"]
        if x < 0.69:
            return ["enum-value", "("] + self.typed(c, d, "enum") + [")"]
        if x < 0.76:
            return ["-"] * r.choice([1, 1, 2, 3]) + self.prim(self.num(c, d - 1))
        op = r.choice(["+", "-", "*", "div", "mod"])
        a, b = (self.prim(self.num(c, d - 1) if self.ch(0.8) else self.any(c, d - 1))
                for _ in range(2))
        return a + [op] + b

    def prim(self, t):
        """Operand: parenthesised unless simple, sometimes not even then."""
        if t == ["/"] or "/" in t[-1:]:
            return ["("] + t + [")"]
        if len(t) <= 1 or self.ch(0.35):
            return t
        return ["("] + t + [")"]

    def typed(self, c, d, kind):
        """Node set whose nodes have a value of the given kind."""
        ys = [y for y in self.everything() if y.val and y.val[0][0] == kind]
        if ys and self.ch(0.8):
            y = self.rng.choice(ys)
            t = self.name(y.xp_qn())
            if t:
                x = self.rng.random()
                if x < 0.2:     # together with nodes of other kinds
                    o = self.name(self.rng.choice(self.everything()).xp_qn())
                    if o:
                        return ["//", t, "|", "//", o]
                if x < 0.4:
                    return ["//", "*", "[", t, "]", "/", "*"] if self.ch(0.7) else ["//", "*"]
                return ["//", t]
        return self.nodeset(c, d - 1)[0]

    def str(self, c, d):
        r = self.rng
        self.budget -= 1
        x = r.random()
        if d <= 0 or self.budget <= 0 or x < 0.2:
            ys = [y for y in self.everything() if y.val]
            if ys and self.ch(0.4):
                return [lit(r.choice(ys).xp_string())]
            return [lit(r.choice(STRINGS))]
        if x < 0.38:
            return ["string", "("] + (self.any(c, d - 1) if self.ch(0.85) else []) + [")"]
        if x < 0.48:
            t = ["concat", "("] + self.any(c, d - 1)
            for _ in range(r.choice([1, 1, 2])):
                t += [","] + self.any(c, d - 1)
            return t + [")"]
        if x < 0.6:
            t = ["substring", "("] + self.str(c, d - 1) + [","] + self.smallnum(c, d)
            if self.ch(0.6):
                t += [","] + self.smallnum(c, d)
            return t + [")"]
        if x < 0.7:
            return [r.choice(["substring-before", "substring-after"]), "("] + \
                self.str(c, d - 1) + [","] + self.short(c, d) + [")"]
        if x < 0.76:
            return ["normalize-space", "("] + (self.str(c, d - 1) if self.ch(0.8) else []) + [")"]
        if x < 0.84:
            return ["translate", "("] + self.str(c, d - 1) + [",", lit(r.choice(
                ["abc", "aab", "a", "", "0123456789", "-. ", "xyzx"])), ",", lit(r.choice(
                    ["ABC", "A", "", "xyz123", "--"]))] + [")"]
        if x < 0.92:
            return [r.choice(["name", "local-name"]), "("] + \
                (self.nodeset(c, d - 1)[0] if self.ch(0.8) else []) + [")"]
        return self.nodeset(c, d - 1)[0]

    def short(self, c, d):
        r = self.rng
        return [lit(r.choice(["", "a", ".", "1", "-", "0", " ", "b", ":", "e"]))] \
            if self.ch(0.75) else self.str(c, d - 1)

    def smallnum(self, c, d):
        r = self.rng
        x = r.random()
        if x < 0.6:
            t = [r.choice(["0", "1", "2", "3", "1.5", "2.5", "0.5", "2.4", "100"])]
            return (["-"] if self.ch(0.2) else []) + t
        if x < 0.8:
            return r.choice([["1", "div", "0"], ["-", "1", "div", "0"], ["0", "div", "0"]])
        return self.num(c, d - 1)

    def bool(self, c, d):
        r = self.rng
        self.budget -= 1
        x = r.random()
        if d <= 0 or self.budget <= 0 or x < 0.06:
            return [r.choice(["true", "false"]), "(", ")"]
        if x < 0.16:
            return ["not", "("] + self.any(c, d - 1) + [")"]
        if x < 0.22:
            return ["boolean", "("] + self.any(c, d - 1) + [")"]
        if x < 0.36:
            return self.prim(self.any(c, d - 1)) + [r.choice(["and", "or"])] + \
                self.prim(self.any(c, d - 1))
        if x < 0.44:
            return [r.choice(["starts-with", "contains"]), "("] + self.str(c, d - 1) + [","] + \
                self.short(c, d) + [")"]
        if x < 0.5 and self.idents:
            i = r.choice(self.idents)
            return [r.choice(["derived-from", "derived-from-or-self"]), "("] + \
                self.typed(c, d, "id") + [",", lit(i)] + [")"]
        if x < 0.54:
            ys = [b for y in self.everything() if y.val and y.val[0][0] == "bits"
                  for b in (y.val[1].bits or ())]
            return ["bit-is-set", "("] + self.typed(c, d, "bits") + \
                [",", lit(r.choice(ys) if ys else "a")] + [")"]
        if x < 0.6:
            p = xre.pattern(r)
            if not ("'" in p.text and '"' in p.text):
                self.env.patterns[p.text] = p
                s = [lit(p.sample(r))] if self.ch(0.6) else self.str(c, d - 1)
                return ["re-match", "("] + s + [",", lit(p.text), ")"]
        if x < 0.8:
            t, nodes = self.nodeset(c, d - 1)
            vs = [y for y in nodes if y.val is not None]
            if vs:
                cv = self.cmpval(r.choice(vs))
                if self.ch(0.25):
                    sw = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
                    return cv[1:] + [sw.get(cv[0], cv[0])] + t
                return t + cv
        return self.prim(self.any(c, d - 1)) + [r.choice(["=", "!=", "<", ">", "<=", ">="])] + \
            self.prim(self.any(c, d - 1))

    def any(self, c, d):
        x = self.rng.random()
        if x < 0.4:
            return self.nodeset(c, d)[0]
        if x < 0.6:
            return self.num(c, d)
        if x < 0.78:
            return self.str(c, d)
        return self.bool(c, d)


def mutate(toks, rng):
    """Damage a token list."""
    t = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = rng.randrange(len(t)) if t else 0
        x = rng.random()
        if x < 0.3 and t:
            del t[i]
        elif x < 0.45 and t:
            t.insert(i, t[i])
        elif x < 0.6 and len(t) > 1:
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        else:
            w = rng.choice(["(", ")", "[", "]", "/", "//", "|", "and", "or", "div", "mod", "*", "=",
                            "!=", "<", "+", "-", ",", ".", "..", "::", "1", "'x'", "foo", "true",
                            "!", "$", "@", "#", "'", "bit_is_set", "==", "///", "2.5.1", "a:b:c",
                            "parent", "node", "self", "id", "true()", "concat"])
            if x < 0.8:
                t.insert(i, w)
            elif t:
                t[i] = w
    return t or ["="]
