"""C26: the status of schema nodes means what the documentation says."""
import json
import os
from vf import util
from vf.core import Group
from vf.util import judge

PROPERTY = "C26"
RULE = ("random modules in which nodes of every kind, groupings and augments carry status statements; each module is compiled as it is, with "
        "keep-obsolete set in the YANG library, with the obsolete nodes left out of the text, and with status statements left out; validation, "
        "addition of defaults, XPath evaluation and tree diagrams must agree between the variants that mean the same; one evaluation = one "
        "document, expression or tree compared; non-trivial if the document isn't empty")
ASSUMPTIONS = ["obsolete operations and notifications are out of scope, as their data can be used only if asked for",
               "the status of an augment is that of the nodes it adds, a status of uses is not used",
               "a module with obsolete nodes may still be asked for instances of them: such instances need not be refused before validation"]
NAMES = "abcdefgh"


class N:
    """A schema node of a generated module."""

    def __init__(self, kw, name, parent):
        self.kw, self.name, self.parent = kw, name, parent
        self.kids, self.subs, self.status = [], [], None
        self.group = None          # (status, place) if the kids come from a grouping there
        self.aug = None            # (status, when, nodes)

    def all(self):
        yield self
        for k in self.every():
            yield from k.all()

    def every(self):
        return self.kids + (self.aug[2] if self.aug else [])

    def path(self):
        return (self.parent.path() if self.parent else "") + ("/m:" + self.name if self.name else "")

    def data(self):
        """The data node children with the choices between (name, node)."""
        for k in self.every():
            if k.kw in ("choice", "case"):
                yield from k.data()
            else:
                yield k


# -- generation ---------------------------------------------------------------
class Gen:
    def __init__(self, rng):
        self.rng, self.count = rng, 0
        self.root = N("root", "", None)
        self.fill(self.root, 0, rng.randint(2, 5))
        self.ngroup = 0

    def nm(self):
        self.count += 1
        return f"n{self.count}"

    def status(self, n, p=.25):
        if self.rng.random() < p:
            n.status = self.rng.choice(["obsolete", "obsolete", "deprecated", "current"])

    def cond(self, prev, inner=False):
        """A condition on the nodes before (named) or on anything (must)."""
        r = self.rng
        up = "" if inner else "../"
        out = ["true()", "count(/n1) < 2"]
        if prev:
            p = r.choice(prev)
            out += [up + p, f"not({up}{p})", f"{up}{p} = 'd'", f"count({up}{p}) < 1", f"string({up}{p}) != '7'"]
        return r.choice(out)

    def must(self, prev):
        r = self.rng
        return r.choice(["count(../*) > 0", "count(../*) < 4", "count(//*) < 30", "count(*) < 3", "not(*[. = 'd'])", "count(../descendant::*[. = 'd']) < 3",
                         "string-length(..) < 12", "following-sibling::* or preceding-sibling::* or 1"] + [self.cond(prev)] * 2)

    def fill(self, n, depth, k):
        r = self.rng
        prev = []
        for _ in range(k):
            c = self.node(n, depth, prev)
            n.kids.append(c)
            prev += [c.name] if c.kw not in ("choice", "case") else [x.name for x in c.data()]
        if n.kw in ("root", "container") and r.random() < .25:
            n.group = (r.choice([None, "obsolete", "deprecated", "current"]), r.choice("msl"))
        if n.kw in ("container", "list", "choice", "case") and r.random() < .25:
            st = r.choice([None, "obsolete", "deprecated", "current"])
            if n.kw == "choice":
                new = [self.case(n, depth)]
            else:
                new = [self.node(n, depth + 1, prev) for _ in range(r.randint(1, 2))]
            for x in new:
                if x.status != "obsolete":
                    x.status = None
            n.aug = (st, self.cond([], True) if r.random() < .4 else None, new)

    def case(self, n, depth):
        c = N("case", self.nm(), n)
        self.status(c, .35)
        self.fill(c, depth + 1, self.rng.randint(1, 2))
        return c

    def node(self, n, depth, prev):
        r = self.rng
        kw = r.choice(["leaf"] * 4 + ["leaf-list", "anydata"] + (["container"] * 3 + ["list"] + ["choice"] * 2 if depth < 3 else []))
        c = N(kw, self.nm(), n)
        self.status(c)
        if r.random() < .12:
            c.subs.append(f'when "{self.cond(prev)}";')
        if kw not in ("choice", "case") and r.random() < .12:
            c.subs.append(f'must "{self.must(prev)}";')
        if r.random() < .06:
            c.subs.append("config false;")
        if kw == "leaf":
            c.type = r.choice(["string", "string", "uint8", "t"])
            c.subs.append(f"type {c.type};")
            w = r.random()
            if w < .4 and c.type != "t":
                c.subs.append("default " + ("d;" if c.type == "string" else "7;"))
            elif w < .6:
                c.subs.append("mandatory true;")
        elif kw == "leaf-list":
            c.type = "string"
            c.subs.append("type string;")
            w = r.random()
            if w < .4:
                c.subs.append("default d; default e;")
            elif w < .6:
                c.subs.append("min-elements 1;")
        elif kw == "anydata":
            if r.random() < .2:
                c.subs.append("mandatory true;")
        elif kw == "container":
            if r.random() < .3:
                c.subs.append("presence x;")
            self.fill(c, depth + 1, r.randint(1, 4))
        elif kw == "list":
            key = N("leaf", "k", c)
            key.type = "string"
            key.subs.append("type string;")
            c.kids.append(key)
            self.fill(c, depth + 1, r.randint(1, 3))
            c.subs.append("key k;")
            if r.random() < .2:
                c.subs.append("min-elements 1;")
        elif kw == "choice":
            for _ in range(r.randint(1, 3)):
                if r.random() < .5:
                    c.kids.append(self.case(c, depth))
                else:
                    s = self.node(c, max(depth, 3), [])
                    s.subs = [x for x in s.subs if not x.startswith(("when", "mandatory", "min-el"))]
                    c.kids.append(s)
            w = r.random()
            good = [x for x in c.kids if self.optional(x)]
            if w < .45 and good:
                c.default = r.choice(good).name
            elif w < .6:
                c.subs.append("mandatory true;")
                for x in c.kids[0].all():       # something has to stay
                    x.status = None
                    if x.aug and x.aug[0] == "obsolete":
                        x.aug = (None,) + x.aug[1:]
        return c

    def optional(self, n):
        """May be a default case."""
        return not any(s.startswith(("mandatory true", "min-elements")) for x in n.all() for s in x.subs)


def render(root, drop=(), keep=None):
    """Texts of the modules without the statuses in drop; if keep is given, with the obsolete nodes of the modules in keep being
    current and the others left out."""
    groups, augs = {"m": [], "s": [], "l": []}, []

    def st(status, home):
        if status == "obsolete" and keep and owner(home) in keep:
            status = "current"
        return f"status {status}; " if status and status not in drop else ""

    def gone(status, home):
        return keep is not None and status == "obsolete" and owner(home) not in keep

    def one(n, home):
        if gone(n.status, home):
            return ""
        subs = " ".join(n.subs)
        if n.kw == "choice" and getattr(n, "default", None):
            d = [x for x in n.kids if x.name == n.default][0]
            if not gone(d.status, home):
                subs += f" default {n.default};"
        body = inner(n, home)
        if n.aug:
            ast, when, new = n.aug
            if not gone(ast, "m"):
                i = len(augs)
                augs.append(None)
                augs[i] = (f'augment "{schema_path(n)}" {{ ' + (f'when "{when}"; ' if when else "") + st(ast, "m")
                           + " ".join([one(x, "m") for x in new]) + " }")
        return f"{n.kw} {n.name} {{ {subs} {st(n.status, home)}{body} }}"

    def inner(n, home):
        if not n.group:
            return " ".join([one(x, home) for x in n.kids])
        gst, place = n.group
        if home == "l":
            place = "l"
        body = " ".join([one(x, place) for x in n.kids])
        g = f"g{sum(map(len, groups.values()))}"
        groups[place].append(f"grouping {g} {{ {st(gst, place)}{body} }}")
        return f"uses {'' if (place == 'l') == (home == 'l') else 'l:'}{g};"

    def schema_path(n):
        out = ""
        while n.parent is not None:
            if n.parent.kw == "choice" and n.kw != "case":
                out = "/m:" + n.name + out
            out = "/m:" + n.name + out
            n = n.parent
        return out

    body = inner(root, "m")
    td = 'typedef t { type string; default "d"; } '
    return {"m": ('module m { yang-version 1.1; namespace "urn:m"; prefix m; import l { prefix l; } include s; ' + td
                  + " ".join(groups["m"]) + " " + body + "\n" + "\n".join(augs) + " }"),
            "s": "submodule s { yang-version 1.1; belongs-to m { prefix m; } import l { prefix l; } revision 2020-01-01; " + " ".join(groups["s"]) + " }",
            "l": 'module l { yang-version 1.1; namespace "urn:l"; prefix l; ' + td + " ".join(groups["l"]) + " }"}


def owner(home):
    """The module a text belongs to."""
    return "l" if home == "l" else "m"


def homes(n, home="m"):
    """Pairs of a node (or the status of an augment) and the text it is defined in."""
    yield n, home
    h = home
    if n.group:
        h = "l" if home == "l" else n.group[1]
    for k in n.kids:
        yield from homes(k, h)
    if n.aug:
        for k in n.aug[2]:
            yield from homes(k, "m")


# -- documents ----------------------------------------------------------------
def document(rng, root, p, bad, skip_obsolete):
    def val(n):
        if n.kw == "leaf":
            return scalar(n)
        if n.kw == "leaf-list":
            return rng.sample(["d", "e", "x", "y"], rng.randint(1, 3))
        if n.kw == "anydata":
            return {"x": 1}
        if n.kw == "list":
            return [dict(obj(n), k=k) for k in rng.sample("xyzd", rng.randint(1, 2))]
        return obj(n)

    def scalar(n):
        if n.type == "uint8":
            return rng.choice([7, 1, 2])
        return rng.choice(["d", "x", "7"])

    def obj(n):
        out = {}
        aug_gone = skip_obsolete and n.aug and n.aug[0] == "obsolete"
        kids = n.kids if aug_gone else n.every()
        for c in kids:
            if skip_obsolete and c.status == "obsolete":
                continue
            if c.kw == "choice":
                g = skip_obsolete and c.aug and c.aug[0] == "obsolete"
                cases = [x for x in (c.kids if g else c.every()) if not (skip_obsolete and x.status == "obsolete")]
                if cases and rng.random() < p:
                    for x in rng.sample(cases, 2 if len(cases) > 1 and rng.random() < bad else 1):
                        out.update(obj(x) if x.kw in ("case", "choice") else {x.name: val(x)})
            elif rng.random() < p or "mandatory true;" in c.subs and rng.random() > bad or "min-elements 1;" in c.subs and rng.random() > bad:
                out[c.name] = val(c)
        return out

    return {"m:" + k: v for k, v in obj(root).items()}


def library(d, texts, flags):
    from yangson import DataModel
    os.makedirs(d, exist_ok=True)
    for n, t in texts.items():
        with open(os.path.join(d, "s@2020-01-01.yang" if n == "s" else n + ".yang"), "w") as f:
            f.write(t)
    ents = [{"name": "m", "revision": "", "namespace": "urn:m", "conformance-type": "implement", "submodule": [{"name": "s", "revision": "2020-01-01"}]},
            {"name": "l", "revision": "", "namespace": "urn:l", "conformance-type": "import"}]
    for e in ents:
        if e["name"] in flags:
            e["yangson-yl:keep-obsolete"] = flags[e["name"]]
    return DataModel(json.dumps({"ietf-yang-library:modules-state": {"module-set-id": "x", "module": ents}}), (d,))


def norm(x):
    """Raw value with objects in a canonical order."""
    if isinstance(x, dict):
        return {k: norm(x[k]) for k in sorted(x)}
    if isinstance(x, list):
        return [norm(y) for y in x]
    return x


def lines(tree):
    """Lines of a tree diagram as (depth, label, text)."""
    out = []
    for ln in tree.splitlines():
        i = min([ln.index(s) for s in ("+--", "x--", "o--", "O--") if s in ln])
        out.append((i // 3, ln[i], ln[i + 3:]))
    return out


def without_obsolete(ls):
    out, cut = [], None
    for i, (d, l, t) in enumerate(ls):
        if t.startswith(":(") and i + 1 < len(ls) and ls[i + 1][1] == "o" and t[2:-1] in ls[i + 1][2].replace("(", "").replace(")", "").replace("?", " ").replace(
                "!", " ").replace("*", " ").replace("#", " ").split():
            continue    # the case of a short case
        if cut is not None and d > cut:
            continue
        cut = d if l == "o" else None
        if cut is None:
            out.append((d, l, t))
    return out


def evaluate(dm, inst, text):
    from yangson.schemadata import SchemaContext
    from yangson.xpathparser import XPathParser
    v = XPathParser(text, SchemaContext(dm.schema_data, "m", ("m", ""))).parse().evaluate(inst)
    if isinstance(v, list):
        return [(n.json_pointer(), n._xpath_string()) for n in v]
    return v


def defaults(inst, ctype):
    return norm(inst.add_defaults(util.ctype_enum(ctype)).raw_value())


def case(ctx, rng):
    g = Gen(rng)
    root = g.root
    d = ctx.tmpdir()
    full = render(root)
    keep = rng.choice([("m",), ("l",), ("m", "l"), ("m", "l")])
    texts = {"full": (full, {n: False for n in "ml" if rng.random() < 0.3}), "removed": (render(root, keep=()), {}),
             "kept": (full, {n: True if n in keep else False for n in "ml" if n in keep or rng.random() < 0.3}), "plain": (render(root, keep=keep), {}),
             "nodep": (render(root, drop=("deprecated",), keep=()), {})}
    dms = {k: library(os.path.join(d, k), t, flags) for k, (t, flags) in texts.items()}
    nodes = list(root.all())
    for n in nodes:
        if n.status:
            ctx.ev(f"{n.status} {n.kw}")
        if n.group and n.group[0]:
            ctx.ev("grouping with status")
        if n.aug and n.aug[0]:
            ctx.ev("augment with status")
    for n, h in homes(root):
        if n.status == "obsolete":
            ctx.ev("obsolete in " + {"m": "the main module", "s": "a submodule", "l": "another module"}[h])
    info = {"texts": full, "keep": keep}
    # tree diagrams
    for no_types in (False, True):
        t = {k: lines(v.ascii_tree(no_types)) for k, v in dms.items()}
        ctx.case(["tree", full["m"], no_types], True)
        if not (ctx.check(without_obsolete(t["full"]) == t["removed"], "tree-obsolete",
                          lambda: f"tree diagram without obsolete nodes:\n{without_obsolete(t['full'])}\ninstead of\n{t['removed']}", **info)
                and ctx.check([x[2] for x in t["full"]] == [x[2] for x in t["kept"]], "tree-lines", "tree diagrams differ in more than the status", **info)
                and ctx.check([x[2] for x in without_obsolete(t["kept"])] == [x[2] for x in t["plain"]], "tree-kept-lines",
                              "wrong nodes are labelled as obsolete", **info)
                and ctx.check(all(x[1] == y[1] or x[1] == "o" and y[1] == "O" for x, y in zip(t["full"], t["kept"])), "tree-kept",
                              "nodes made current again aren't labelled with O", **info)
                and ctx.check([x[2] for x in t["nodep"]] == [x[2] for x in t["removed"]] and all(x[1] == "+" for x in t["nodep"]), "tree-deprecated",
                              "tree diagrams differ in more than the status", **info)):
            return
        ctx.ev("tree diagrams")
    names = [n for n in nodes if n.kw not in ("root", "choice", "case")]
    exprs = ["count(//*)", "count(/*)", "//*", "//*[. = 'd']", "string(/*[1])"]
    for n in rng.sample(names, min(4, len(names))):
        exprs += [f"//m:{n.name}", f"//m:{n.name}/..", f"string(//m:{n.name})"]
    for k in range(8):
        skip = rng.random() < .75
        doc = document(rng, root, rng.choice([.2, .5, .8, 1]), rng.choice([0, 0, .3]), skip) if k else {}
        ctype = rng.choice(["config", "all"])
        scope = rng.choice(["all", "all", "syntax", "semantics"])
        det = dict(info, document=doc, ctype=ctype, scope=scope)
        v = {}
        for x, dm in dms.items():
            try:
                v[x] = judge(dm, doc, scope, ctype)
            except RecursionError:
                ctx.ev("circular conditions")
                v = None
                break
        if v is None:
            continue
        ctx.case(["doc", full["m"], norm(doc), ctype, scope], bool(doc), doc)
        ctx.ev("accepted" if v["full"].ok else "rejected")
        # a document with obsolete nodes may be refused by from_raw in one and by validation in the other
        known = v["removed"].ok or v["removed"].kind != "RawMemberError"
        ctx.ev("documents without obsolete nodes" if known else "documents with obsolete nodes")
        if known:
            if not ctx.check((v["full"].ok, v["full"].kind, v["full"].path) == (v["removed"].ok, v["removed"].kind, v["removed"].path), "obsolete-verdict",
                             lambda: f"{v['full']} although {v['removed']} without the obsolete nodes", **det):
                return
        elif scope != "semantics" and not ctx.check(not v["full"].ok, "obsolete-accepted", lambda: f"document with obsolete nodes is {v['full']}", **det):
            return
        kknown = v["plain"].ok or v["plain"].kind != "RawMemberError"
        if not kknown:
            ok = scope == "semantics" or not v["kept"].ok
        else:
            ctx.ev("documents with kept nodes only" if not known else "documents for keep-obsolete")
            ok = (v["kept"].ok, v["kept"].kind, v["kept"].path) == (v["plain"].ok, v["plain"].kind, v["plain"].path)
        if not ctx.check(ok, "kept-verdict", lambda: f"{v['kept']} with keep-obsolete although {v['plain']} if nodes aren't obsolete", **det):
            return
        if v["kept"].ok != v["full"].ok:
            ctx.ev("verdict depends on obsolete nodes")
        if known:
            a, b = v["removed"], v["nodep"]
            ok = a.ok == b.ok or a.ok and b.tag in ("missing-data", "too-few-elements")
            if ok and a.ok != b.ok:
                ctx.ev("deprecated node missing")
            if not ctx.check(ok or not a.ok and b.tag in ("missing-data", "too-few-elements"), "deprecated-verdict",
                             lambda: f"{a} although {b} if nodes aren't deprecated", **det):
                return
        # defaults and expressions
        for x, y in ([("full", "removed"), ("removed", "nodep")] if known else []) + [("kept", "plain")] * kknown:
            if v[x].inst is None or v[y].inst is None:
                continue
            ct = rng.choice(["config", "nonconfig", "all"])
            p, q = defaults(v[x].inst, ct), defaults(v[y].inst, ct)
            ctx.case(["defaults", full["m"], norm(doc), ct, x], bool(doc))
            ctx.ev("defaults added" if p != norm(doc) else "no defaults")
            if not ctx.check(p == q, f"defaults:{x}:{y}", lambda: f"defaults {p} instead of {q} ({x}, {y})", content=ct, **det):
                return
            for e in exprs:
                p, q = evaluate(dms[x], v[x].inst, e), evaluate(dms[y], v[y].inst, e)
                ctx.case(["xpath", full["m"], norm(doc), e, x], bool(doc))
                ctx.ev("expressions")
                if not ctx.check(p == q, f"xpath:{x}:{y}", lambda: f"{e} is {p} instead of {q} ({x}, {y})", expression=e, **det):
                    return


GROUPS = [Group("status", case, 450, 5000)]
REQUIRE = {"documents without obsolete nodes": 800, "documents with obsolete nodes": 200, "verdict depends on obsolete nodes": 100, "deprecated node missing": 8,
           "defaults added": 800, "expressions": 10000, "grouping with status": 60, "augment with status": 60, "tree diagrams": 300, "obsolete in a submodule": 40, "obsolete in another module": 60, "documents with kept nodes only": 100, "accepted": 300, "rejected": 300}
REQUIRE.update({f"obsolete {k}": 15 for k in ("container", "list", "leaf", "leaf-list", "choice", "case", "anydata")})
