"""C15: features, identities and library selection."""
import json
import os

from vf.core import CaseTimeout, Group

PROPERTY = "C15"
RULE = ("random sets of modules in one or several revisions with submodules, prefixes that clash between texts, imports with and without revision, "
        "features with prerequisites, identity graphs, typedefs and groupings whose defaults tell where they come from, and decoy files in the search "
        "path; the data model made from a library is compared with the resolution that the generator made from RFC 7950, and libraries or modules "
        "with one defect must be rejected with the documented exception; one evaluation = one reference, feature expression, identity query, name "
        "query or defective variant; non-trivial if it crosses a text, an operator or a derivation")
ASSUMPTIONS = ["one submodule revision belongs to one module revision",
               "identities that only some revisions of an import-only module have may or may not take part in derivation"]

DATES = ["2001-01-01", "2009-12-31", "2010-01-01", "2015-06-30", "2020-02-29", "2021-11-11"]


class Text:
    """A module or submodule."""

    def __init__(self, fam, name, rev, prefix):
        self.fam, self.name, self.rev, self.prefix = fam, name, rev, prefix
        self.imports = []           # (prefix, name, revision or None, family)
        self.body = []
        self.incl = []
        self.old = []

    @property
    def mid(self):
        return (self.name, self.rev)


class Family:
    """A revision of a main module with its submodules."""

    def __init__(self, name, rev, impl):
        self.name, self.rev, self.impl = name, rev, impl
        self.texts = []
        self.features = {}          # name -> expression or None
        self.enabled = set()
        self.idents = {}            # name -> [(module, name)]
        self.typedefs = {}          # name -> origin of the default
        self.groups = {}            # name -> [(leaf, origin)]


class World:
    def __init__(self, rng):
        self.rng = rng
        self.fams = []
        self.byname = {}
        self.nodes = []             # (path, kind, expected)
        self.exprs = []
        self.n = 0
        self.make()

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    # -- references

    def scope(self, t):
        """Prefix and family for all that the text can refer to."""
        return [("", t.fam), (t.prefix, t.fam)] + [(p, f) for p, _, _, f in t.imports]

    def pick(self, t, attr, foreign=0.7):
        """Reference from text t to one of the definitions."""
        c = [(p, f, d) for p, f in self.scope(t) for d in getattr(f, attr)]
        x = [y for y in c if y[1] is not t.fam]
        if x and self.rng.random() < foreign:
            c = x
        if not c:
            return None
        p, f, d = self.rng.choice(c)
        return ((p + ":" if p else "") + d, f, d)

    def expr(self, t, depth=2):
        """(text, value) of a feature expression, None without features."""
        r = self.rng
        k = r.random()
        if depth == 0 or k < 0.25:
            x = self.pick(t, "features")
            if x is None:
                return None
            return (x[0], x[2] in x[1].enabled, 3)
        if k < 0.5:
            x = self.expr(t, depth - 1)
            if x is None:
                return None
            return (f"not{self.sep()}" + self.par(x, 3), not x[1], 3)
        op = r.choice(["and", "or"])
        a, b = self.expr(t, depth - 1), self.expr(t, depth - 1)
        if a is None or b is None:
            return None
        lv = 2 if op == "and" else 1
        return (self.par(a, lv + 1) + self.sep() + op + self.sep() + self.par(b, lv), (a[1] and b[1]) if op == "and" else (a[1] or b[1]), lv)

    def sep(self):
        return self.rng.choice([" ", " ", "  ", "\n", "\t "])

    def par(self, x, lv):
        r = self.rng
        if x[2] < lv or r.random() < 0.15:
            return "(" + r.choice(["", " "]) + x[0] + r.choice(["", " ", "\n"]) + ")"
        return x[0]

    # -- generation

    def make(self):
        r = self.rng
        names = [r.choice(["m", "mod", "a-b", "x.y", "_z"]) + str(i) for i in range(r.randint(2, 5))]
        for i, n in enumerate(names):
            revs = r.sample(DATES, r.choice([1, 1, 2, 3]))
            if r.random() < 0.25:
                revs[0] = ""
            ir = r.choice(revs + [None]) if i < len(names) - 1 else revs[0] if r.random() < 0.95 else None
            fs = [Family(n, v, v == ir) for v in revs]
            for f in fs:
                self.family(f, names[:i])
            self.fams += fs
            self.byname[n] = fs

    def family(self, f, earlier):
        r = self.rng
        px = ["p", "q", "or", "not", "and", "s", "x", "notp"]
        main = Text(f, f.name, f.rev, r.choice(px))
        f.texts.append(main)
        for k in range(r.choice([0, 0, 1, 2])):
            s = Text(f, f"{f.name}-s{k}", r.choice(DATES[:3]) if not f.rev else f.rev if r.random() < 0.5 else f.rev[:8] + str(int(f.rev[8:]) - 0).zfill(2), r.choice(px))
            f.texts.append(s)
        # a submodule text is told apart from those of other revisions of the module by its revision
        others = {t.mid for g in self.fams for t in g.texts} | {t.mid for g in getattr(self, "now", []) for t in g.texts}
        for s in f.texts[1:]:
            while s.mid in others:
                s.rev = f"20{r.randint(22, 40)}-01-0{r.randint(1, 9)}"
        self.now = [g for g in getattr(self, "now", []) if g.name == f.name] + [f]
        for t in f.texts:
            free = [p for p in px if p != t.prefix]
            r.shuffle(free)
            for n in earlier:
                for _ in range(r.choice([0, 1, 1, 2])):
                    if not free:
                        break
                    fs = self.byname[n]
                    rev = r.choice([None, None] + [g.rev for g in fs if g.rev])
                    if rev in [x[2] for x in t.imports if x[1] == n]:
                        continue
                    g = max(fs, key=lambda g: g.rev) if rev is None else next(g for g in fs if g.rev == rev)
                    t.imports.append((free.pop(), n, rev, g))
            t.incl = [s for s in f.texts[1:] if s is not t and (t is main or r.random() < 0.5)]
            if t.rev:
                t.old = [d for d in DATES + ["1999-09-09"] if d < t.rev and r.random() < 0.2]
        # definitions
        for _ in range(r.randint(0, 4)):
            t = r.choice(f.texts)
            n = r.choice(["f", "g", "not-x", "or", "and1", "android", "notable", "x.1"])
            if n in f.features:
                continue
            pre = [e for e in (self.expr(t) for _ in range(r.choice([0, 0, 1, 1, 2]))) if e]
            on = r.random() < 0.6 and all(e[1] for e in pre)
            f.features[n] = pre
            if on:
                f.enabled.add(n)
            t.body.append(f"feature {n} {{ " + " ".join(f'if-feature "{e[0]}";' for e in pre) + " }" if pre else f"feature {n};")
            for e in pre:
                self.exprs.append((t, e))
        for i in range(r.randint(0, 5)):
            t = r.choice(f.texts)
            bases = [b for b in (self.pick(t, "idents", 0.5) for _ in range(r.choice([0, 1, 1, 2]))) if b]
            cond = self.expr(t) if r.random() < 0.15 else None
            n = f"i{i}"
            if cond is None or cond[1]:
                f.idents[n] = [(b[1].name, b[2]) for b in bases]
            t.body.append(f"identity {n} {{ " + (f'if-feature "{cond[0]}"; ' if cond else "") + " ".join(f"base {b[0]};" for b in bases) + " }")
        for i in range(r.randint(0, 4)):
            t = r.choice(f.texts)
            n = f"t{i}"
            x = self.pick(t, "typedefs", 0.8) if r.random() < 0.6 else None
            o = x[1].typedefs[x[2]] if x else f"{t.name}@{t.rev}/{n}"
            f.typedefs[n] = o
            t.body.append(f"typedef {n} {{ type {x[0]}; }}" if x else f'typedef {n} {{ type string; default "{o}"; }}')
        for i in range(r.randint(0, 3)):
            t = r.choice(f.texts)
            n = f"g{i}"
            body, leaves = self.nodes_of(t, n)
            f.groups[n] = leaves
            t.body.append(f"grouping {n} {{ {body} }}")
        for t in f.texts:
            for _ in range(r.randint(1, 2)):
                c = self.fresh("c")
                body, leaves = self.nodes_of(t, None)
                t.body.append(f"container {c} {{ {body} }}")
                if f.impl:
                    self.nodes += [(f"/{f.name}:{c}" + p, k, v) for p, k, v in leaves]
            r.shuffle(t.body)

    def nodes_of(self, t, g):
        """Body of a container or grouping, and what is expected there."""
        r = self.rng
        body, out = [], []
        local = None
        if r.random() < 0.2:
            local = self.fresh("lt")
            body.append(f'typedef {local} {{ type string; default "{t.name}@{t.rev}/{local}"; }}')
        for _ in range(r.randint(1, 4)):
            k = r.choice(["type", "type", "uses", "ident", "feature", "local"])
            n = self.fresh("n")
            if k == "type":
                x = self.pick(t, "typedefs")
                if x:
                    body.append(f"leaf {n} {{ type {x[0]}; }}")
                    out.append(("/" + n, "default", x[1].typedefs[x[2]]))
            elif k == "local" and local:
                body.append(f"container {n} {{ leaf y {{ type {r.choice(['', t.prefix + ':'])}{local}; }} }}")
                out.append((f"/{n}/y", "default", f"{t.name}@{t.rev}/{local}"))
            elif k == "uses":
                x = self.pick(t, "groups", 0.8)
                if x:
                    body.append(f"container {n} {{ uses {x[0]}; }}")
                    out += [("/" + n + p, q, v) for p, q, v in x[1].groups[x[2]]]
            elif k == "ident":
                xs = [x for x in (self.pick(t, "idents", 0.5) for _ in range(r.choice([1, 1, 2]))) if x]
                if xs:
                    body.append(f"leaf {n} {{ type identityref {{ " + " ".join(f"base {x[0]};" for x in xs) + " } }")
                    out.append(("/" + n, "bases", [(x[1].name, x[2]) for x in xs]))
            elif k == "feature":
                es = [e for e in (self.expr(t, r.choice([1, 2, 3])) for _ in range(r.choice([1, 1, 2]))) if e]
                if es:
                    body.append(f"leaf {n} {{ " + " ".join(f'if-feature "{e[0]}";' for e in es) + " type int8; }")
                    out.append(("/" + n, "present", all(e[1] for e in es)))
                    self.exprs += [(t, e) for e in es]
        r.shuffle(body)
        return " ".join(body), out

    # -- texts

    def text(self, t):
        r = self.rng
        main = t is t.fam.texts[0]
        out = [("module " if main else "submodule ") + t.name + " {\n  yang-version 1.1;"]
        if main:
            out += [f"  namespace urn:{t.name};", f"  prefix {t.prefix};"]
        else:
            out.append(f"  belongs-to {t.fam.name} {{ prefix {t.prefix}; }}")
        link = [f"  import {n} {{ prefix {p}; " + (f"revision-date {v}; " if v is not None else "") + "}" for p, n, v, _ in t.imports]
        link += [f"  include {s.name}" + (f" {{ revision-date {s.rev}; }}" if s.rev and r.random() < 0.5 else ";") for s in t.incl]
        r.shuffle(link)
        revs = ([t.rev] if t.rev else []) + t.old
        revs.sort(reverse=True)
        if r.random() < 0.3:
            r.shuffle(revs)
        out += link + [f"  revision {v};" for v in revs] + ["  " + x for x in t.body]
        return "\n".join(out) + "\n}\n"

    def library(self):
        ms = []
        for f in self.fams:
            e = {"name": f.name, "revision": f.rev, "namespace": f"urn:{f.name}", "conformance-type": "implement" if f.impl else "import"}
            if f.enabled:
                e["feature"] = sorted(f.enabled)
            if f.texts[1:]:
                e["submodule"] = [{"name": s.name, "revision": s.rev} for s in f.texts[1:]]
            ms.append(e)
        self.rng.shuffle(ms)
        return {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": ms}}

    def write(self, ctx, decoys=True):
        """Files in one or two directories, with decoys."""
        r = self.rng
        base = ctx.tmpdir()
        dirs = [os.path.join(base, str(i)) for i in range(r.choice([1, 2, 3]))]
        for d in dirs:
            os.makedirs(d)
        self.files = {}
        used = set()
        todo = [t for f in self.fams for t in f.texts]
        r.shuffle(todo)
        texts = {t.mid: self.text(t) for t in todo}
        for t in todo:
            d = r.choice(dirs)
            plain = os.path.join(d, t.name + ".yang")
            if not t.rev or plain not in used and r.random() < 0.4:
                while plain in used:
                    d = os.path.join(base, str(len(dirs)))
                    os.makedirs(d)
                    dirs.append(d)
                    plain = os.path.join(d, t.name + ".yang")
                fn = plain
            else:
                fn = os.path.join(d, f"{t.name}@{t.rev}.yang")
            used.add(fn)
            self.files[t.mid] = fn
        for t in todo:
            with open(self.files[t.mid], "w") as fp:
                fp.write(texts[t.mid])
        # what must not be taken: another revision, or another module, under the name
        for t in r.sample(todo, min(len(todo), r.randint(0, 3))):
            d = r.choice(dirs)
            fn = os.path.join(d, t.name + (f"@{t.rev}" if t.rev and r.random() < 0.5 else "") + ".yang")
            if fn not in used:
                o = r.choice(todo)
                if o.mid != t.mid and (decoys or o.name != t.name):
                    used.add(fn)
                    with open(fn, "w") as fp:
                        fp.write(texts[o.mid])
        self.dirs = dirs

    # -- identities

    def closure(self, edges):
        """Pairs (identity, base) of the transitive closure."""
        out = set()
        for i in edges:
            todo = list(edges[i])
            while todo:
                b = todo.pop()
                if (i, b) not in out:
                    out.add((i, b))
                    todo += edges.get(b, ())
        return out

    def derivations(self):
        sure, may = {}, {}
        for n, fs in self.byname.items():
            im = [f for f in fs if f.impl]
            for f in fs:
                for i, bs in f.idents.items():
                    may.setdefault((n, i), set()).update(bs)
            for i in set.intersection(*[set(f.idents) for f in im or fs]):
                sure[(n, i)] = set.intersection(*[set(f.idents[i]) for f in im or fs])
        return self.closure(sure), self.closure(may)


def q(i):
    return (i[1], i[0])


def world(ctx, rng, decoys=True):
    w = World(rng)
    w.write(ctx, decoys)
    w.lib = w.library()
    return w


def everything(w):
    """Texts of all files."""
    out = {}
    for d in w.dirs:
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f), errors="replace") as fp:
                out[os.path.join(os.path.basename(d), f)] = fp.read()
    return out


def resolution(ctx, rng):
    from yangson import DataModel
    from yangson.exceptions import ModuleNotImplemented, ModuleNotImported, ModuleNotRegistered, UnknownPrefix, YangsonException
    w = world(ctx, rng)
    det = {"files": everything(w), "library": w.lib}
    try:
        dm = DataModel(json.dumps(w.lib), tuple(w.dirs))
    except CaseTimeout:
        raise
    except Exception as e:
        ctx.fail("rejected:" + type(e).__name__, f"correct library is rejected: {e!r}", **det)
        return
    sd = dm.schema_data
    key = json.dumps(det)
    # files
    for f in w.fams:
        for t in f.texts:
            st = sd.modules[t.mid].statement
            ctx.check(st.argument == t.name and t.rev in [x.argument for x in st.find_all("revision")] + ([""] if not t.rev else []),
                      "wrong-file", f"{t.mid} is taken from {sd.modules[t.mid].path}", **det)
            ctx.check(sd.modules[t.mid].main_module == (f.name, f.rev), "main-module", f"main module of {t.mid}", **det)
    # references
    for p, k, v in w.nodes:
        names = p.split("/")[1:]
        n = dm.get_data_node(p)
        ctx.ev(k)
        ctx.case([key, p], True, f"{p}: {k} {v}")
        if k == "present":
            ctx.ev(f"feature expression {'true' if v else 'false'}")
            ctx.check((n is not None) == v, "if-feature", f"{p}: {'missing' if v else 'present'}", node=p, **det)
        elif n is None:
            ctx.fail("node-missing", f"{p} is missing", **det)
        elif k == "default":
            ctx.check(n.type.default == v, "definition", lambda: f"{p}: default value {n.type.default!r} instead of {v!r}", **det)
        else:
            ctx.check(set(map(q, n.type.bases)) == set(v), "bases", lambda: f"{p}: bases {n.type.bases} instead of {v}", **det)
    # expressions
    from yangson.schemadata import FeatureExprParser, SchemaContext
    for t, e in w.exprs + [(t, e) for f in w.fams for t in f.texts for e in [w.expr(t, 3)] if e]:
        try:
            r = FeatureExprParser(e[0], sd, t.mid).parse()
        except YangsonException as x:
            r = repr(x)
        ctx.ev("feature expressions")
        ctx.case([key, t.mid, e[0]], " " in e[0], f"{e[0]!r} in {t.mid}: {e[1]}")
        ctx.check(r is e[1], "expression", lambda: f"{e[0]!r} in {t.mid} gives {r}", **det)
    # identities
    sure, may = w.derivations()
    ids = sorted({(n, i) for n, fs in w.byname.items() for f in fs for i in f.idents}) + [("nosuch", "i0")]
    impl = {n for n, fs in w.byname.items() if any(f.impl for f in fs)}
    real = {(f.name, i) for f in w.fams if f.impl for i in f.idents}
    for a in ids:
        got = {q(x) for x in sd.derived_from(q(a))}
        lo, hi = {i for i, b in sure if b == a}, {i for i, b in may if b == a}
        ctx.ev("derived_from")
        ctx.case([key, "derived", a], bool(lo), f"derived from {a}: {sorted(got)}")
        ctx.check(lo <= got <= hi and a not in got, "derived_from", lambda: f"derived_from({a}) is {sorted(got)}, expected {sorted(lo)} to {sorted(hi)}", **det)
        for b in ids:
            r = sd.is_derived_from(q(b), q(a))
            ctx.ev("is_derived_from")
            ctx.case([key, "is", a, b], (b, a) in may, f"{b} derived from {a}: {r}")
            if not ctx.check(r if (b, a) in sure else not r if (b, a) not in may else True, "is_derived_from",
                             f"is_derived_from({b}, {a}) is {r}", **det):
                break
    for _ in range(10):
        bs = [rng.choice(ids) for _ in range(rng.randint(0, 3))]
        got = {q(x) for x in sd.derived_from_all([q(b) for b in bs])}
        lo = set.intersection(*[{i for i, b in sure if b == a} for a in bs]) if bs else set()
        hi = set.intersection(*[{i for i, b in may if b == a} for a in bs]) if bs else set()
        ctx.ev("derived_from_all")
        ctx.case([key, "all", bs], bool(lo), f"derived from all of {bs}: {sorted(got)}")
        ctx.check(lo <= got <= hi, "derived_from_all", lambda: f"derived_from_all({bs}) is {sorted(got)}, expected {sorted(lo)} to {sorted(hi)}", **det)
    for p, k, v in w.nodes:
        n = dm.get_data_node(p)
        if k != "bases" or n is None:
            continue
        for i in ids:
            r = q(i) in n.type
            lo, hi = i in real and all((i, b) in sure for b in v), i[0] in impl and all((i, b) in may for b in v)
            ctx.ev("identity values")
            ctx.case([key, p, i], hi, f"{i} as value of {p}: {r}")
            ctx.check(r if lo else not r if not hi else True, "identity-value", f"{i} as value of {p} with bases {v}: {r}", **det)
    # names
    for n, fs in w.byname.items():
        ctx.check(sd.last_revision(n) == (n, max(f.rev for f in fs)), "last_revision", f"last revision of {n} is {sd.last_revision(n)}", **det)
    for f in w.fams:
        for t in f.texts:
            ctx.check(sd.namespace(t.mid) == f.name, "namespace", f"namespace of {t.mid}", **det)
            for p in ["p", "q", "or", "not", "and", "s", "x", "notp", "zz", ""]:
                w2 = {t.prefix: f}
                w2.update({x[0]: x[3] for x in t.imports})
                g = w2.get(p)
                want = ("x", (g.name, g.rev)) if g else "UnknownPrefix"
                for what, fun, exp in (
                        ("prefix2ns", lambda: sd.prefix2ns(p, t.mid), g and g.name), ("resolve_pname", lambda: sd.resolve_pname(p + ":x", t.mid), want),
                        ("translate_pname", lambda: sd.translate_pname(p + ":x", t.mid), g and ("x", g.name)),
                        ("translate_node_id", lambda: sd.translate_node_id(p + ":x", SchemaContext(sd, "dd", t.mid)), g and ("x", g.name)),
                        ("sni2route", lambda: sd.sni2route(f"/a/{p}:x", SchemaContext(sd, "dd", t.mid)), g and [("a", "dd"), ("x", g.name)]),
                        ("sni2route-relative", lambda: sd.sni2route(f"{t.prefix}:b/{p}:x", SchemaContext(sd, "dd", t.mid)),
                         g and [("b", f.name), ("x", g.name)])):
                    try:
                        r = fun()
                    except UnknownPrefix:
                        r = None if what != "resolve_pname" else "UnknownPrefix"
                    ctx.ev("prefixes resolved")
                    ctx.case([key, t.mid, p, what], g is not None and g is not f, f"{what} of {p} in {t.mid}: {r}")
                    ctx.check(r == exp, what, f"{what}: {p} in {t.mid} gives {r}, not {exp}", **det)
            for n in list(w.byname) + ["nosuch"]:
                im = [g for g in w.byname.get(n, ()) if g.impl]
                ps = {p for p, g in w2.items() if im and g is im[0]}
                try:
                    r = sd.prefix(n, t.mid)
                    ok = r in ps
                except ModuleNotImplemented:
                    r, ok = "ModuleNotImplemented", not im
                except ModuleNotImported:
                    r, ok = "ModuleNotImported", im and not ps
                ctx.ev("prefixes looked up")
                ctx.check(ok, "prefix", f"prefix of {n} in {t.mid}: {r}", **det)
    for fun in (lambda: sd.namespace(("nosuch", "")), lambda: sd.last_revision("nosuch"), lambda: sd.prefix2ns("p", (w.fams[0].name, "1990-01-01"))):
        try:
            r = fun()
        except ModuleNotRegistered:
            r = None
        ctx.check(r is None, "not-registered", f"unknown module gives {r}", **det)


# -- defects

def tokens(s):
    import re
    return re.findall(r"[()]|[A-Za-z0-9_.:-]+|[ \t\n]+|.", s, re.S)


class Bad(Exception):
    pass


class Expr:
    """Strict recogniser of if-feature expressions; `lax` allows missing separators at parentheses and white space around."""

    def __init__(self, s, lax):
        self.t, self.i, self.lax = tokens(s), 0, lax
        self.names = []

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def ws(self):
        if self.peek() and not self.peek().strip(" \t\n"):
            self.i += 1
            return True
        return False

    def all(self):
        if self.ws() and not self.lax:
            raise Bad()
        self.disj()
        if self.ws() and not self.lax or self.i < len(self.t):
            raise Bad()

    def op(self, kw, sub):
        i = self.i
        par = self.i and self.t[self.i - 1] == ")"
        s = self.ws()
        if self.peek() == kw and (s or par and self.lax):
            self.i += 1
            if not self.ws() and not (self.lax and self.peek() == "("):
                raise Bad()
            sub()
            return
        self.i = i

    def disj(self):
        self.conj()
        self.op("or", self.disj)

    def conj(self):
        self.fac()
        self.op("and", self.conj)

    def fac(self):
        import re
        p = self.peek()
        if p == "not":
            i = self.i
            self.i += 1
            if self.ws() or self.lax and self.peek() == "(":
                if self.peek() and self.peek() != ")":
                    self.fac()
                    return
            self.i = i
        if p == "(":
            self.i += 1
            self.ws()
            self.disj()
            self.ws()
            if self.peek() != ")":
                raise Bad()
            self.i += 1
            return
        if not re.fullmatch(r"([A-Za-z_][A-Za-z0-9_.-]*:)?[A-Za-z_][A-Za-z0-9_.-]*", p):
            raise Bad()
        self.names.append(p)
        self.i += 1


def verdict(s):
    out = []
    for lax in (False, True):
        e = Expr(s, lax)
        try:
            e.all()
            out.append(e.names)
        except Bad:
            out.append(None)
    return out


def expressions(ctx, rng):
    """Damaged feature expressions."""
    from yangson import DataModel
    from yangson.exceptions import InvalidFeatureExpression, UnknownPrefix
    from yangson.schemadata import FeatureExprParser
    w = world(ctx, rng)
    try:
        sd = DataModel(json.dumps(w.lib), tuple(w.dirs)).schema_data
    except CaseTimeout:
        raise
    except Exception:
        return          # reported by the other group
    for _ in range(60):
        t = rng.choice(rng.choice(w.fams).texts)
        e = w.expr(t, 3)
        if e is None:
            continue
        ts = tokens(e[0])
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(ts) + 1)
            k = rng.random()
            if k < 0.4 and i < len(ts):
                del ts[i]
            elif k < 0.8:
                ts.insert(i, rng.choice(["(", ")", " ", "and", "or", "not", "f", "zz:f", "x", ";", "1", ":", ",", "\u00a0", "!"]))
            elif i < len(ts):
                ts[i] = rng.choice(["(", ")", " ", "and", "or", "not", "nosuch", "p:", ":f"])
        s = "".join(ts)
        strict, lax = verdict(s)
        if (strict is None) != (lax is None):
            ctx.ev("expressions that only break the rule on separators")
            continue
        if strict is not None and "not" in strict:
            ctx.ev("expressions with 'not' as a name")
            continue
        try:
            r = FeatureExprParser(s, sd, t.mid).parse()
        except CaseTimeout:
            raise
        except (InvalidFeatureExpression, UnknownPrefix) as x:
            r = type(x).__name__
        except Exception as x:
            r = "raised " + type(x).__name__
        ctx.ev("damaged expressions: " + ("valid" if strict is not None else "invalid"))
        ctx.case([s, t.mid], strict is None, f"{s!r}: {r}")
        px = {t.prefix} | {x[0] for x in t.imports}
        known = strict is not None and all(n.partition(":")[0] in px for n in strict if ":" in n)
        want = (True, False) if known else ("UnknownPrefix",) if strict is not None else ("InvalidFeatureExpression", "UnknownPrefix")
        ctx.check(r in want, "damaged-expression", f"{s!r} in {t.mid} gives {r}", prefixes=sorted(px), want=[str(x) for x in want])


def defects(ctx, rng):
    from yangson import DataModel
    from yangson import exceptions as X
    w = world(ctx, rng, False)
    ms = w.lib["ietf-yang-library:modules-state"]["module"]
    for k in rng.sample(sorted(DEFECTS), 8):
        lib = json.loads(json.dumps(w.lib))
        saved = {}

        def edit(t, fun):
            fn = w.files[t.mid]
            if fn not in saved:
                with open(fn) as fp:
                    saved[fn] = fp.read()
            with open(fn) as fp:
                s = fp.read()
            with open(fn, "w") as fp:
                fp.write(fun(s))
        try:
            want = DEFECTS[k](w, lib, rng, edit)
            if want is None:
                continue
            js = want[1] if isinstance(want, tuple) else json.dumps(lib)
            want = want[0] if isinstance(want, tuple) else want
            try:
                DataModel(js, tuple(w.dirs))
                r = "accepted"
            except CaseTimeout:
                raise
            except Exception as e:
                r = type(e).__name__
                ok = any(isinstance(e, getattr(X, n)) for n in want.split())
            else:
                ok = want == "accepted"
            ctx.ev(k + ": " + r)
            ctx.case([js, k, repr(sorted(saved))], True, f"{k}: {r}")
            ctx.check(ok, "defect:" + k, f"{k}: {r}, expected {want}", files=everything(w), library=js)
        finally:
            for fn, s in saved.items():
                with open(fn, "w") as fp:
                    fp.write(s)


def mods(lib):
    return lib["ietf-yang-library:modules-state"]["module"]


def entry(lib, f):
    return next(e for e in mods(lib) if e["name"] == f.name and e["revision"] == f.rev)


def d_missing_file(w, lib, rng, edit):
    t = rng.choice([t for f in w.fams for t in f.texts])
    edit(t, lambda s: s.replace("module " + t.name, "module zz", 1))
    return "ModuleNotFound"


def d_other_revision(w, lib, rng, edit):
    t = rng.choice([t for f in w.fams for t in f.texts])
    new = "2050-01-01"
    edit(t, lambda s: s[:-2] + f" revision {new};\n}}\n")
    return "ModuleNotFound"


def d_library_revision(w, lib, rng, edit):
    f = rng.choice(w.fams)
    entry(lib, f)["revision"] = "2050-01-01"
    return "ModuleNotFound"


def d_not_registered(w, lib, rng, edit):
    used = {x[1] for f in w.fams for t in f.texts for x in t.imports}
    used = sorted(used)
    if not used:
        return None
    n = rng.choice(used)
    lib["ietf-yang-library:modules-state"]["module"] = [e for e in mods(lib) if e["name"] != n]
    return "ModuleNotRegistered"


def d_revision_not_registered(w, lib, rng, edit):
    c = [(t, x) for f in w.fams for t in f.texts for x in t.imports]
    if not c:
        return None
    t, x = rng.choice(c)
    free = sorted(set("prq") - {t.prefix} - {y[0] for y in t.imports}) or ["zz"]
    edit(t, lambda s: s.replace("  import ", f"  import {x[1]} {{ prefix {free[0]}{free[0]}; revision-date 1980-01-01; }}\n  import ", 1))
    return "ModuleNotRegistered"


def d_two_implemented(w, lib, rng, edit):
    c = [fs for fs in w.byname.values() if len(fs) > 1]
    if not c:
        return None
    for f in rng.choice(c)[:2]:
        entry(lib, f)["conformance-type"] = "implement"
    return "MultipleImplementedRevisions"


def d_cycle(w, lib, rng, edit):
    im = [f for f in w.fams if f.impl]
    c = [(t, x) for f in im for t in f.texts for x in t.imports if x[3].impl]
    if not c:
        return None
    t, x = rng.choice(c)
    # an import in the other direction
    o = rng.choice(x[3].texts)
    if not t.fam.rev and len(w.byname[t.fam.name]) > 1:
        return None
    edit(o, lambda s: s.replace("  yang-version 1.1;", f"  yang-version 1.1;\n  import {t.fam.name} {{ prefix cyc; " +
                                (f"revision-date {t.fam.rev}; " if t.fam.rev else "") + "}", 1))
    return "CyclicImports"


def d_prerequisite(w, lib, rng, edit):
    c = [(f, n, e) for f in w.fams for n, pre in f.features.items() for e in pre if not e[1]]
    if not c:
        return None
    f, n, _ = rng.choice(c)
    entry(lib, f)["feature"] = sorted(f.enabled | {n})
    # what depends on the feature changes, too, but this one comes out false if it doesn't depend on itself
    return "FeaturePrerequisiteError"


def body(s, x):
    return s.rstrip()[:-1] + "  " + x + "\n}\n"


def some(w, rng, impl=True):
    return rng.choice([t for f in w.fams if f.impl or not impl for t in f.texts] or [None])


def d_prefix(w, lib, rng, edit):
    if some(w, rng) is None:
        return None
    x = rng.choice(["leaf zz { type zz:t0; }", "uses zz:g0;", "leaf zz { if-feature zz:f; type int8; }", "identity zz { base zz:i0; }",
                    "augment /zz:c { leaf zz { type int8; } }", 'leaf zz { type leafref { path "/zz:c/zz:d"; } }', 'container zz { must "zz:c"; }',
                    "feature zz { if-feature f; }\n  feature zy { if-feature zz:f; }"])
    if "feature zy" in x:
        t = rng.choice([f for f in w.fams if f.impl]).texts[0]
        e = entry(lib, t.fam)
        e["feature"] = sorted(t.fam.enabled | {"zy"})
    else:
        t = some(w, rng)
    edit(t, lambda s: body(s, x))
    return "UnknownPrefix InvalidArgument"


def d_definition(w, lib, rng, edit):
    t = some(w, rng)
    if t is None:
        return None
    p = rng.choice(["", t.prefix + ":"] + [x[0] + ":" for x in t.imports])
    edit(t, lambda s: body(s, rng.choice([f"leaf zz {{ type {p}nosuch; }}", f"container zz {{ uses {p}nosuch; }}"])))
    return "DefinitionNotFound"


def d_expression(w, lib, rng, edit):
    t = some(w, rng)
    if t is None:
        return None
    x = rng.choice(["f and", "(f", "or or or or", "not", "f g", "", "f, g", "f)", "not not", "and f", "1f", "f andg"])
    if verdict(x) != [None, None]:
        return None
    edit(t, lambda s: body(s, f'leaf zz {{ if-feature "{x}"; type int8; }}'))
    return "InvalidFeatureExpression"


def d_submodule_of_other(w, lib, rng, edit):
    c = [t for f in w.fams for t in f.texts[1:]]
    if not c:
        return None
    t = rng.choice(c)
    edit(t, lambda s: s.replace("belongs-to " + t.fam.name, "belongs-to other", 1))
    return "StatementNotFound"


def d_submodule_missing(w, lib, rng, edit):
    e = rng.choice(mods(lib))
    e.setdefault("submodule", []).append({"name": "nosuch", "revision": rng.choice(["", "2020-01-01"])})
    return "ModuleNotFound"


def d_syntax(w, lib, rng, edit):
    t = some(w, rng, False)
    edit(t, lambda s: rng.choice([s[:rng.randrange(5, len(s) - 3)], s.replace(";", " = ;", 1), s + "}", "x" + s]))
    return "ParserException ModuleNotFound"


def d_library_member(w, lib, rng, edit):
    e = rng.choice(mods(lib))
    m = rng.choice(["name", "revision", "conformance-type"])
    if rng.random() < 0.5:
        del e[m]
    else:
        e[m] = rng.choice([None, 1, [], {}, True])
    return "BadYangLibraryData"


def d_library_json(w, lib, rng, edit):
    s = json.dumps(lib)
    return ("BadYangLibraryData", rng.choice(["", "{", s[:-1], s + "}", "[]", "null", "1", "{}", '{"ietf-yang-library:modules-state": []}',
                                              json.dumps({"ietf-yang-library:yang-library": lib["ietf-yang-library:modules-state"]}),
                                              json.dumps(lib["ietf-yang-library:modules-state"]), '{"a": ' + "1" * 5000 + "}",
                                              "[" * 200000]))


def d_none(w, lib, rng, edit):
    """No defect: unused features, modules in another order."""
    e = rng.choice(mods(lib))
    e["feature"] = e.get("feature", []) + ["nosuch"]
    return "accepted"


DEFECTS = {k[2:].replace("_", "-"): f for k, f in list(globals().items()) if k.startswith("d_")}


GROUPS = [Group("resolution", resolution, 500, 8000), Group("expressions", expressions, 120, 2000), Group("defects", defects, 300, 5000)]
REQUIRE = {"default": 2000, "bases": 800, "present": 800, "identity values": 10000, "derived_from_all": 2000, "is_derived_from": 30000,
           "prefixes resolved": 100000, "feature expression true": 300, "feature expression false": 300,
           "damaged expressions: invalid": 1000, "damaged expressions: valid": 300, "prerequisite: FeaturePrerequisiteError": 40,
           "cycle: CyclicImports": 30, "two-implemented: MultipleImplementedRevisions": 40, "missing-file: ModuleNotFound": 40,
           "not-registered: ModuleNotRegistered": 40, "prefix: UnknownPrefix": 40, "library-member: BadYangLibraryData": 40}
